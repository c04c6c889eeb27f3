// Prelude for the "real-arithmetic" build of /repo's own sources.
// Every std and Eigen header is read first, with the built-in double.  After
// that, the token `double` (and `float`) means sym::Real, a mathematical real
// number that carries its defining term.  /repo's sources are compiled
// unchanged after this header (-include).
#ifndef VERIF_SYM_PRELUDE
#define VERIF_SYM_PRELUDE
#include <bits/stdc++.h>
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>

#include "sym_rt.hpp"
#include "../shim/assert.h"
#undef eigen_assert
#define eigen_assert(e) assert(e)
namespace sym {
typedef double bdouble;
class Real;
class Real {
 public:
  uint64_t tag;  // 0: constant c;  otherwise MAGIC<<32 | node id
  bdouble c;
  Real() = default;  // deliberately uninitialised, like double
  template <class T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
  constexpr Real(T v) : tag(0), c(static_cast<bdouble>(v)) {}
  template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0,
            int = 0>
  constexpr Real(T v) : tag(0), c(static_cast<bdouble>(v)) {}
  template <class T, std::enable_if_t<std::is_enum_v<T>, int> = 0, char = 0>
  constexpr Real(T v) : tag(0), c(static_cast<bdouble>(static_cast<long>(v))) {}
  struct Raw {};
  Real(Raw, uint64_t t) : tag(t), c(0) {}
  uint64_t id() const { return tag ? tag : mk_const_d(c); }
  template <class T, std::enable_if_t<std::is_integral_v<T> &&
                                          !std::is_same_v<T, bool>,
                                      int> = 0>
  operator T() const {
    return static_cast<T>(to_integer(id()));
  }
  explicit operator bool() const { return !branch(EQ, id(), mk_const_i(0)); }
  Real operator-() const { return Real(Raw{}, mk_un(NEG, id())); }
  Real operator+() const { return *this; }
  Real& operator+=(const Real& o);
  Real& operator-=(const Real& o);
  Real& operator*=(const Real& o);
  Real& operator/=(const Real& o);
  Real& operator++() { return *this += Real(1); }
  Real& operator--() { return *this -= Real(1); }
};
#define VERIF_ARITH(T) \
  std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, int> = 0
#define VERIF_OP(sy, OP)                                             \
  inline Real operator sy(const Real& a, const Real& b) {            \
    return Real(Real::Raw{}, mk_bin(OP, a.id(), b.id()));            \
  }                                                                  \
  template <class T, VERIF_ARITH(T)>                                 \
  inline Real operator sy(const Real& a, T b) {                      \
    return a sy Real(b);                                             \
  }                                                                  \
  template <class T, VERIF_ARITH(T)>                                 \
  inline Real operator sy(T a, const Real& b) {                      \
    return Real(a) sy b;                                             \
  }
VERIF_OP(+, ADD)
VERIF_OP(-, SUB)
VERIF_OP(*, MUL)
VERIF_OP(/, DIV)
#undef VERIF_OP
inline Real& Real::operator+=(const Real& o) { return *this = *this + o; }
inline Real& Real::operator-=(const Real& o) { return *this = *this - o; }
inline Real& Real::operator*=(const Real& o) { return *this = *this * o; }
inline Real& Real::operator/=(const Real& o) { return *this = *this / o; }
#define VERIF_CMP(sy, expr)                                    \
  inline bool operator sy(const Real& a, const Real& b) {      \
    return expr;                                               \
  }                                                            \
  template <class T, VERIF_ARITH(T)>                           \
  inline bool operator sy(const Real& a, T b) {                \
    return a sy Real(b);                                       \
  }                                                            \
  template <class T, VERIF_ARITH(T)>                           \
  inline bool operator sy(T a, const Real& b) {                \
    return Real(a) sy b;                                       \
  }
VERIF_CMP(<, branch(LT, a.id(), b.id()))
VERIF_CMP(>, branch(LT, b.id(), a.id()))
VERIF_CMP(<=, branch(LE, a.id(), b.id()))
VERIF_CMP(>=, branch(LE, b.id(), a.id()))
VERIF_CMP(==, branch(EQ, a.id(), b.id()))
VERIF_CMP(!=, !branch(EQ, a.id(), b.id()))
#undef VERIF_CMP
inline Real sqrt(const Real& a) { return Real(Real::Raw{}, mk_un(SQRT, a.id())); }
inline Real exp(const Real& a) { return Real(Real::Raw{}, mk_un(EXP, a.id())); }
inline Real sin(const Real& a) { return Real(Real::Raw{}, mk_un(SIN, a.id())); }
inline Real cos(const Real& a) { return Real(Real::Raw{}, mk_un(COS, a.id())); }
inline Real log(const Real& a) { return Real(Real::Raw{}, mk_un(LOG, a.id())); }
inline Real tan(const Real& a) { return sin(a) / cos(a); }
inline Real cosh(const Real& a) { return (exp(a) + exp(-a)) / Real(2); }
inline Real sinh(const Real& a) { return (exp(a) - exp(-a)) / Real(2); }
inline Real tanh(const Real& a) { return sinh(a) / cosh(a); }
inline Real abs(const Real& a) { return a < Real(0) ? -a : a; }
inline Real fabs(const Real& a) { return abs(a); }
inline Real fmin(const Real& a, const Real& b) { return b < a ? b : a; }
inline Real fmax(const Real& a, const Real& b) { return a < b ? b : a; }
inline Real hypot(const Real& a, const Real& b) { return sqrt(a * a + b * b); }
inline Real floor(const Real& a) { return Real(Real::Raw{}, mk_un(FLOOR, a.id())); }
inline Real ceil(const Real& a) { return -floor(-a); }
inline Real trunc(const Real& a) { return a < Real(0) ? ceil(a) : floor(a); }
inline Real round(const Real& a) { return a < Real(0) ? -floor(-a + Real(0.5)) : floor(a + Real(0.5)); }
inline bool isnan(const Real&) { return false; }
inline bool isinf(const Real&) { return false; }
inline bool isfinite(const Real&) { return true; }
inline bool signbit(const Real& a) { return a < Real(0); }
inline Real copysign(const Real& a, const Real& b) { Real m = abs(a); return b < Real(0) ? -m : m; }
inline Real fma(const Real& a, const Real& b, const Real& c) { return a * b + c; }
inline Real pow(const Real& a, const Real& b) {
  return Real(Real::Raw{}, mk_pow(a.id(), b.id()));
}
template <class T, VERIF_ARITH(T)>
inline Real pow(const Real& a, T b) { return pow(a, Real(b)); }
template <class T, VERIF_ARITH(T)>
inline Real pow(T a, const Real& b) { return pow(Real(a), b); }
inline Real cbrt(const Real& a) { return pow(a, Real(1.0 / 3.0)); }
inline std::ostream& operator<<(std::ostream& o, const Real& r) { return o << show(r.id()); }
}  // namespace sym
namespace std {
using sym::abs; using sym::fabs; using sym::sqrt; using sym::exp;
using sym::sin; using sym::cos; using sym::log; using sym::pow;
using sym::tan; using sym::floor; using sym::ceil; using sym::trunc; using sym::round;
using sym::cosh; using sym::sinh; using sym::tanh; using sym::fma;
using sym::isnan; using sym::isinf; using sym::isfinite; using sym::hypot; using sym::cbrt;
using sym::fmin; using sym::fmax; using sym::signbit; using sym::copysign;
inline string to_string(const sym::Real& r) { return sym::show(r.id()); }
template <>
struct numeric_limits<sym::Real> : numeric_limits<double> {
  static sym::Real min() { return numeric_limits<double>::min(); }
  static sym::Real max() { return numeric_limits<double>::max(); }
  static sym::Real lowest() { return numeric_limits<double>::lowest(); }
  static sym::Real epsilon() { return numeric_limits<double>::epsilon(); }
  static sym::Real infinity() { return numeric_limits<double>::max(); }
};
template <>
struct hash<sym::Real> {
  size_t operator()(const sym::Real& r) const { return r.id(); }
};
}  // namespace std

#include <Eigen/Core>
namespace Eigen {
template <>
struct NumTraits<sym::Real> : GenericNumTraits<sym::Real> {
  typedef sym::Real Real;
  typedef sym::Real NonInteger;
  typedef sym::Real Nested;
  typedef double Literal;
  static inline Real epsilon() { return Real(2.220446049250313e-16); }
  static inline Real dummy_precision() { return Real(1e-12); }
  static inline Real highest() { return Real(1.7e308); }
  static inline Real lowest() { return Real(-1.7e308); }
  static inline int digits10() { return 15; }
  enum {
    IsInteger = 0, IsSigned = 1, IsComplex = 0, RequireInitialization = 0,
    ReadCost = 1, AddCost = 2, MulCost = 2
  };
};
#define VERIF_SBT(T)                                                        \
  template <class Op> struct ScalarBinaryOpTraits<sym::Real, T, Op> {       \
    typedef sym::Real ReturnType; };                                        \
  template <class Op> struct ScalarBinaryOpTraits<T, sym::Real, Op> {       \
    typedef sym::Real ReturnType; };
VERIF_SBT(double) VERIF_SBT(int) VERIF_SBT(long) VERIF_SBT(unsigned)
VERIF_SBT(unsigned long)
#undef VERIF_SBT
}  // namespace Eigen
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/SparseCore>
#include <Eigen/SparseLU>
#include <Eigen/SparseQR>
#include <Eigen/Geometry>

// Assumed contract of Eigen's sparse LU: solve(b) returns x with A x = b
// when A is regular.  Here: exact Gaussian elimination over the term field.
namespace Eigen {
template <int Opt, class SI, class Ord>
class SparseLU<SparseMatrix<sym::Real, Opt, SI>, Ord> {
 public:
  typedef SparseMatrix<sym::Real, Opt, SI> MatrixType;
  typedef Matrix<sym::Real, Dynamic, Dynamic> Dense;
  SparseLU() : ok_(false) {}
  explicit SparseLU(const MatrixType& a) : ok_(false) { compute(a); }
  void isSymmetric(bool) {}
  void analyzePattern(const MatrixType&) {}
  void factorize(const MatrixType& a) { compute(a); }
  void compute(const MatrixType& a) {
    a_ = Dense(a);
    ok_ = a_.rows() == a_.cols();
    if (ok_) ok_ = eliminate(a_, Dense::Zero(a_.rows(), 0)).second;
  }
  ComputationInfo info() const { return ok_ ? Success : NumericalIssue; }
  std::string lastErrorMessage() const { return ok_ ? "" : "singular"; }
  template <class D>
  Dense solve(const MatrixBase<D>& b) const {
    eigen_assert(ok_);
    return eliminate(a_, Dense(b)).first;
  }
 private:
  static bool zero(const sym::Real& r) { return sym::is_zero(r.id()); }
  static std::pair<Dense, bool> eliminate(Dense a, Dense b) {
    const Index n = a.rows(), m = b.cols();
    std::vector<Index> pivrow(n, -1);
    std::vector<char> used(n, 0);
    for (Index c = 0; c < n; ++c) {
      Index best = -1, bestcnt = 0;
      for (Index r = 0; r < n; ++r) {
        if (used[r] || zero(a(r, c))) continue;
        Index cnt = 0;
        for (Index k = c; k < n; ++k) cnt += !zero(a(r, k));
        if (best < 0 || cnt < bestcnt) { best = r; bestcnt = cnt; }
      }
      if (best < 0) return {b, false};
      used[best] = 1; pivrow[c] = best;
      for (Index r = 0; r < n; ++r) {
        if (used[r] || zero(a(r, c))) continue;
        sym::Real f = a(r, c) / a(best, c);
        for (Index k = c + 1; k < n; ++k)
          if (!zero(a(best, k))) a(r, k) -= f * a(best, k);
        a(r, c) = sym::Real(0);
        for (Index k = 0; k < m; ++k)
          if (!zero(b(best, k))) b(r, k) -= f * b(best, k);
      }
    }
    Dense x(n, m);
    for (Index c = n; c-- > 0;) {
      const Index r = pivrow[c];
      for (Index k = 0; k < m; ++k) {
        sym::Real s = b(r, k);
        for (Index j = c + 1; j < n; ++j)
          if (!zero(a(r, j))) s -= a(r, j) * x(j, k);
        x(c, k) = s / a(r, c);
      }
    }
    return {x, true};
  }
  Dense a_;
  bool ok_;
};
}  // namespace Eigen
namespace Eigen {
#define VERIF_T(N)                                                            \
  using Sym##Matrix##N = Matrix<sym::Real, N == 0 ? Dynamic : N, N == 0 ? Dynamic : N>; \
  using Sym##Vector##N = Matrix<sym::Real, N == 0 ? Dynamic : N, 1>;          \
  using Sym##RowVector##N = Matrix<sym::Real, 1, N == 0 ? Dynamic : N>;
VERIF_T(0) VERIF_T(2) VERIF_T(3) VERIF_T(4)
using SymArrayX = Array<sym::Real, Dynamic, 1>;
using SymArrayXX = Array<sym::Real, Dynamic, Dynamic>;
#undef VERIF_T
}  // namespace Eigen
#undef VERIF_ARITH
#define MatrixXd SymMatrix0
#define VectorXd SymVector0
#define RowVectorXd SymRowVector0
#define Matrix2d SymMatrix2
#define Matrix3d SymMatrix3
#define Matrix4d SymMatrix4
#define Vector2d SymVector2
#define Vector3d SymVector3
#define Vector4d SymVector4
#define ArrayXd SymArrayX
#define ArrayXXd SymArrayXX
#define double sym::Real
#define float sym::Real
#define VERIF_SYMBOLIC 1
#endif
