// Executable contracts.  The same harness text is compiled twice:
//  * real-arithmetic build (VERIF_SYMBOLIC): inputs are arbitrary reals; every
//    feasible path of the real code is taken and every obligation is decided
//    for all input values of that shape;
//  * plain build: the untouched code on machine doubles; used to replay
//    counterexamples and to test the assumed contracts.
#ifndef VERIF_HARNESS_HPP
#define VERIF_HARNESS_HPP
#include <bits/stdc++.h>
#include <eigen3/Eigen/Core>
namespace verif {
[[noreturn]] void assert_fail(const char*, const char*, int);
struct AssertFail : std::logic_error { using std::logic_error::logic_error; };
struct Reject {};
typedef std::map<std::string, long> Shape;
class H {
 public:
  Shape shape;
  long n(const std::string& k) const {
    auto it = shape.find(k);
    if (it == shape.end()) throw std::logic_error("harness: no shape " + k);
    return it->second;
  }
  long n(const std::string& k, long d) const {
    auto it = shape.find(k); return it == shape.end() ? d : it->second;
  }
  double real(const std::string& name);
  double pos(const std::string& name);
  double range(const std::string& name, double lo, double hi);
  Eigen::VectorXd vec(const std::string& name, long k);
  Eigen::VectorXd posvec(const std::string& name, long k);
  Eigen::MatrixXd mat(const std::string& name, long r, long c);
  void assume(bool b);
  // obligations
  void eq(double a, double b, const std::string& label, long scale = 1);
  template <class A, class B>
  void eqm(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b,
           const std::string& label, long scale = 1) {
    require(a.rows() == b.rows() && a.cols() == b.cols(), label + " (size)");
    if (a.rows() != b.rows() || a.cols() != b.cols()) return;
    for (long i = 0; i < a.rows(); i++)
      for (long j = 0; j < a.cols(); j++)
        eq(a(i, j), b(i, j), label + "[" + std::to_string(i) + "," + std::to_string(j) + "]", scale);
  }
  void require(bool b, const std::string& label);
  void throws(const std::string& label, const std::function<void()>& f);
  void nothrow(const std::string& label, const std::function<void()>& f);
  bool symbolic() const {
#ifdef VERIF_SYMBOLIC
    return true;
#else
    return false;
#endif
  }
};
typedef void (*Fn)(H&);
struct Reg {
  std::string prop, name; Fn fn;
  std::vector<std::string> quick, thorough, plain;
};
std::vector<Reg>& registry();
struct Add {
  Add(const char* prop, const char* name, Fn fn, std::vector<std::string> q,
      std::vector<std::string> t = {}, std::vector<std::string> p = {}) {
    registry().push_back({prop, name, fn, q, t, p});
  }
};
// HARNESS(C01, eval, ({"N=1"}), ({"N=4"}), ({"N=30"})) { ... h ... }
#define VERIF_UNPAREN(...) __VA_ARGS__
#define HARNESS(P, NAME, Q, T, L)                                           \
  static void P##_##NAME(verif::H&);                                        \
  static verif::Add add_##P##_##NAME(#P, #NAME, P##_##NAME,                 \
      std::vector<std::string> VERIF_UNPAREN Q,                             \
      std::vector<std::string> VERIF_UNPAREN T,                             \
      std::vector<std::string> VERIF_UNPAREN L);                            \
  static void P##_##NAME(verif::H& h)

// ---- truncated Taylor series, for derivative contracts
struct Jet {
  std::vector<double> c;  // c[k] = k-th derivative / k!
  Jet() {}
  Jet(double v, long order) : c(order + 1, double(0)) { c[0] = v; }
  static Jet var(double v, long order) { Jet j(v, order); if (order > 0) j.c[1] = 1.0; return j; }
  long ord() const { return (long)c.size() - 1; }
  double deriv(long k) const { double f = 1.0; for (long i = 2; i <= k; i++) f = f * double(i); return c[k] * f; }
};
inline Jet operator+(const Jet& a, const Jet& b) { Jet r = a; for (size_t i = 0; i < r.c.size(); i++) r.c[i] = a.c[i] + b.c[i]; return r; }
inline Jet operator-(const Jet& a, const Jet& b) { Jet r = a; for (size_t i = 0; i < r.c.size(); i++) r.c[i] = a.c[i] - b.c[i]; return r; }
inline Jet operator-(const Jet& a) { Jet r = a; for (auto& x : r.c) x = -x; return r; }
inline Jet operator*(const Jet& a, const Jet& b) {
  Jet r(0.0, a.ord());
  for (long i = 0; i <= a.ord(); i++) for (long j = 0; i + j <= a.ord(); j++) r.c[i + j] = r.c[i + j] + a.c[i] * b.c[j];
  return r;
}
inline Jet operator*(double k, const Jet& a) { Jet r = a; for (auto& x : r.c) x = k * x; return r; }
inline Jet jexp(const Jet& a) {
  Jet r(std::exp(a.c[0]), a.ord());
  for (long k = 1; k <= a.ord(); k++) { double s = 0.0; for (long j = 1; j <= k; j++) s = s + double(j) * a.c[j] * r.c[k - j]; r.c[k] = s / double(k); }
  return r;
}
inline void jsincos(const Jet& a, Jet& s, Jet& c) {
  s = Jet(std::sin(a.c[0]), a.ord()); c = Jet(std::cos(a.c[0]), a.ord());
  for (long k = 1; k <= a.ord(); k++) {
    double x = 0.0, y = 0.0;
    for (long j = 1; j <= k; j++) { x = x + double(j) * a.c[j] * c.c[k - j]; y = y - double(j) * a.c[j] * s.c[k - j]; }
    s.c[k] = x / double(k); c.c[k] = y / double(k);
  }
}
// f(g) from the Taylor coefficients of f at g(0)
inline Jet jcompose(const Jet& f, const Jet& g) {
  Jet h = g; h.c[0] = 0.0; Jet r(f.c[f.ord()], f.ord());
  for (long k = f.ord() - 1; k >= 0; k--) { r = r * h; r.c[0] = r.c[0] + f.c[k]; }
  return r;
}
// polynomials in one variable, power basis
struct Poly {
  std::vector<double> a;
  explicit Poly(std::vector<double> v = {}) : a(v) {}
  double operator()(double x) const { double r = 0.0; for (size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
  Poly d() const { std::vector<double> b; for (size_t i = 1; i < a.size(); i++) b.push_back(double((long)i) * a[i]); if (b.empty()) b.push_back(0.0); return Poly(b); }
  Poly dn(long k) const { Poly p = *this; while (k-- > 0) p = p.d(); return p; }
  double integ(double lo, double hi) const { double r = 0.0, u = lo, v = hi; for (size_t i = 0; i < a.size(); i++) { r = r + a[i] * (v - u) / double((long)i + 1); u = u * lo; v = v * hi; } return r; }
};
inline Poly operator*(const Poly& p, const Poly& q) { std::vector<double> r(p.a.size() + q.a.size() - 1, double(0)); for (size_t i = 0; i < p.a.size(); i++) for (size_t j = 0; j < q.a.size(); j++) r[i + j] = r[i + j] + p.a[i] * q.a[j]; return Poly(r); }
inline Poly operator+(const Poly& p, const Poly& q) { std::vector<double> r(std::max(p.a.size(), q.a.size()), double(0)); for (size_t i = 0; i < p.a.size(); i++) r[i] = r[i] + p.a[i]; for (size_t i = 0; i < q.a.size(); i++) r[i] = r[i] + q.a[i]; return Poly(r); }
inline Poly operator*(double k, const Poly& p) { Poly r = p; for (auto& x : r.a) x = k * x; return r; }
inline Poly poly_x() { return Poly({double(0), double(1)}); }
inline Poly legendre(long n) {
  Poly p0(std::vector<double>{double(1)}), p1 = poly_x();
  if (n == 0) return p0;
  for (long k = 1; k < n; k++) { Poly p2 = (double(2 * k + 1) / double(k + 1)) * (poly_x() * p1) + (-(double(k) / double(k + 1))) * p0; p0 = p1; p1 = p2; }
  return p1;
}
inline Poly lagrange(const Eigen::VectorXd& x, long j) {
  Poly p(std::vector<double>{double(1)});
  for (long i = 0; i < x.size(); i++) if (i != j) p = (1.0 / (x(j) - x(i))) * (p * Poly({-x(i), double(1)}));
  return p;
}
// fixed, pairwise different rational values (no free symbols)
inline double num(long n, long d) { return double(n) / double(d); }
}  // namespace verif
#endif
