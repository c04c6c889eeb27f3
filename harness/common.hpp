// helpers shared by the executable contracts
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "harness.hpp"
#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/Function.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Tools.hpp>
using namespace gsplines;
using namespace verif;
namespace vh {
// fixed interpolation points, strictly increasing, rational
inline Eigen::VectorXd points(long n, long kind) {
  Eigen::VectorXd x(n);
  for (long i = 0; i < n; i++) {
    if (kind == 0) x(i) = n == 1 ? double(0) : num(-(n - 1) + 2 * i, n - 1);  // equispaced, with end points
    else x(i) = num(-3 * n + 5 * i + (i % 2), 4 * n);                         // irregular, without end points
  }
  return x;
}
// kind: 0 Legendre, 1 Lagrange equispaced, 2 Lagrange irregular, 3 basis0101
inline std::unique_ptr<basis::Basis> make_basis(long kind, long dim) {
  if (kind == 0) return std::make_unique<basis::BasisLegendre>(dim);
  if (kind == 1) return std::make_unique<basis::BasisLagrange>(points(dim, 0));
  if (kind == 2) return std::make_unique<basis::BasisLagrange>(points(dim, 1));
  return std::make_unique<basis::Basis0101>(num(16, 17));
}
// value of the j-th polynomial basis function
inline Poly basis_poly(long kind, long dim, long j) {
  return kind == 0 ? legendre(j) : lagrange(points(dim, kind - 1), j);
}

// A Lagrange basis returns the cardinal vector of a node when s is within
// 1e-9 of it: s is taken either exactly at a node or farther than that away.
inline void away(H& h, double s, long kind, long dim) {
  if (kind != 1 && kind != 2) return;
  Eigen::VectorXd x = points(dim, kind - 1);
  for (long i = 0; i < dim; i++) {
    if (s == x(i)) return;
    if (s < x(i) - num(1, 1000000)) return;
    h.assume(s > x(i) + num(1, 1000000));
  }
}
inline double alpha() { return num(16, 17); }
inline double k0101(double a) { return std::sqrt(double(2)) / double(4) * std::pow(a, double(0.25)) / std::pow(double(1) - a, double(0.25)); }
// d-th derivative, with respect to u, of the six functions of basis0101
inline double phi0101(long j, long d, double u) {
  if (j == 4) return d == 0 ? u : d == 1 ? double(1) : double(0);
  if (j == 5) return d == 0 ? double(1) : double(0);
  Jet x = Jet::var(u, d), s, c; jsincos(x, s, c);
  Jet e = jexp(j < 2 ? x : -x);
  return (e * (j % 2 ? s : c)).deriv(d);
}
inline double ipow(double x, long n) { double r = double(1); for (long i = 0; i < n; i++) r = r * x; return r; }
// d-th time derivative of basis function j on an interval of length tau
inline double phi(long kind, long dim, long j, long d, double s, double tau, double al = alpha()) {
  if (kind == 3) { double k = k0101(al); return ipow(double(2) * k, d) * phi0101(j, d, k * tau * s); }
  return ipow(double(2) / tau, d) * basis_poly(kind, dim, j).dn(d)(s);
}
// its derivative with respect to tau, s fixed
inline double phi_tau(long kind, long dim, long j, long d, double s, double tau) {
  if (kind == 3) { double k = k0101(alpha()); return ipow(double(2) * k, d) * k * s * phi0101(j, d + 1, k * tau * s); }
  if (d == 0) return double(0);
  return double(-d) / tau * phi(kind, dim, j, d, s, tau);
}
// sum of the interval lengths
inline double total(const Eigen::VectorXd& tau) { double t = double(0); for (long i = 0; i < tau.size(); i++) t = t + tau(i); return t; }
// interval that contains t, by the definition: the first whose right end is >= t,
// clamped to the first and the last
inline long interval_of(double t, double t0, const Eigen::VectorXd& tau) {
  long N = tau.size(); double r = t0;
  for (long i = 0; i < N; i++) { r = r + tau(i); if (t <= r) return i; }
  return N - 1;
}
inline double left_of(long k, double t0, const Eigen::VectorXd& tau) { double l = t0; for (long i = 0; i < k; i++) l = l + tau(i); return l; }
// d-th derivative of component `c` of the spline at t
inline double spline_def(long kind, long dim, long D, double t0, const Eigen::VectorXd& tau, const Eigen::VectorXd& y, long c, long d, double t, double al = alpha()) {
  long k = interval_of(t, t0, tau);
  double s = double(2) * (t - left_of(k, t0, tau)) / tau(k) - double(1), r = double(0);
  for (long j = 0; j < dim; j++) r = r + y(k * D * dim + c * dim + j) * phi(kind, dim, j, d, s, tau(k), al);
  return r;
}
// a point anywhere (also outside the domain), away from Lagrange snap zones
inline double any_point(H& h, const std::string& n, long kind, long dim, double t0, const Eigen::VectorXd& tau) {
  double t = h.real(n);
  if (kind == 1 || kind == 2) { long k = interval_of(t, t0, tau); away(h, double(2) * (t - left_of(k, t0, tau)) / tau(k) - double(1), kind, dim); }
  return t;
}
inline Eigen::VectorXd one(double t) { Eigen::VectorXd v(1); v(0) = t; return v; }
inline long bdim(H& h) { return h.n("B") == 3 ? 6 : h.n("dim"); }
}  // namespace vh
#endif
