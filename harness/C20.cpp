// C20: approximate comparison of numbers, matrices and splines.
#include "common.hpp"
static double ab(double x) { return x < double(0) ? -x : x; }
// the definition: relative to the smaller magnitude, absolute when one of them is below the tolerance
static bool close(double a, double b, double m, double n, double tol) { double e = ab(a - b); (void)a; if (m < tol || n < tol) return e < tol; return e < tol * m && e < tol * n; }
HARNESS(C20, numbers, ({""}), ({}), ({})) {
  double a = h.real("a"), b = h.real("b"), tol = h.range("tol", num(1, 1000), num(1, 2));
  bool want = close(a, b, ab(a), ab(b), tol); h.require(tools::approx_equal(a, b, tol) == want, "approx_equal of numbers"); h.require(tools::approx_equal(b, a, tol) == want, "symmetric"); h.require(tools::approx_equal(a, a, tol), "reflexive"); h.require(tools::approx_zero(a, tol) == (ab(a) < tol), "approx_zero of a number");
}
static double maxabs(const Eigen::MatrixXd& m) { double r = double(0); for (long i = 0; i < m.rows(); i++) for (long j = 0; j < m.cols(); j++) if (r < ab(m(i, j))) r = ab(m(i, j)); return r; }
HARNESS(C20, matrices, ({"r=1,c=1"}), ({}), ({"r=2,c=1", "r=1,c=2,lin=1", "r=2,c=2", "r=3,c=4", "r=7,c=1"})) {
  long r = h.n("r"), c = h.n("c"); Eigen::MatrixXd a = h.mat("a", r, c), b = h.mat("b", r, c); double tol = h.n("lin", 0) ? num(1, 8) : h.range("tol", num(1, 1000), num(1, 2)); if (!h.symbolic() && h.real("near") > 0.0) b = a + num(1, 100) * b;
  double e = maxabs(a - b), m = maxabs(a), n = maxabs(b); bool want = (m < tol || n < tol) ? e < tol : e < tol * m && e < tol * n;
  if (!h.symbolic()) { h.assume(ab(e - tol) > 1e-9 && ab(e - tol * m) > 1e-9 && ab(e - tol * n) > 1e-9 && ab(m - tol) > 1e-9 && ab(n - tol) > 1e-9); }
  h.require(tools::approx_equal(a, b, tol) == want, "approx_equal of matrices"); h.require(tools::approx_equal(b, a, tol) == want, "symmetric"); h.require(tools::approx_equal(a, a, tol), "reflexive"); h.require(tools::approx_zero(a, tol) == (m < tol), "approx_zero of a matrix");
}
HARNESS(C20, sizes, ({""}), ({}), ({})) {
  Eigen::MatrixXd a = h.mat("a", 2, 3), z(0, 0), z2(0, 3); double tol = h.range("tol", num(1, 1000), num(1, 2));
  h.require(!tools::approx_equal(a, Eigen::MatrixXd(a.transpose()), tol), "transposed shapes"); h.require(!tools::approx_equal(a, Eigen::MatrixXd(a.topRows(1)), tol) && !tools::approx_equal(Eigen::MatrixXd(a.topRows(1)), a, tol), "fewer rows"); h.require(!tools::approx_equal(a, Eigen::MatrixXd(a.leftCols(2)), tol), "fewer columns"); h.require(tools::approx_equal(z, z, tol), "empty matrices"); h.require(!tools::approx_equal(z, a, tol) && !tools::approx_equal(a, z, tol), "empty and not empty");
}
// two splines that differ in one respect by more than the tolerance
HARNESS(C20, splines, ({"what=0", "what=1", "what=2", "what=3", "what=4", "what=5", "what=6", "what=7"}), ({}), ({})) {
  long what = h.n("what"); double t0 = h.range("t0", num(1, 4), double(3)), d = h.range("d", num(1, 1000), num(1, 4)); Eigen::VectorXd tau(2), c(12); for (long i = 0; i < 2; i++) tau(i) = h.symbolic() ? num(2 + i, 3) : h.range("tau" + std::to_string(i), num(1, 2), double(2)); for (long i = 0; i < 12; i++) c(i) = h.symbolic() ? num(3 * i - 11, 7) : h.range("c" + std::to_string(i), double(-2), double(2));
  auto mk = [&](double s, long D, Eigen::VectorXd l, const basis::Basis& b, const Eigen::VectorXd& y) { return GSpline({s, s + vh::total(l)}, D, l.size(), b, y, l); };
  basis::BasisLegendre b3(3), b6(6), b2(2); basis::BasisLagrange lg(vh::points(3, 0)); GSpline g = mk(t0, 2, tau, b3, c), same = mk(t0, 2, tau, b3, c); Eigen::VectorXd l2 = tau, y(c), l3(3); l3 << tau(0), tau(1), tau(0);
  h.require(g == same && same == g && !(g != same), "equal splines"); h.require(tools::approx_equal(g, same, num(1, 1000000)), "approx_equal of equal splines"); h.require(g.same_vector_space(same), "same space");
  if (what == 0) y(7) = y(7) + d; if (what == 1) l2(1) = l2(1) + d; if (what == 6) y(0) = y(0) - d; if (what == 7) l2(0) = l2(0) - d;
  GSpline q = what == 2 ? mk(t0 + d, 2, tau, b3, c) : what == 3 ? mk(t0, 2, tau, lg, c) : what == 4 ? mk(t0, 1, tau, b6, c) : what == 5 ? mk(t0, 2, l3, b2, c) : mk(t0, 2, l2, b3, y);
  h.require(g != q && q != g && !(g == q), "splines that differ"); h.require(!tools::approx_equal(g, q, num(1, 10000000)) && !tools::approx_equal(q, g, num(1, 10000000)), "approx_equal of splines that differ");
  bool space = what == 0 || what == 6; h.require(g.same_vector_space(q) == space && q.same_vector_space(g) == space, "same_vector_space"); if (what != 1 && what != 7 && what != 5) h.require(g.same_domain(q) == (what != 2), "same_domain");
}
HARNESS(C20, zero_splines, ({""}), ({}), ({})) {
  Eigen::VectorXd tau = h.posvec("tau", 1), c = h.vec("c", 2); double tol = h.range("tol", num(1, 1000), num(1, 2)); GSpline g({double(0), tau(0)}, 1, 1, basis::BasisLegendre(2), c, tau); double m = maxabs(c); h.require(tools::approx_zero(g, tol) == (m < tol), "approx_zero of a spline"); GSpline z = g - g; h.require(tools::approx_zero(z, tol), "g - g is zero");
}
