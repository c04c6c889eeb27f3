// C01: the value of a spline is the combination of basis functions of the
// interval that contains the point.
#include "common.hpp"
// shape: N intervals, D codomain dim, B basis kind, dim
static void check_def(H& h, const GSplineBase& g, long B, long dim, long N, long D, double t0, const Eigen::VectorXd& tau, const Eigen::VectorXd& c) {
  Eigen::VectorXd t(3);
  t(0) = vh::any_point(h, "t", B, dim, t0, tau); t(1) = t0 + tau(0) / double(3); t(2) = t0 + vh::total(tau);
  Eigen::MatrixXd v = g(t), w(3, D), u = g.value(t);
  g.value(t, w);
  h.require(v.rows() == 3 && v.cols() == D, "one row per point and one column per component");
  for (long p = 0; p < 3; p++) for (long d = 0; d < D; d++) {
    double want = vh::spline_def(B, dim, D, t0, tau, c, d, 0, t(p));
    h.eq(v(p, d), want, "value of component " + std::to_string(d) + " at point " + std::to_string(p));
    h.eq(w(p, d), want, "value into a buffer"); h.eq(u(p, d), want, "value()");
  }
  (void)N;
}
HARNESS(C01, evaluation, ({"N=1,D=1,B=0,dim=2", "N=2,D=2,B=0,dim=4", "N=3,D=1,B=0,dim=3", "N=2,D=2,B=2,dim=3", "N=2,D=1,B=3"}),
        ({"N=4,D=2,B=0,dim=6", "N=5,D=1,B=0,dim=2", "N=3,D=3,B=1,dim=4", "N=3,D=2,B=3"}), ({"N=40,D=7,B=0,dim=6", "N=17,D=3,B=1,dim=5", "N=5,D=2,B=3", "N=6,D=6,B=0,dim=10"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim);
  auto b = vh::make_basis(B, dim);
  GSpline g({t0, t0 + vh::total(tau)}, D, N, *b, c, tau);
  check_def(h, g, B, dim, N, D, t0, tau, c);
}
HARNESS(C01, evaluation_moved_data, ({"N=2,D=2,B=0,dim=3"}), ({"N=3,D=2,B=2,dim=3"}), ({"N=9,D=4,B=0,dim=5"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim);
  Eigen::VectorXd c2 = c, tau2 = tau;
  std::unique_ptr<GSpline> g;
  { auto b = vh::make_basis(B, dim); g = std::make_unique<GSpline>(std::pair<double, double>{t0, t0 + vh::total(tau)}, D, N, *b, std::move(c2), std::move(tau2)); }
  check_def(h, *g, B, dim, N, D, t0, tau, c);
}
// many points in one call, in any order, with repetitions
HARNESS(C01, many_points, ({"N=2,D=1,B=0,dim=2"}), ({"N=3,D=2,B=0,dim=3"}), ({"N=12,D=3,B=0,dim=4", "N=3,D=2,B=3"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim);
  auto b = vh::make_basis(B, dim);
  GSpline g({t0, t0 + vh::total(tau)}, D, N, *b, c, tau);
  long P = 2 * N + 3; Eigen::VectorXd t(P); double l = t0;
  for (long i = 0; i < N; i++) { t(2 * (N - 1 - i)) = l; t(2 * (N - 1 - i) + 1) = l + tau(i) / double(4); l = l + tau(i); }
  t(P - 3) = l; t(P - 2) = t0 - double(1); t(P - 1) = l + double(2);
  Eigen::MatrixXd v = g(t);
  for (long p = 0; p < P; p++) for (long d = 0; d < D; d++)
    h.eq(v(p, d), vh::spline_def(B, dim, D, t0, tau, c, d, 0, t(p)), "value at point " + std::to_string(p));
}
