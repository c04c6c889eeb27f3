// C06: the derivative of a spline is a spline whose value is the derivative.
#include "common.hpp"
static void same_frame(H& h, const GSplineBase& d, const GSplineBase& g) {
  h.require(d.get_codom_dim() == g.get_codom_dim() && d.get_number_of_intervals() == g.get_number_of_intervals() && d.get_basis() == g.get_basis(), "the derivative has the same basis, intervals and codomain");
  h.eq(d.get_domain().first, g.get_domain().first, "left end"); h.eq(d.get_domain().second, g.get_domain().second, "right end");
  h.eqm(d.get_interval_lengths(), g.get_interval_lengths(), "interval lengths");
}
HARNESS(C06, derivative_of_gspline, ({"N=1,D=1,B=0,dim=1,hi=2", "N=2,D=2,B=0,dim=4,hi=4", "N=2,D=1,B=2,dim=3,hi=3", "N=2,D=1,B=3,hi=4"}),
        ({"N=3,D=2,B=0,dim=6,hi=6", "N=3,D=2,B=1,dim=4,hi=4", "N=3,D=2,B=3,hi=6"}), ({"N=9,D=3,B=0,dim=6,hi=4", "N=4,D=2,B=1,dim=5,hi=3", "N=3,D=3,B=3,hi=5"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h), hi = h.n("hi");
  double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim);
  auto b = vh::make_basis(B, dim); GSpline g({t0, t0 + vh::total(tau)}, D, N, *b, c, tau);
  double t = vh::any_point(h, "t", B, dim, t0, tau);
  GSpline rep = g;
  for (long d = 0; d <= hi; d++) {
    GSpline gd = g.derivate(d);
    same_frame(h, gd, g);
    Eigen::MatrixXd v = gd(vh::one(t)), w = rep.value(vh::one(t));
    h.require(v.rows() == 1 && v.cols() == D, "size");
    for (long k = 0; k < D; k++) {
      double want = vh::spline_def(B, dim, D, t0, tau, c, k, d, t);
      h.eq(v(0, k), want, "derivative " + std::to_string(d), 1000000); h.eq(w(0, k), want, std::to_string(d) + " times the first derivative", 1000000);
    }
    if (d < hi) { GSpline nx = rep.derivate(); rep.~GSpline(); new (&rep) GSpline(nx); }
  }
  h.eqm(g.get_coefficients(), c, "the spline itself is unchanged");
  // through the abstract interface, highest order first
  const functions::FunctionBase& f = g;
  for (long d = hi; d >= 0; d -= 2) { auto e = f.deriv(d); Eigen::MatrixXd v = (*e)(vh::one(t)); for (long k = 0; k < D; k++) h.eq(v(0, k), vh::spline_def(B, dim, D, t0, tau, c, k, d, t), "deriv() through the base class", 1000000); }
}
HARNESS(C06, derivative_of_collocation_spline, ({"N=2,D=1,n=3", "N=1,D=2,n=4"}), ({"N=3,D=2,n=3"}), ({"N=5,D=3,n=6"})) {
  long N = h.n("N"), D = h.n("D"), n = h.n("n"); double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * n);
  collocation::GLLSpline g({t0, t0 + vh::total(tau)}, D, N, n, c, tau);
  Eigen::VectorXd x = collocation::legendre_gauss_lobatto_points(n);
  for (long d = 0; d <= 3; d++) {
    collocation::GLLSpline gd = g.derivate(d); same_frame(h, gd, g);
    for (long k = 0; k < N; k++) {
      double s = num(3 * k + 1, 7 * N), t = vh::left_of(k, t0, tau) + (s + double(1)) * tau(k) / double(2);
      Eigen::MatrixXd v = gd(vh::one(t));
      for (long q = 0; q < D; q++) { double w = double(0); for (long j = 0; j < n; j++) w = w + c(k * D * n + q * n + j) * lagrange(x, j).dn(d)(s); h.eq(v(0, q), vh::ipow(double(2) / tau(k), d) * w, "derivative " + std::to_string(d), 100000); }
    }
  }
}
