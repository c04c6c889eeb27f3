// C07: the interpolant passes through the way-points, has the promised
// continuity and zero boundary derivatives, whatever was computed before.
#include "common.hpp"
static double side(long kind, long dim, long D, const Eigen::VectorXd& tau, const Eigen::VectorXd& y, long k, long c, long d, long s) {
  double r = double(0); for (long j = 0; j < dim; j++) r = r + y(k * D * dim + c * dim + j) * vh::phi(kind, dim, j, d, double(s), tau(k)); return r;
}
static void contract(H& h, const GSpline& g, long B, long dim, long N, long D, const Eigen::VectorXd& tau, const Eigen::MatrixXd& wp, const std::string& w) {
  const Eigen::VectorXd y = g.get_coefficients(); const long sc = 100000;
  h.eq(g.get_domain().first, double(0), w + "starts at time zero"); h.eq(g.get_domain().second, vh::total(tau), w + "ends after the sum of the lengths");
  h.eqm(g.get_interval_lengths(), tau, w + "interval lengths");
  h.require(g.get_codom_dim() == (size_t)D && g.get_number_of_intervals() == (size_t)N && g.get_basis_dim() == (size_t)dim && y.size() == N * D * dim, w + "sizes");
  for (long c = 0; c < D; c++) {
    for (long k = 0; k < N; k++) {
      h.eq(side(B, dim, D, tau, y, k, c, 0, -1), wp(k, c), w + "left way-point of interval " + std::to_string(k), 100);
      h.eq(side(B, dim, D, tau, y, k, c, 0, 1), wp(k + 1, c), w + "right way-point of interval " + std::to_string(k), 100);
      if (k) for (long d = 1; d <= dim - 2; d++) h.eq(side(B, dim, D, tau, y, k - 1, c, d, 1), side(B, dim, D, tau, y, k, c, d, -1), w + "continuity of derivative " + std::to_string(d), sc);
    }
    for (long d = 1; d <= dim / 2 - 1; d++) { h.eq(side(B, dim, D, tau, y, 0, c, d, -1), double(0), w + "zero derivative " + std::to_string(d) + " at the start", sc); h.eq(side(B, dim, D, tau, y, N - 1, c, d, 1), double(0), w + "zero derivative " + std::to_string(d) + " at the end", sc); }
  }
}
static Eigen::VectorXd lens(H& h, const std::string& n, long N) { Eigen::VectorXd t = h.posvec(n, N); for (long i = 0; i < N; i++) h.assume(t(i) >= num(1, 100)); return t; }
HARNESS(C07, interpolant, ({"N=1,D=2,B=0,dim=2", "N=1,D=1,B=0,dim=6", "N=2,D=2,B=0,dim=4", "N=3,D=1,B=0,dim=4", "N=2,D=1,B=1,dim=4", "N=2,D=1,B=3", "N=3,D=2,B=0,dim=2"}),
        ({"N=4,D=1,B=0,dim=4", "N=2,D=2,B=0,dim=6", "N=3,D=1,B=2,dim=4"}), ({"N=8,D=3,B=0,dim=6", "N=15,D=2,B=0,dim=4", "N=4,D=2,B=1,dim=4", "N=3,D=2,B=3"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  Eigen::VectorXd tau = lens(h, "tau", N); Eigen::MatrixXd wp = h.mat("w", N + 1, D); auto b = vh::make_basis(B, dim);
  contract(h, interpolate(tau, wp, *b), B, dim, N, D, tau, wp, "interpolate: ");
  Interpolator in(D, N, *b);
  contract(h, in.interpolate(tau, wp), B, dim, N, D, tau, wp, "Interpolator: ");
  if (B == 0) contract(h, pw_polynomial_interpolation(tau, wp, dim), B, dim, N, D, tau, wp, "pw_polynomial_interpolation: ");
}
// one Interpolator used for different data, and for sensitivities in between
HARNESS(C07, history, ({"N=2,D=1,B=0,dim=4", "N=1,D=2,B=0,dim=4"}), ({"N=3,D=1,B=0,dim=4", "N=2,D=1,B=3"}), ({"N=6,D=2,B=0,dim=6"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  Eigen::VectorXd t1 = lens(h, "a", N), t2 = lens(h, "b", N); Eigen::MatrixXd w1 = h.mat("v", N + 1, D), w2 = h.mat("w", N + 1, D);
  auto b = vh::make_basis(B, dim); Interpolator in(D, N, *b);
  GSpline g1 = in.interpolate(t1, w1);
  Eigen::VectorXd y1 = g1.get_coefficients();
  for (long i = 0; i < N; i++) in.get_coeff_derivative_wrt_tau(y1, t1, i);
  GSpline g2 = in.interpolate(t2, w2);
  contract(h, g2, B, dim, N, D, t2, w2, "second use: "); contract(h, g1, B, dim, N, D, t1, w1, "first result is unchanged: ");
  for (long i = 0; i < N; i++) {
    in.get_coeff_derivative_wrt_tau(y1, t1, i); GSpline g = in.interpolate(t2, w2); contract(h, g, B, dim, N, D, t2, w2, "after a sensitivity at other lengths: ");
  }
  GSpline g3 = in.interpolate(t1, w1); contract(h, g3, B, dim, N, D, t1, w1, "third use: ");
}
HARNESS(C07, rejections, ({"N=2,D=1"}), ({"N=3,D=2"}), ({"N=5,D=2"})) {
  long N = h.n("N"), D = h.n("D"); Eigen::MatrixXd wp = h.mat("w", N + 1, D);
  for (long dim = 1; dim <= 7; dim += 2) { basis::BasisLegendre b(dim); h.throws("a basis of odd dimension", [&] { Interpolator in(D, N, b); }); h.throws("a basis of odd dimension", [&] { interpolate(lens(h, "tau", N), wp, b); }); }
  basis::BasisLegendre b(4);
  for (long i = 0; i < N; i++) { Eigen::VectorXd t = lens(h, "tau", N); t(i) = h.range("neg", double(-3), double(0)); h.throws("an interval length that is not positive", [&] { interpolate(t, wp, b); }); }
  for (long m : {N - 1, N + 1}) { Eigen::VectorXd t = lens(h, "tau", m); h.throws("a wrong number of interval lengths", [&] { interpolate(t, wp, b); }); }
}
