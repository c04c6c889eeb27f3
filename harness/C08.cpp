// C08: sensitivity of the interpolating coefficients to the interval lengths.
// For y(tau) with A(tau) y(tau) = w the returned z satisfies A z + dA/dtau_i y = 0,
// row by row: way-points, continuity and boundary rows of the defining system.
#include "common.hpp"
static double row(long B, long dim, long D, const Eigen::VectorXd& tau, const Eigen::VectorXd& z, const Eigen::VectorXd& y, long i, long k, long c, long d, long s) {
  double r = double(0);
  for (long j = 0; j < dim; j++) { long p = k * D * dim + c * dim + j; r = r + z(p) * vh::phi(B, dim, j, d, double(s), tau(k)); if (k == i) r = r + y(p) * vh::phi_tau(B, dim, j, d, double(s), tau(k)); }
  return r;
}
static void contract(H& h, const Eigen::VectorXd& z, const Eigen::VectorXd& y, long i, long B, long dim, long N, long D, const Eigen::VectorXd& tau) {
  h.require(z.size() == N * D * dim, "size"); std::string w = "length " + std::to_string(i) + ": "; const long sc = 1000000;
  for (long c = 0; c < D; c++) {
    for (long k = 0; k < N; k++) {
      h.eq(row(B, dim, D, tau, z, y, i, k, c, 0, -1), double(0), w + "left way-point", sc); h.eq(row(B, dim, D, tau, z, y, i, k, c, 0, 1), double(0), w + "right way-point", sc);
      if (k) for (long d = 1; d <= dim - 2; d++) h.eq(row(B, dim, D, tau, z, y, i, k - 1, c, d, 1), row(B, dim, D, tau, z, y, i, k, c, d, -1), w + "continuity of derivative " + std::to_string(d), sc);
    }
    for (long d = 1; d <= dim / 2 - 1; d++) { h.eq(row(B, dim, D, tau, z, y, i, 0, c, d, -1), double(0), w + "derivative at the start", sc); h.eq(row(B, dim, D, tau, z, y, i, N - 1, c, d, 1), double(0), w + "derivative at the end", sc); }
  }
}
static Eigen::VectorXd lens(H& h, const std::string& n, long N) { Eigen::VectorXd t = h.posvec(n, N); for (long i = 0; i < N; i++) h.assume(t(i) >= num(1, 100)); return t; }
HARNESS(C08, sensitivity, ({"N=1,D=1,B=0,dim=4", "N=2,D=2,B=0,dim=4", "N=3,D=1,B=0,dim=4", "N=2,D=1,B=0,dim=6", "N=2,D=1,B=1,dim=4", "N=2,D=1,B=3"}),
        ({"N=4,D=1,B=0,dim=4", "N=3,D=2,B=0,dim=4", "N=3,D=1,B=2,dim=4", "N=3,D=1,B=3"}), ({"N=7,D=2,B=0,dim=6", "N=12,D=1,B=0,dim=4"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  Eigen::VectorXd tau = lens(h, "tau", N), y = h.vec("y", N * D * dim); auto b = vh::make_basis(B, dim); Interpolator in(D, N, *b);
  for (long i = N - 1; i >= 0; i--) { Eigen::VectorXd z = in.get_coeff_derivative_wrt_tau(y, tau, i); contract(h, z, y, i, B, dim, N, D, tau); }
}
HARNESS(C08, sensitivity_after_other_calls, ({"N=2,D=1,B=0,dim=4"}), ({"N=3,D=1,B=0,dim=4"}), ({"N=5,D=2,B=0,dim=6"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  Eigen::VectorXd t1 = lens(h, "a", N), t2 = lens(h, "b", N), y1 = h.vec("y", N * D * dim), y2 = h.vec("z", N * D * dim); Eigen::MatrixXd w = h.mat("w", N + 1, D);
  auto b = vh::make_basis(B, dim); Interpolator in(D, N, *b);
  for (long i = 0; i < N; i++) in.get_coeff_derivative_wrt_tau(y1, t1, i);
  in.solve_interpolation(t1, w);
  for (long i = 0; i < N; i++) { Eigen::VectorXd z = in.get_coeff_derivative_wrt_tau(y2, t2, i); contract(h, z, y2, i, B, dim, N, D, t2); }
  // of the coefficients the interpolator itself returned
  Eigen::VectorXd y = in.solve_interpolation(t1, w);
  for (long i = 0; i < N; i++) { Eigen::VectorXd z = in.get_coeff_derivative_wrt_tau(y, t1, i); contract(h, z, y, i, B, dim, N, D, t1); }
}
