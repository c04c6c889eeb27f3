// C09: inner-product (Gram) matrices, Sobolev cost and its gradient.
#include "expo.hpp"
HARNESS(C09, gram_matrices, ({"B=0,dim=1", "B=0,dim=3", "B=0,dim=6", "B=1,dim=3", "B=2,dim=4"}), ({"B=0,dim=8", "B=1,dim=5", "B=2,dim=3"}), ({"B=0,dim=7", "B=1,dim=6"})) {
  long B = h.n("B"), dim = h.n("dim"); auto b = vh::make_basis(B, dim); double tau = h.pos("tau");
  auto c = b->clone();
  for (basis::Basis* p : {b.get(), c.get()}) for (long d = 0; d <= dim + 1; d++) {
    Eigen::MatrixXd m = h.mat("m", dim, dim), q = m, m0 = m;
    p->add_derivative_matrix(tau, d, m); p->add_derivative_matrix_deriv_wrt_tau(tau, d, q);
    for (long i = 0; i < dim; i++) for (long j = 0; j < dim; j++) {
      long sc = 1000; for (long k = 0; k < d; k++) sc *= 30;
      h.eq(m(i, j), m0(i, j) + vh::gram(B, dim, i, j, d, tau), "adds the integral of the products of derivatives " + std::to_string(d), sc);
      h.eq(q(i, j), m0(i, j) + vh::gram_tau(B, dim, i, j, d, tau), "adds its derivative with respect to the length, order " + std::to_string(d), sc);
    }
  }
}
static std::vector<std::pair<size_t, double>> weights(H& h, long k) {
  // any real weights; k chooses the orders
  std::vector<std::pair<size_t, double>> w;
  if (k == 0) w.push_back({1, h.real("w0")});
  if (k == 1) { w.push_back({3, h.real("w0")}); w.push_back({1, h.real("w1")}); }
  if (k == 2) { w.push_back({0, h.real("w0")}); w.push_back({2, h.real("w1")}); w.push_back({1, h.real("w2")}); }
  return w;
}
static Eigen::VectorXd lens(H& h, const std::string& n, long N) { Eigen::VectorXd t = h.posvec(n, N); for (long i = 0; i < N; i++) h.assume(t(i) >= num(1, 100)); return t; }
static double quad(long B, long dim, long N, long D, const Eigen::VectorXd& tau, const Eigen::VectorXd& x, const Eigen::VectorXd& y, const std::vector<std::pair<size_t, double>>& w, long only = -1, bool dt = false) {
  double r = double(0);
  for (long k = 0; k < N; k++) { if (only >= 0 && k != only) continue;
    for (auto& q : w) for (long i = 0; i < dim; i++) for (long j = 0; j < dim; j++) {
      double g = dt ? vh::gram_tau(B, dim, i, j, q.first, tau(k)) : vh::gram(B, dim, i, j, q.first, tau(k)), s = double(0);
      for (long c = 0; c < D; c++) s = s + x(k * D * dim + c * dim + i) * y(k * D * dim + c * dim + j);
      r = r + q.second * g * s; } }
  return r;
}
HARNESS(C09, sobolev_cost, ({"N=1,D=1,B=0,dim=4,w=2", "N=2,D=2,B=0,dim=4,w=1", "N=2,D=1,B=3,w=1", "N=2,D=1,B=1,dim=4,w=2"}), ({"N=3,D=1,B=0,dim=4,w=2", "N=2,D=1,B=0,dim=6,w=1"}), ({"N=5,D=2,B=0,dim=6,w=1", "N=4,D=3,B=0,dim=4,w=2", "N=2,D=2,B=3,w=1"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  Eigen::VectorXd tau = lens(h, "tau", N), t2 = lens(h, "b", N); Eigen::MatrixXd wp = h.mat("p", N + 1, D); auto b = vh::make_basis(B, dim);
  auto w = weights(h, h.n("w"));
  functional_analysis::SobolevNorm f(wp, *b, w);
  Interpolator in(D, N, *b);
  for (int q = 0; q < 2; q++) {  // second round: other lengths on the same object
    const Eigen::VectorXd& t = q ? t2 : tau;
    GSpline g = interpolate(t, wp, *b); Eigen::VectorXd y = g.get_coefficients();
    double v = f(t);
    double want = quad(B, dim, N, D, t, y, y, w);
    h.eq(v, want, "weighted squared norm of the interpolant", 100000000);
    Eigen::VectorXd gr(N); f.deriv_wrt_interval_len(t, gr);
    for (long i = 0; i < N; i++) {
      Eigen::VectorXd z = in.get_coeff_derivative_wrt_tau(y, t, i);
      h.eq(gr(i), quad(B, dim, N, D, t, y, y, w, i, true) + double(2) * quad(B, dim, N, D, t, y, z, w), "gradient with respect to length " + std::to_string(i), 1000000000);
    }
    h.eq(f(t), want, "value after the gradient", 100000000);
  }
}
// norms and inner products of arbitrary functions are the quadrature of their definition
HARNESS(C09, function_norms, ({"N=1,D=1", "N=2,D=2"}), ({"N=3,D=1"}), ({"N=4,D=3"})) {
  long N = h.n("N"), D = h.n("D"), dim = 3; auto b = vh::make_basis(0, dim);
  // one polynomial piece, integrated with N panels
  double t0 = h.real("t0"), L = h.pos("L"); Eigen::VectorXd tau = vh::one(L);
  Eigen::VectorXd x = h.vec("x", D * dim), y = h.vec("y", D * dim);
  GSpline f({t0, t0 + L}, D, 1, *b, x, tau), g({t0, t0 + L}, D, 1, *b, y, tau);
  std::vector<std::pair<size_t, double>> w0{{0, double(1)}}, w1{{0, double(1)}, {1, double(1)}}, ww{{1, h.real("w0")}, {0, h.real("w1")}, {2, h.real("w2")}};
  auto Q = [&](const Eigen::VectorXd& u, const Eigen::VectorXd& v, const std::vector<std::pair<size_t, double>>& w) { return quad(0, dim, 1, D, tau, u, v, w); };
  namespace fa = functional_analysis; const long sc = 10000;
  // four nodes per panel integrate the products exactly
  h.eq(fa::l2_norm(f, 4, N), Q(x, x, w0), "l2_norm", sc); h.eq(fa::l2_inner_product(f, g, 4, N), Q(x, y, w0), "l2_inner_product", sc);
  {
    h.eq(fa::sobolev_norm(f, 1, 4, N), Q(x, x, w1), "sobolev_norm", sc); h.eq(fa::sobolev_inner_product(f, g, 1, 4, N), Q(x, y, w1), "sobolev_inner_product", sc);
    h.eq(fa::sobolev_semi_inner_product(f, g, ww, 4, N), Q(x, y, ww), "sobolev_semi_inner_product", sc); h.eq(fa::sobolev_semi_norm(f, ww, 4, N), Q(x, x, ww), "sobolev_semi_norm", sc);
  }
}
