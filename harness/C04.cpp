// C04: the Lagrange basis on arbitrary distinct nodes.
#include "common.hpp"
static Eigen::VectorXd nodes(H& h, long n) {  // any distinct nodes in any order
  Eigen::VectorXd x(n);
  for (long i = 0; i < n; i++) {
    x(i) = h.real("x" + std::to_string(i));
    for (long j = 0; j < i; j++) { double d = x(i) - x(j); h.assume(d * d > num(1, 100)); }
  }
  return x;
}
// distinct nodes inside [-2, 2], increasing or (rev) decreasing; linear constraints only
static Eigen::VectorXd sorted_nodes(H& h, long n, bool rev) {
  Eigen::VectorXd x(n); double l = double(-2);
  for (long i = 0; i < n; i++) {
    double v;
    if (h.symbolic()) { v = h.real("x" + std::to_string(i)); h.assume(v >= l); h.assume(v <= double(2)); }
    else v = l + double(h.range("x" + std::to_string(i), double(0), double(4) / double(2 * n)));
    x(rev ? n - 1 - i : i) = v; l = v + num(1, 10);
  }
  return x;
}
static bool near(double a, double b) { return a - b <= num(1, 100) && b - a <= num(1, 100); }
HARNESS(C04, weights_and_matrices, ({"n=1,d=2", "n=2,d=3", "n=3,d=3"}), ({"n=4,d=4"}), ({"n=5,d=4", "n=6,d=3"})) {
  long n = h.n("n"), D = h.n("d"); Eigen::VectorXd x = nodes(h, n);
  Eigen::VectorXd w = basis::BasisLagrange::barycentric_weights(x);
  h.require(w.size() == n, "number of weights");
  for (long j = 0; j < n; j++) { double p = double(1); for (long i = 0; i < n; i++) if (i != j) p = p * (x(j) - x(i)); h.eq(w(j), double(1) / p, "barycentric weight " + std::to_string(j), 1000); }
  std::vector<Poly> L; for (long j = 0; j < n; j++) L.push_back(lagrange(x, j));
  for (long d = 0; d <= D; d++) {
    Eigen::MatrixXd m = basis::BasisLagrange::derivative_matrix(x, d);
    h.require(m.rows() == n && m.cols() == n, "size of the derivative matrix");
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) h.eq(m(i, j), L[j].dn(d)(x(i)), "derivative matrix of order " + std::to_string(d), 100000);
  }
  Eigen::MatrixXd m1 = basis::BasisLagrange::derivative_matrix(x);
  for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) h.eq(m1(i, j), L[j].d()(x(i)), "first derivative matrix", 100000);
}
HARNESS(C04, change_of_points, ({"n=1,m=2", "n=2,m=3", "n=3,m=2"}), ({"n=3,m=4"}), ({"n=5,m=7", "n=4,m=3"})) {
  long n = h.n("n"), m = h.n("m"); Eigen::VectorXd x = sorted_nodes(h, n, m % 2), y(m);
  std::vector<long> hit(m, -1);
  for (long k = 0; k < m; k++) {
    // row 0 is an arbitrary point, the others are old nodes or points between
    if (k % 2 == 1 && (k / 2) < n) { hit[k] = n - 1 - k / 2; y(k) = x(hit[k]); }
    else { y(k) = h.range("y" + std::to_string(k), double(-2), double(2)); for (long j = 0; j < n; j++) h.assume(!near(y(k), x(j))); }
  }
  Eigen::MatrixXd c = basis::BasisLagrange::change_interpolation_points(x, y);
  h.require(c.rows() == m && c.cols() == n, "size");
  for (long k = 0; k < m; k++) for (long j = 0; j < n; j++) h.eq(c(k, j), lagrange(x, j)(y(k)), "row " + std::to_string(k), 10000);
}
HARNESS(C04, values_and_derivatives, ({"n=1,B=2", "n=2,B=1", "n=3,B=2", "n=4,B=1"}), ({"n=5,B=2", "n=6,B=1"}), ({"n=7,B=1"})) {
  long n = h.n("n"), B = h.n("B"); auto b = vh::make_basis(B, n); auto c = b->clone();
  double s = h.range("s", double(-1), double(1)), tau = h.pos("tau"); vh::away(h, s, B, n);
  for (const basis::Basis* p : {(const basis::Basis*)b.get(), (const basis::Basis*)c.get()}) {
    Eigen::MatrixXd m(2, n); m.row(1).setConstant(double(7)); m.row(0).setConstant(double(9));
    p->eval_on_window(s, tau, m.row(0));
    for (long j = 0; j < n; j++) { h.eq(m(0, j), vh::phi(B, n, j, 0, s, tau), "value of basis function " + std::to_string(j), 1); h.eq(m(1, j), double(7), "memory outside the buffer is left alone"); }
    for (long d = n + 1; d >= 0; d--) {
      Eigen::VectorXd e(n), g(n); p->eval_derivative_on_window(s, tau, d, e); p->eval_derivative_wrt_tau_on_window(s, tau, d, g);
      for (long j = 0; j < n; j++) {
        h.eq(e(j), vh::phi(B, n, j, d, s, tau), "derivative " + std::to_string(d), 100000000);
        h.eq(g(j), vh::phi_tau(B, n, j, d, s, tau), "derivative wrt tau of derivative " + std::to_string(d), 1000000000);
      }
    }
  }
  // at every node the basis is exactly cardinal
  Eigen::VectorXd x = vh::points(n, B - 1);
  for (long i = 0; i < n; i++) { Eigen::VectorXd e(n); b->eval_on_window(x(i), tau, e); for (long j = 0; j < n; j++) h.eq(e(j), double(i == j), "cardinality at the nodes"); }
  // close to a node, but not at it
  if (!h.symbolic()) for (long i = 0; i < n; i++) for (long k = 2; k <= 5; k++) for (long sg = -1; sg <= 1; sg += 2) {
    double q = x(i) + double(sg) / vh::ipow(double(10), k); Eigen::VectorXd e(n); b->eval_on_window(q, tau, e);
    for (long j = 0; j < n; j++) h.eq(e(j), vh::phi(B, n, j, 0, q, tau), "value close to a node");
  }
}
HARNESS(C04, derivative_blocks, ({"n=3,B=2"}), ({"n=5,B=1"}), ({"n=6,B=2"})) {
  long n = h.n("n"), B = h.n("B"); auto b = vh::make_basis(B, n);
  double s = h.range("s", double(-1), double(1)); vh::away(h, s, B, n);
  Eigen::VectorXd v(n); b->eval_on_window(s, double(2), v);
  for (long d = n; d >= 0; d--) {
    const Eigen::MatrixXd& m = b->get_derivative_matrix_block(d); Eigen::MatrixXd m2 = b->derivative_matrix_impl(d);
    for (long j = 0; j < n; j++) { double r = double(0), r2 = double(0); for (long k = 0; k < n; k++) { r = r + v(k) * m(k, j); r2 = r2 + v(k) * m2(k, j); }
      h.eq(r, vh::phi(B, n, j, d, s, double(2)), "block of order " + std::to_string(d), 10000); h.eq(r2, vh::phi(B, n, j, d, s, double(2)), "derivative_matrix_impl of order " + std::to_string(d), 10000); }
  }
}
// the Lagrange basis at Gauss-Lobatto nodes is built on those nodes
HARNESS(C04, gauss_lobatto_basis, ({"n=3"}), ({"n=5"}), ({"n=9"})) {
  long n = h.n("n"); basis::BasisLagrangeGaussLobatto b(n);
  Eigen::VectorXd x = collocation::legendre_gauss_lobatto_points(n);
  h.eqm(b.get_parameters(), x, "nodes");
  for (long i = 0; i < n; i++) { Eigen::VectorXd e(n); b.eval_on_window(x(i), double(1), e); for (long j = 0; j < n; j++) h.eq(e(j), double(i == j), "cardinality at the nodes"); }
}
