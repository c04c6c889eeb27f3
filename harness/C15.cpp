// C15: Gauss-Lobatto nodes, weights and quadrature.
#include "common.hpp"
using collocation::legendre_gauss_lobatto_points; using collocation::legendre_gauss_lobatto_weights; using collocation::legendre_gauss_lobatto_points_and_weights;
HARNESS(C15, nodes_and_weights, ({"n=2", "n=3", "n=4", "n=5"}), ({"n=6", "n=7", "n=8", "n=9"}), ({"n=10", "n=11", "n=12", "n=13", "n=14", "n=15", "n=16", "n=17", "n=20", "n=21", "n=25", "n=32", "n=33", "n=40", "n=48"})) {
  if (h.symbolic()) return;  // iterative: decided on the machine numbers
  long n = h.n("n"); Eigen::VectorXd x, w; std::tie(x, w) = legendre_gauss_lobatto_points_and_weights(n);
  h.require(x.size() == n && w.size() == n, "sizes"); h.require(x(0) == -1.0 && x(n - 1) == 1.0, "end points are nodes");
  for (long i = 0; i < n; i++) { h.require(w(i) > 0.0, "weights are positive"); if (i) h.require(x(i) > x(i - 1), "nodes increase"); h.eq(1e5 * x(i), -1e5 * x(n - 1 - i), "nodes are symmetric"); h.eq(1e5 * w(i), 1e5 * w(n - 1 - i), "weights are symmetric"); }
  // the rule is exact up to degree 2n-3: in the Legendre polynomials, which stay of size one
  for (long k = 0; k <= 2 * n - 3; k++) {
    double s = 0.0; for (long i = 0; i < n; i++) { double p0 = 1.0, p1 = x(i); for (long j = 1; j < k; j++) { double p2 = ((2.0 * j + 1.0) * x(i) * p1 - j * p0) / (j + 1.0); p0 = p1; p1 = p2; } s += w(i) * (k == 0 ? 1.0 : p1); }
    h.eq(1e4 * s, k == 0 ? 2e4 : 0.0, "the rule integrates polynomials of degree up to 2n-3");
  }
  // interior nodes are the extrema of the Legendre polynomial of degree n-1
  for (long i = 1; i + 1 < n; i++) { double p0 = 1.0, p1 = x(i); for (long j = 1; j < n - 1; j++) { double p2 = ((2.0 * j + 1.0) * x(i) * p1 - j * p0) / (j + 1.0); p0 = p1; p1 = p2; } double dd = (n - 1) * (p0 - x(i) * p1) / (1.0 - x(i) * x(i)); h.eq(dd, 0.0, "nodes are critical points"); h.eq(w(i), 2.0 / ((double)n * (n - 1) * p1 * p1), "weight formula"); }
  h.eqm(legendre_gauss_lobatto_points(n), x, "points alone"); h.eqm(legendre_gauss_lobatto_weights(n), w, "weights alone");
}
HARNESS(C15, q_and_evaluation, ({"n=2", "n=3", "n=4", "n=5", "n=6", "n=7"}), ({"n=9", "n=12"}), ({"n=15", "n=20"})) {
  long n = h.n("n"); double t = h.range("t", double(-1), double(1)), q, dq, l; std::tie(q, dq, l) = collocation::q_and_evaluation(t, n); Poly a = legendre(n + 1), b = legendre(n - 1);
  h.eq(l, legendre(n)(t), "Legendre polynomial", 100); h.eq(q, a(t) - b(t), "L_{n+1} - L_{n-1}", 100); h.eq(dq, a.d()(t) - b.d()(t), "its derivative", 100);
}
HARNESS(C15, tiling, ({"n=2,N=1", "n=3,N=2", "n=4,N=3"}), ({"n=5,N=4", "n=2,N=6"}), ({"n=11,N=7", "n=20,N=3"})) {
  long n = h.n("n"), N = h.n("N"); double a = h.real("a"), L = h.pos("L"); Eigen::VectorXd tau = h.posvec("tau", N), x = legendre_gauss_lobatto_points(n), w = legendre_gauss_lobatto_weights(n);
  Eigen::VectorXd p = legendre_gauss_lobatto_points({a, a + L}, n, N), u = legendre_gauss_lobatto_weights({a, a + L}, n, N), q = legendre_gauss_lobatto_points(a, n, tau), v = legendre_gauss_lobatto_weights(n, tau);
  h.require(p.size() == n * N && u.size() == n * N && q.size() == n * N && v.size() == n * N, "sizes");
  double left = a;
  for (long i = 0; i < N; i++) { double hh = L / double(N);
    for (long k = 0; k < n; k++) { h.eq(p(i * n + k), a + double(i) * hh + hh / double(2) * (x(k) + double(1)), "nodes over equal intervals"); h.eq(u(i * n + k), w(k) * hh / double(2), "weights over equal intervals"); h.eq(q(i * n + k), left + tau(i) / double(2) * (x(k) + double(1)), "nodes over given intervals"); h.eq(v(i * n + k), w(k) * tau(i) / double(2), "weights over given intervals"); }
    left = left + tau(i); }
}
HARNESS(C15, quadrature, ({"n=2,N=1,f=0", "n=4,N=3,f=1", "n=3,N=2,f=2", "n=5,N=1,f=3"}), ({"n=6,N=4,f=1"}), ({"n=10,N=6,f=1", "n=20,N=2,f=2"})) {
  long n = h.n("n"), N = h.n("N"), f = h.n("f"); double a = h.real("a"), L = h.pos("L"), hh = L / double(N), r = double(0); std::pair<double, double> dom(a, a + L); Eigen::VectorXd c = h.vec("c", 4), x = legendre_gauss_lobatto_points(n), w = legendre_gauss_lobatto_weights(n);
  functions::FunctionExpression e = f == 0 ? functions::FunctionExpression(functions::Sin(dom)) : f == 1 ? functions::CanonicPolynomial(dom, c) * functions::Cos(dom) : f == 2 ? functions::Exponential(dom).compose(functions::CanonicPolynomial(dom, c)) : functions::CanonicPolynomial(dom, c) + functions::Sin(dom);
  for (long i = 0; i < N; i++) for (long k = 0; k < n; k++) r = r + w(k) * e(vh::one(a + double(i) * hh + hh / double(2) * (x(k) + double(1))))(0, 0) * hh / double(2);
  h.eq(functional_analysis::integral(e, n, N), r, "weighted sum of the values at the nodes", 10);
}
HARNESS(C15, quadrature_is_exact, ({"n=2,N=1", "n=3,N=1", "n=4,N=2", "n=6,N=3", "n=9,N=2", "n=10,N=1"}), ({}), ({"n=15,N=2"})) {
  if (h.symbolic()) return;
  long n = h.n("n"), N = h.n("N"); double a = h.real("a"), L = h.pos("L"); Eigen::VectorXd c = h.vec("c", 2 * n - 2), tau(1); tau(0) = L; GSpline g({a, a + L}, 1, 1, basis::BasisLegendre(2 * n - 2), c, tau);
  h.eq(functional_analysis::integral(g, n, N), c(0) * L, "polynomials of degree up to 2n-3 are integrated exactly"); if (n == 10) h.eq(functional_analysis::integral(g), c(0) * L, "default rule");
}
HARNESS(C15, integral_of_a_reparametrised_path, ({"D=1", "D=2"}), ({"D=3"}), ({})) {
  long D = h.n("D"); double a = h.real("a"), L = h.pos("L"), r = double(0); Eigen::VectorXd c = h.vec("c", 2), x = legendre_gauss_lobatto_points(10), w = legendre_gauss_lobatto_weights(10), y = h.vec("y", 3 * D), tau = h.posvec("tau", 1);
  functions::CanonicPolynomial s({a, a + L}, c); double t0 = h.real("t0"); GSpline p({t0, t0 + tau(0)}, D, 1, basis::BasisLegendre(3), y, tau);
  for (long k = 0; k < 10; k++) { double u = a + L / double(2) * (x(k) + double(1)); Eigen::MatrixXd v = p(vh::one(c(0) + c(1) * u)); for (long i = 0; i < D; i++) r = r + w(k) * L / double(2) * v(0, i) * v(0, i); }
  h.eq(collocation::integral(s, p), r, "integral of |path(s(t))|^2", 10);
}
