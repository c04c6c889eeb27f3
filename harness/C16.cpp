// C16: collocation splines are the nodal algebra on the Gauss-Lobatto grid.
#include "common.hpp"
using G = collocation::GLLSpline;
struct Grid { double t0; Eigen::VectorXd tau; long n; };
// value of component c at node k of interval i
static double at(const Eigen::VectorXd& y, long D, long n, long i, long k, long c) { return y(i * n * D + c * n + k); }
static void same_frame(H& h, const G& r, const Grid& g, long D, const std::string& w) {
  h.require((long)r.get_codom_dim() == D && (long)r.get_nglp() == g.n && (long)r.get_number_of_intervals() == g.tau.size() && r.get_coefficients().size() == g.tau.size() * g.n * D, w + ": sizes");
  h.eq(r.get_domain().first, g.t0, w + ": left end"); h.eq(r.get_domain().second, g.t0 + vh::total(g.tau), w + ": right end"); h.eqm(r.get_interval_lengths(), g.tau, w + ": lengths");
}
template <class F> static void nodal(H& h, const G& r, const Grid& g, long D, F f, const std::string& w) {
  same_frame(h, r, g, D, w);
  for (long i = 0; i < g.tau.size(); i++) for (long k = 0; k < g.n; k++) { Eigen::VectorXd v = r.value_at(i * g.n + k); h.require(v.size() == D, w + ": size of a nodal value"); for (long c = 0; c < D; c++) { h.eq(v(c), f(i, k, c), w, 10); h.eq(at(r.get_coefficients(), D, g.n, i, k, c), f(i, k, c), w + " (coefficients)", 10); } }
}
static Grid grid(H& h) { long N = h.n("N"); return {h.real("t0"), h.posvec("tau", N), h.n("n")}; }
static G mk(H& h, const Grid& g, long D, const std::string& nm, Eigen::VectorXd* y = nullptr, bool positive = false) { long k = g.tau.size() * g.n * D; Eigen::VectorXd v = positive ? h.posvec(nm, k) : h.vec(nm, k); if (y) *y = v; return G({g.t0, g.t0 + vh::total(g.tau)}, D, g.tau.size(), g.n, v, g.tau); }
HARNESS(C16, nodal_values_are_the_coefficients, ({"N=1,n=2,D=1", "N=2,n=3,D=2", "N=3,n=4,D=1"}), ({"N=4,n=5,D=3"}), ({"N=6,n=9,D=4"})) {
  Grid g = grid(h); long D = h.n("D"), N = g.tau.size(); Eigen::VectorXd y; G a = mk(h, g, D, "y", &y); nodal(h, a, g, D, [&](long i, long k, long c) { return at(y, D, g.n, i, k, c); }, "value_at");
  Eigen::VectorXd x = collocation::legendre_gauss_lobatto_points(g.n), t = a.get_domain_discretization(); h.require(t.size() == N * g.n, "number of nodes");
  for (long i = 0; i < N; i++) for (long k = 0; k < g.n; k++) { double z = vh::left_of(i, g.t0, g.tau) + g.tau(i) / double(2) * (x(k) + double(1)); h.eq(t(i * g.n + k), z, "nodes"); if ((i == 0 || k > 0)) { Eigen::MatrixXd v = a(vh::one(z)); for (long c = 0; c < D; c++) h.eq(v(0, c), at(y, D, g.n, i, k, c), "value at a node"); } }
  h.throws("node index out of range", [&] { auto v = a.value_at(N * g.n); (void)v; });
  h.require(a.get_basis() == basis::BasisLagrangeGaussLobatto(g.n), "basis");
  // constructors that move
  Eigen::VectorXd y2 = y, l2 = g.tau; G b({g.t0, g.t0 + vh::total(g.tau)}, D, N, g.n, std::move(y2), std::move(l2)); nodal(h, b, g, D, [&](long i, long k, long c) { return at(y, D, g.n, i, k, c); }, "moved data");
  // from a spline with the same basis
  GSpline s({g.t0, g.t0 + vh::total(g.tau)}, D, N, basis::BasisLagrangeGaussLobatto(g.n), y, g.tau); G p(s); nodal(h, p, g, D, [&](long i, long k, long c) { return at(y, D, g.n, i, k, c); }, "from a spline"); G q(std::move(s)); nodal(h, q, g, D, [&](long i, long k, long c) { return at(y, D, g.n, i, k, c); }, "from a temporary spline");
  double L = vh::total(g.tau); G z({g.t0, g.t0 + L}, D, N, g.n); Grid e = g; for (long i = 0; i < N; i++) e.tau(i) = L / double(N); nodal(h, z, e, D, [&](long, long, long) { return double(0); }, "zero spline");
}
HARNESS(C16, product, ({"N=1,n=2,D1=1,D2=1", "N=2,n=3,D1=1,D2=2", "N=2,n=2,D1=3,D2=1"}), ({"N=3,n=4,D1=1,D2=4", "N=3,n=4,D1=2,D2=1"}), ({"N=5,n=8,D1=1,D2=3"})) {
  Grid g = grid(h); long A = h.n("D1"), B = h.n("D2"), D = std::max(A, B); Eigen::VectorXd y, z; G a = mk(h, g, A, "y", &y), b = mk(h, g, B, "z", &z);
  auto f = [&](long i, long k, long c) { return at(y, A, g.n, i, k, A == 1 ? 0 : c) * at(z, B, g.n, i, k, B == 1 ? 0 : c); };
  nodal(h, a * b, g, D, f, "product"); nodal(h, G(a) * b, g, D, f, "product (rvalue first)"); nodal(h, a * G(b), g, D, f, "product (rvalue second)"); nodal(h, G(a) * G(b), g, D, f, "product (rvalues)");
  { G u(a), v(b); G r = std::move(u) * v; h.eqm(v.get_coefficients(), z, "second operand unchanged"); } { G u(a), v(b); G r = u * std::move(v); h.eqm(u.get_coefficients(), y, "first operand unchanged"); }
  h.eqm(a.get_coefficients(), y, "first operand unchanged"); h.eqm(b.get_coefficients(), z, "second operand unchanged");
  if (A == 1) nodal(h, a * a, g, 1, [&](long i, long k, long) { return at(y, 1, g.n, i, k, 0) * at(y, 1, g.n, i, k, 0); }, "square");
}
HARNESS(C16, scalars_and_vectors, ({"N=1,n=2,D=1", "N=2,n=3,D=2", "N=3,n=2,D=3"}), ({"N=3,n=5,D=4"}), ({"N=5,n=8,D=3"})) {
  Grid g = grid(h); long D = h.n("D"); Eigen::VectorXd y, v = h.vec("v", D); double q = h.real("q"); const G a = mk(h, g, D, "y", &y); auto Y = [&](long i, long k, long c) { return at(y, D, g.n, i, k, c); };
  std::function<double(long, long, long)> m = [&](long i, long k, long c) { return q * Y(i, k, c); }, p = [&](long i, long k, long c) { return v(c) + Y(i, k, c); }, s = [&](long i, long k, long c) { return v(c) - Y(i, k, c); }, r = [&](long i, long k, long c) { return Y(i, k, c) - v(c); }, n = [&](long i, long k, long c) { return -Y(i, k, c); };
  nodal(h, q * a, g, D, m, "number * spline"); nodal(h, q * G(a), g, D, m, "number * temporary"); nodal(h, a * q, g, D, m, "spline * number"); nodal(h, G(a) * q, g, D, m, "temporary * number");
  nodal(h, v + a, g, D, p, "vector + spline"); nodal(h, v + G(a), g, D, p, "vector + temporary"); nodal(h, a + v, g, D, p, "spline + vector"); nodal(h, G(a) + v, g, D, p, "temporary + vector");
  nodal(h, v - a, g, D, s, "vector - spline"); nodal(h, v - G(a), g, D, s, "vector - temporary"); nodal(h, a - v, g, D, r, "spline - vector"); nodal(h, G(a) - v, g, D, r, "temporary - vector");
  nodal(h, -a, g, D, n, "-spline"); nodal(h, -G(a), g, D, n, "-temporary"); h.eqm(a.get_coefficients(), y, "operand unchanged");
  Eigen::VectorXd w = h.vec("w", D + 1); h.throws("vector of another size", [&] { G x = w + a; }); h.throws("vector of another size", [&] { G x = a + w; }); h.throws("vector of another size", [&] { G x = w - a; }); h.throws("vector of another size", [&] { G x = a - w; }); h.throws("vector of another size", [&] { G x = w + G(a); }); h.throws("vector of another size", [&] { G x = G(a) - w; }); h.throws("vector of another size", [&] { G x = w - G(a); }); h.throws("vector of another size", [&] { G x = G(a) + w; });
  Eigen::VectorXd z; G b = mk(h, g, D, "z", &z); auto Z = [&](long i, long k, long c) { return at(z, D, g.n, i, k, c); };
  nodal(h, a + b, g, D, [&](long i, long k, long c) { return Y(i, k, c) + Z(i, k, c); }, "sum of splines"); nodal(h, a - G(b), g, D, [&](long i, long k, long c) { return Y(i, k, c) - Z(i, k, c); }, "difference of splines");
}
HARNESS(C16, reciprocal_power_and_norm, ({"N=2,n=2,D=1", "N=1,n=3,D=2"}), ({"N=2,n=3,D=3"}), ({"N=4,n=6,D=3"})) {
  Grid g = grid(h); long D = h.n("D"); double q = h.real("q"); Eigen::VectorXd y, z; const G a = mk(h, g, 1, "y", &y, true), b = mk(h, g, D, "z", &z, true); auto Y = [&](long i, long k, long) { return at(y, 1, g.n, i, k, 0); };
  nodal(h, q / a, g, 1, [&](long i, long k, long c) { return q / Y(i, k, c); }, "number / spline"); nodal(h, q / G(a), g, 1, [&](long i, long k, long c) { return q / Y(i, k, c); }, "number / temporary");
  for (long e = 2; e <= 3; e++) { auto f = [&](long i, long k, long c) { return vh::ipow(Y(i, k, c), e); }; nodal(h, collocation::pow(a, double(e)), g, 1, f, "power"); nodal(h, collocation::pow(G(a), double(e)), g, 1, f, "power of a temporary"); }
  if (!h.symbolic()) nodal(h, collocation::pow(a, 0.5), g, 1, [&](long i, long k, long c) { return std::sqrt(Y(i, k, c)); }, "square root");
  G n = collocation::norm(b); same_frame(h, n, g, 1, "norm"); for (long i = 0; i < g.tau.size(); i++) for (long k = 0; k < g.n; k++) { double s = double(0); for (long c = 0; c < D; c++) s = s + at(z, D, g.n, i, k, c) * at(z, D, g.n, i, k, c); double v = n.value_at(i * g.n + k)(0); h.eq(v * v, s, "square of the norm", 10); if (!h.symbolic()) h.require(v >= 0.0, "norm is not negative"); }
  h.eqm(a.get_coefficients(), y, "operand unchanged"); h.eqm(b.get_coefficients(), z, "operand unchanged");
  if (D > 1) { h.throws("division by a vector spline", [&] { G r = q / b; }); h.throws("division by a vector spline", [&] { G r = q / G(b); }); h.throws("power of a vector spline", [&] { G r = collocation::pow(b, double(2)); }); h.throws("power of a vector spline", [&] { G r = collocation::pow(G(b), double(2)); }); }
}
// sampling a function on the grid
HARNESS(C16, approximation, ({"N=1,n=2,f=0", "N=2,n=3,f=1", "N=3,n=4,f=2", "N=2,n=3,f=3"}), ({"N=3,n=5,f=1", "N=4,n=3,f=2"}), ({"N=6,n=9,f=1"})) {
  long N = h.n("N"), n = h.n("n"), f = h.n("f"); double a = h.real("a"), L = h.pos("L"); std::pair<double, double> dom(a, a + L); Eigen::VectorXd c = h.vec("c", 4), cv = h.vec("cv", 2), x = collocation::legendre_gauss_lobatto_points(n);
  functions::FunctionExpression e = f == 0 ? functions::FunctionExpression(functions::Identity(dom)) : f == 1 ? functions::CanonicPolynomial(dom, c) * functions::ConstFunction(dom, cv) : f == 2 ? functions::FunctionExpression(functions::Exponential(dom)) : functions::Sin(dom) + functions::CanonicPolynomial(dom, c); long D = f == 1 ? 2 : 1;
  Grid g{a, Eigen::VectorXd(N), n}; for (long i = 0; i < N; i++) g.tau(i) = L / double(N);
  auto F = [&](long i, long k, long q) { return e(vh::one(vh::left_of(i, a, g.tau) + g.tau(i) / double(2) * (x(k) + double(1))))(0, q); };
  nodal(h, G::approximate(e, n, N), g, D, F, "approximate"); nodal(h, G(e, N, n), g, D, F, "constructor");
  if (f == 0) nodal(h, G::identity(dom, n, N), g, 1, F, "identity");
  // assignment of a function keeps the proportions of the intervals and takes its domain
  Grid u{h.real("t0"), h.posvec("tau", N), n}; G b = mk(h, u, D, "y"); b = static_cast<const functions::FunctionBase&>(e); Grid v{a, u.tau, n}; double k = L / vh::total(u.tau); for (long i = 0; i < N; i++) v.tau(i) = u.tau(i) * k;
  nodal(h, b, v, D, [&](long i, long m, long q) { return e(vh::one(vh::left_of(i, a, v.tau) + v.tau(i) / double(2) * (x(m) + double(1))))(0, q); }, "assignment of a function");
}
// polynomials of degree < n are reproduced, with their derivatives
HARNESS(C16, polynomials_are_reproduced, ({"N=1,n=3", "N=2,n=4"}), ({}), ({"N=3,n=6", "N=2,n=9"})) {
  if (h.symbolic()) return;
  long N = h.n("N"), n = h.n("n"); double a = h.real("a"), L = h.pos("L"); Eigen::VectorXd c = h.vec("c", n), t1(1); t1(0) = L; GSpline p({a, a + L}, 1, 1, basis::BasisLegendre(n), c, t1); G g(p, N, n);
  for (long i = 0; i <= 20; i++) { double t = a + L * double(i) / 20.0; for (long d = 0; d <= 2; d++) h.eq(g.derivate(d)(vh::one(t))(0, 0), p.derivate(d)(vh::one(t))(0, 0), "polynomials of degree below n are reproduced", 10000); }
}
HARNESS(C16, set_from_array, ({"N=2,n=3,D=1", "N=1,n=2,D=2"}), ({"N=3,n=3,D=3"}), ({})) {
  Grid g = grid(h); long D = h.n("D"), N = g.tau.size(); G a = mk(h, g, D, "y"); double s = h.real("s"), L = h.pos("L"); std::vector<Eigen::VectorXd> z; for (long i = 0; i < N * g.n; i++) z.push_back(h.vec("z" + std::to_string(i) + "_", D));
  a.set_from_array({s, s + L}, z.begin(), z.end(), [](const Eigen::VectorXd& v) -> Eigen::RowVectorXd { return v.transpose(); });
  Grid e{s, g.tau, g.n}; double k = L / vh::total(g.tau); for (long i = 0; i < N; i++) e.tau(i) = g.tau(i) * k;
  nodal(h, a, e, D, [&](long i, long m, long c) { return z[i * g.n + m](c); }, "values given as an array");
  z.pop_back(); h.throws("wrong number of values", [&] { a.set_from_array({s, s + L}, z.begin(), z.end(), [](const Eigen::VectorXd& v) -> Eigen::RowVectorXd { return v.transpose(); }); });
}
HARNESS(C16, assignment, ({"N=2,n=3,D=1", "N=1,n=2,D=2"}), ({"N=3,n=4,D=2"}), ({})) {
  Grid g = grid(h), u{h.real("s0"), h.posvec("sig", g.tau.size()), g.n}; long D = h.n("D"); Eigen::VectorXd y, z; G a = mk(h, g, D, "y", &y), b = mk(h, u, D, "z", &z); auto Z = [&](long i, long k, long c) { return at(z, D, g.n, i, k, c); };
  G p(a); p = b; nodal(h, p, u, D, Z, "copy assignment"); h.eqm(b.get_coefficients(), z, "source unchanged"); G q(a), s(b); q = std::move(s); nodal(h, q, u, D, Z, "move assignment");
  h.require(a.same_discretization(b) && b.same_discretization(a), "same discretization");
}
HARNESS(C16, same_discretization, ({"n=2,N=2"}), ({}), ({})) {
  Grid g = grid(h), k{g.t0, g.tau, g.n + 1}; Eigen::VectorXd l(g.tau.size() + 1); for (long i = 0; i < l.size(); i++) l(i) = h.pos("l" + std::to_string(i)); Grid m{g.t0, l, g.n}; G a = mk(h, g, 1, "y"), b = mk(h, k, 1, "z"), c = mk(h, m, 1, "w");
  h.require(!a.same_discretization(b) && !b.same_discretization(a), "different number of nodes"); h.require(!a.same_discretization(c) && !c.same_discretization(a), "different number of intervals");
}
