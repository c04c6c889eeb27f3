// C13: splines of one space form a vector space, and the operations are pointwise.
#include "common.hpp"
template <class S> static void laws(H& h, const S& g, const S& q, double t, const Eigen::VectorXd& c, const Eigen::VectorXd& e) {
  double k = h.real("k"); Eigen::MatrixXd G = g(vh::one(t)), Q = q(vh::one(t));
  auto is = [&](const S& r, const Eigen::VectorXd& want, const Eigen::MatrixXd& val, const std::string& w) {
    h.eqm(r.get_coefficients(), want, w + ": coefficients"); h.eqm(r(vh::one(t)), val, w + ": value", 1000); h.require(r.get_basis() == g.get_basis() && r.get_codom_dim() == g.get_codom_dim(), w + ": space");
    h.eqm(r.get_interval_lengths(), g.get_interval_lengths(), w + ": lengths"); h.eq(r.get_domain().first, g.get_domain().first, w + ": domain"); h.eq(r.get_domain().second, g.get_domain().second, w + ": domain");
  };
  auto kept = [&](const std::string& w) { h.eqm(g.get_coefficients(), c, w + ": first operand unchanged"); h.eqm(q.get_coefficients(), e, w + ": second operand unchanged"); h.eqm(g(vh::one(t)), G, w + ": first operand's value", 1000); h.eqm(q(vh::one(t)), Q, w + ": second operand's value", 1000); };
  is(g + q, c + e, G + Q, "sum"); is(g + S(q), c + e, G + Q, "sum with a temporary"); is(S(g) + q, c + e, G + Q, "temporary plus"); is(S(g) + S(q), c + e, G + Q, "sum of temporaries"); kept("sum");
  is(g - q, c - e, G - Q, "difference"); is(g - S(q), c - e, G - Q, "minus a temporary"); is(S(g) - q, c - e, G - Q, "temporary minus"); is(S(g) - S(q), c - e, G - Q, "difference of temporaries"); kept("difference");
  is(k * g, k * c, k * G, "scalar multiple"); is(g * k, k * c, k * G, "multiple by a scalar"); is(k * S(g), k * c, k * G, "scalar multiple of a temporary"); is(S(g) * k, k * c, k * G, "temporary times scalar"); kept("scalar multiple");
  is(-g, -c, -G, "opposite"); is(-S(g), -c, -G, "opposite of a temporary"); kept("opposite");
  { S a(g); S& r = (a += q); is(a, c + e, G + Q, "+="); h.require(&r == &a, "+= returns its target"); a -= q; is(a, c, G, "+= then -="); a -= q; is(a, c - e, G - Q, "-="); a += a; is(a, double(2) * (c - e), double(2) * (G - Q), "+= itself"); kept("compound assignment"); }
  is((g + q) + (k * g - q), c + e + (k * c - e), G + Q + (k * G - Q), "combination");
  is((g - q).derivate(1), (g.derivate(1) - q.derivate(1)).get_coefficients(), g.derivate(1)(vh::one(t)) - q.derivate(1)(vh::one(t)), "derivative of a difference");
  // and as functions
  functions::FunctionExpression fs = functions::FunctionExpression(g) + functions::FunctionExpression(q); h.eqm(fs(vh::one(t)), G + Q, "sum as expressions", 1000);
}
HARNESS(C13, gsplines, ({"N=1,D=1,B=0,dim=3", "N=2,D=2,B=0,dim=3", "N=2,D=1,B=2,dim=3", "N=2,D=1,B=3"}), ({"N=3,D=2,B=0,dim=6", "N=3,D=3,B=1,dim=4", "N=2,D=2,B=3"}), ({"N=8,D=3,B=0,dim=6", "N=4,D=2,B=3"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h); double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim), e = h.vec("e", N * D * dim); auto b = vh::make_basis(B, dim);
  GSpline g({t0, t0 + vh::total(tau)}, D, N, *b, c, tau), q({t0, t0 + vh::total(tau)}, D, N, *b, e, tau); double t = vh::any_point(h, "t", B, dim, t0, tau);
  laws(h, g, q, t, c, e);
}
HARNESS(C13, collocation_splines, ({"N=1,D=1,n=3", "N=2,D=2,n=3"}), ({"N=3,D=3,n=4"}), ({"N=5,D=3,n=6"})) {
  long N = h.n("N"), D = h.n("D"), n = h.n("n"); double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * n), e = h.vec("e", N * D * n);
  collocation::GLLSpline g({t0, t0 + vh::total(tau)}, D, N, n, c, tau), q({t0, t0 + vh::total(tau)}, D, N, n, e, tau);
  long k = N - 1; double t = vh::left_of(k, t0, tau) + num(3, 7) * tau(k); laws(h, g, q, t, c, e);
}
