// C12: operands that do not fit together are rejected, and left as they were.
#include "expr.hpp"
#define REJECT(label, expr) h.throws(label, [&] { auto r__ = (expr); (void)r__; })
static const char* CAT[] = {" (lvalue,lvalue)", " (lvalue,rvalue)", " (rvalue,lvalue)", " (rvalue,rvalue)"};
static void reject(H& h, int op, const vx::E& x, const vx::E& y, double t, const std::string& w) {
  for (int cat = 0; cat < 4; cat++) {
    vx::E p = vx::copy(x), q = vx::copy(y);
    h.throws(w + CAT[cat], [&] { vx::FE r = vx::apply(op, cat, p, q); (void)r; });
    vx::check(h, p, t, w + ": the first operand is unchanged"); vx::check(h, q, t, w + ": the second operand is unchanged");
    vx::E q2 = vx::copy(y); h.throws(w + CAT[cat] + " through FunctionBase", [&] { vx::FE r = vx::apply_base(op, cat, x.e, q2); (void)r; });
  }
}
static void reject_assign(H& h, bool add, const vx::E& x, const vx::E& y, double t, const std::string& w) {
  for (int mv = 0; mv < 2; mv++) {
    vx::E p = vx::copy(x), q = vx::copy(y);
    h.throws(w, [&] { if (add) { if (mv) p.e += std::move(q.e); else p.e += q.e; } else { if (mv) p.e *= std::move(q.e); else p.e *= q.e; } });
    vx::check(h, p, t, w + ": the target is unchanged"); vx::check(h, q, t, w + ": the operand is unchanged");
  }
}
HARNESS(C12, different_domains, ({"end=0,D=1", "end=1,D=2", "end=2,D=1"}), ({"end=0,D=3", "end=1,D=3", "end=2,D=3"}), ({})) {
  // the domains differ at the left end, at the right end, or at both, by d either way
  double a = h.range("a", double(-8), double(8)), L = h.range("L", double(2), double(5)), b = a + L, d = h.range("d", num(1, 1000), double(1)), t = a + L / double(7); long end = h.n("end"), D = h.n("D");
  for (int sg = -1; sg <= 1; sg += 2) for (long k1 = 0; k1 < 6; k1++) for (long k2 = 0; k2 < 6; k2++) {
    if (h.symbolic() && (k1 + k2) % 3 != 0) continue;
    double e = sg < 0 ? -d : d; vx::G g(h); g.smooth = true;
    vx::E x = vx::kind(g, k1, a, b, D), y = vx::kind(g, k2, end == 1 ? a : a + e, end == 0 ? b : b + e, D), s = vx::kind(g, k2, end == 1 ? a : a + e, end == 0 ? b : b + e, 1); std::string w = " of functions with different domains, kinds " + std::to_string(k1) + "," + std::to_string(k2);
    reject(h, 0, x, y, t, "sum" + w); reject(h, 1, x, y, t, "difference" + w); reject(h, 2, x, s, t, "product" + w); reject(h, 2, s, x, t, "product" + w);
    reject_assign(h, true, x, y, t, "+=" + w); reject_assign(h, false, x, s, t, "*=" + w);
    h.require(!x.e.same_domain(y.e) && !functions::FunctionBase::same_domain(x.e, y.e), "same_domain"); h.require(x.e.same_domain(x.e) && functions::FunctionBase::same_domain(x.e, x.e), "same_domain of itself");
  }
}
HARNESS(C12, different_codomains, ({"D1=1,D2=2", "D1=3,D2=2", "D1=3,D2=1"}), ({"D1=4,D2=5"}), ({})) {
  double a = h.real("a"), b = a + h.pos("L"), c = b + h.pos("M"), t = h.real("t"); long D1 = h.n("D1"), D2 = h.n("D2");
  for (long k1 = 0; k1 < 6; k1++) for (long k2 = 0; k2 < 6; k2++) {
    if (h.symbolic() && (k1 + k2) % 3 != 0) continue;
    vx::G g(h); g.smooth = true; vx::E x = vx::kind(g, k1, a, b, D1), y = vx::kind(g, k2, a, b, D2), z = vx::kind(g, k2, b, c, D2); std::string w = " of functions with different codomains, kinds " + std::to_string(k1) + "," + std::to_string(k2);
    reject(h, 0, x, y, t, "sum" + w); reject(h, 1, x, y, t, "difference" + w); reject(h, 4, x, z, t, "concatenation" + w); reject_assign(h, true, x, y, t, "+=" + w);
    if (D1 > 1 && D2 > 1) { reject(h, 2, x, y, t, "product of two vector functions" + w); reject_assign(h, false, x, y, t, "*= by a vector function" + w); vx::E u = vx::kind(g, k2, a, b, D1); reject(h, 2, x, u, t, "product of two vector functions of the same codomain" + w); reject_assign(h, false, x, u, t, "*= of two vector functions" + w); }
    if (D1 == 1) reject_assign(h, false, x, y, t, "scalar *= vector" + w);
    if (D2 > 1) reject(h, 3, x, y, t, "composition with a vector function" + w);
    h.throws("dot product" + w, [&] { auto r = x.e.dot(y.e); (void)r; }); h.throws("dot product" + w, [&] { auto q = vx::copy(y); auto r = x.e.dot(std::move(q.e)); (void)r; });
    h.require(!x.e.same_codomain(y.e) && !functions::FunctionBase::same_codomain(x.e, y.e) && x.e.same_codomain(x.e), "same_codomain");
  }
}
HARNESS(C12, concatenation_of_separated_domains, ({"D=1", "D=2"}), ({"D=3"}), ({})) {
  double a = h.real("a"), b = a + h.range("L", double(2), double(5)), d = h.range("d", num(1, 1000), num(3, 2)), t = h.real("t"); long D = h.n("D");
  for (int sg = -1; sg <= 1; sg += 2) for (long k1 = 0; k1 < 6; k1++) for (long k2 = 0; k2 < 6; k2++) {
    if (h.symbolic() && (k1 + k2) % 3 != 0) continue;
    double m = sg < 0 ? b - d : b + d; vx::G g(h); g.smooth = true; vx::E x = vx::kind(g, k1, a, b, D), y = vx::kind(g, k2, m, m + h.range("M", double(2), double(4)), D);
    reject(h, 4, x, y, t, std::string(sg < 0 ? "concatenation of overlapping domains" : "concatenation with a gap") + ", kinds " + std::to_string(k1) + "," + std::to_string(k2));
  }
}
// splines: addition needs the same basis, codomain, lengths and domain
HARNESS(C12, splines_of_different_spaces, ({"what=0", "what=1", "what=2", "what=3", "what=4", "what=5", "what=6"}), ({}), ({})) {
  long what = h.n("what"); double t0 = h.range("t0", num(1, 4), double(3)), d = h.range("d", num(1, 1000), double(1)); Eigen::VectorXd tau(2); tau(0) = h.range("tau0", num(1, 2), double(2)); tau(1) = h.range("tau1", num(1, 2), double(2));
  auto mk = [&](double s, long D, Eigen::VectorXd l, const basis::Basis& b, const std::string& n) { return GSpline({s, s + vh::total(l)}, D, l.size(), b, h.vec(n, l.size() * D * b.get_dim()), l); };
  basis::BasisLegendre b4(4), b3(3); basis::BasisLagrange lg(vh::points(4, 0)), lh(vh::points(4, 1)); Eigen::VectorXd lo = tau, l3(3); lo(1) = lo(1) + d; l3 << tau(0), tau(1), tau(0); Eigen::VectorXd sw(2); sw << tau(1) + d + double(2), tau(0);
  GSpline g = mk(t0, 2, tau, b4, "c");
  GSpline q = what == 0 ? mk(t0, 2, tau, b3, "e") : what == 1 ? mk(t0, 3, tau, b4, "e") : what == 2 ? mk(t0, 2, lo, b4, "e") : what == 3 ? mk(t0, 2, l3, b4, "e") : what == 4 ? mk(t0, 2, tau, lg, "e") : what == 5 ? mk(t0 + d, 2, tau, b4, "e") : mk(t0, 2, sw, b4, "e");
  Eigen::VectorXd c = g.get_coefficients(), e = q.get_coefficients(); double s = h.real("s"); Eigen::MatrixXd v = g(vh::one(s)), u = q(vh::one(s));
  h.require(!g.same_vector_space(q) && !q.same_vector_space(g), "not the same space"); h.require(g.same_vector_space(g), "same space as itself");
  GSpline g2(g), q2(q);
  REJECT("sum", g + q); REJECT("sum (rvalue second)", g + std::move(q2)); REJECT("sum (rvalue first)", std::move(g2) + q); REJECT("sum (rvalues)", std::move(g2) + std::move(q2));
  REJECT("difference", g - q); REJECT("difference (rvalue second)", g - std::move(q2)); REJECT("difference (rvalue first)", std::move(g2) - q); REJECT("difference (rvalues)", std::move(g2) - std::move(q2));
  h.throws("+=", [&] { g += q; }); h.throws("-=", [&] { g -= q; });
  for (const GSpline* p : {&g, &g2}) { h.eqm(p->get_coefficients(), c, "the first operand is unchanged"); h.eqm((*p)(vh::one(s)), v, "the first operand has the same value"); }
  for (const GSpline* p : {&q, &q2}) { h.eqm(p->get_coefficients(), e, "the second operand is unchanged"); h.eqm((*p)(vh::one(s)), u, "the second operand has the same value"); }
}
HARNESS(C12, collocation_operands, ({"what=0", "what=1", "what=2", "what=3", "what=4"}), ({}), ({})) {
  using G = collocation::GLLSpline; long what = h.n("what"); double t0 = h.range("t0", num(1, 4), double(3)), d = h.range("d", num(1, 100), double(1)); Eigen::VectorXd tau(2); tau(0) = h.range("tau0", num(1, 2), double(2)); tau(1) = h.range("tau1", num(1, 2), double(2));
  auto mk = [&](double s, long D, Eigen::VectorXd l, long n, const std::string& nm) { return G({s, s + vh::total(l)}, D, l.size(), n, h.vec(nm, l.size() * D * n), l); };
  Eigen::VectorXd l3(3), lo = tau; l3 << tau(0), tau(1), tau(0); lo(0) = lo(0) + d;
  G g = mk(t0, 1, tau, 3, "c"), q = what == 0 ? mk(t0, 2, tau, 4, "e") : what == 1 ? mk(t0, 2, l3, 3, "e") : what == 2 ? mk(t0 + d, 2, tau, 3, "e") : what == 3 ? mk(t0, 2, lo, 3, "e") : mk(t0, 2, tau, 3, "e");
  Eigen::VectorXd c = g.get_coefficients(), e = q.get_coefficients();
  auto same = [&](const std::string& w) { h.eqm(g.get_coefficients(), c, w + ": first operand unchanged"); h.eqm(q.get_coefficients(), e, w + ": second operand unchanged"); };
  if (what < 4) {
    REJECT("product", g * q); REJECT("product", q * g); REJECT("product (rvalue)", g * std::move(q)); REJECT("product (rvalue)", std::move(g) * q); REJECT("product (rvalues)", std::move(g) * std::move(q)); same("product");
  } else { G v = mk(t0, 2, tau, 3, "v"); REJECT("product of vectors", q * v); REJECT("product of vectors", G(q) * v); REJECT("product of vectors", q * G(v)); REJECT("product of vectors", G(q) * G(v)); }
  if (what < 2) { G k = mk(t0, 2, tau, 3, "k"); h.throws("assignment of another discretization", [&] { k = q; }); h.throws("move assignment of another discretization", [&] { k = std::move(q); }); same("assignment"); }
  h.throws("assignment of another codomain", [&] { g = q; }); h.throws("assignment of another codomain", [&] { g = std::move(q); }); h.throws("assignment of a function of another codomain", [&] { g = static_cast<const functions::FunctionBase&>(q); }); same("assignment");
  Eigen::VectorXd w3 = h.vec("w", 3); REJECT("vector + spline", w3 + q); REJECT("spline + vector", q + w3); REJECT("vector - spline", w3 - q); REJECT("spline - vector", q - w3); REJECT("vector + rvalue", w3 + G(q)); REJECT("rvalue - vector", G(q) - w3); REJECT("vector - rvalue", w3 - G(q)); REJECT("rvalue + vector", G(q) + w3);
  REJECT("scalar / vector spline", double(1) / q); REJECT("scalar / rvalue vector spline", double(1) / G(q)); REJECT("power of a vector spline", pow(q, double(2))); REJECT("power of a rvalue vector spline", pow(G(q), double(2)));
  REJECT("node index out of range", q.value_at(q.get_nglp() * q.get_number_of_intervals())); same("all");
}
