// C11: derivatives of function expressions, of every order.
#include "expr.hpp"
static void derivs(H& h, const vx::E& x, double t, long hi, const std::string& w) {
  vx::V j = x.f(Jet::var(t, hi)); auto rep = x.e.clone();
  for (long d = 0; d <= hi; d++) {
    auto p = x.e.deriv(d); functions::FunctionExpression q = x.e.derivate(d); const functions::FunctionBase& base = x.e; auto r = base.deriv(d); functions::FunctionExpression u = base.derivate(d);
    for (const functions::FunctionBase* f : {(const functions::FunctionBase*)p.get(), (const functions::FunctionBase*)&q, (const functions::FunctionBase*)r.get(), (const functions::FunctionBase*)&u, (const functions::FunctionBase*)rep.get()}) {
      std::string l = w + ": derivative " + std::to_string(d) + (f == rep.get() ? " by repeated differentiation" : "");
      vx::frame(h, *f, x.a, x.b, x.dim, l); Eigen::MatrixXd m = (*f)(vh::one(t));
      for (long i = 0; i < x.dim; i++) h.eq(m(0, i), j[i].deriv(d), l, 1000);
    }
    if (d < hi) rep = rep->deriv(1);
  }
  Eigen::MatrixXd m = x.e(vh::one(t)); for (long i = 0; i < x.dim; i++) h.eq(m(0, i), j[i].c[0], w + ": differentiation leaves the function unchanged", 1000);
}
HARNESS(C11, elementals, ({"hi=5"}), ({"hi=9"}), ({})) {
  double a = h.real("a"), b = a + h.pos("L"), t = h.real("t"); long hi = h.n("hi"); vx::G g(h);
  derivs(h, g.sine(a, b), t, hi, "sin"); derivs(h, g.cosine(a, b), t, hi, "cos"); derivs(h, g.expo(a, b), t, hi, "exp"); derivs(h, g.identity(a, b), t, hi, "identity");
  derivs(h, g.dilation(a, b), t, hi, "dilation"); derivs(h, g.constant(a, b, 1), t, hi, "constant"); derivs(h, g.constant(a, b, 3), t, hi, "vector constant");
  for (long n = 0; n <= hi; n++) derivs(h, g.poly(a, b, n), t, hi + 2, "polynomial of degree " + std::to_string(n));
  // the objects themselves, not wrapped
  functions::Cos cs({a, b}); functions::Sin sn({a, b}); functions::Exponential ex({a, b}); Eigen::VectorXd c = h.vec("c", 4); functions::CanonicPolynomial po({a, b}, c); functions::Identity id({a, b}); functions::ConstFunction co({a, b}, 2, h.real("z"));
  for (long d = 0; d <= hi; d++) {
    double s[4] = {std::sin(t), std::cos(t), -std::sin(t), -std::cos(t)};
    h.eq(sn.derivate(d)(vh::one(t))(0, 0), s[d % 4], "sin derivate"); h.eq((*cs.deriv(d))(vh::one(t))(0, 0), s[(d + 1) % 4], "cos deriv"); h.eq(ex.derivate(d)(vh::one(t))(0, 0), std::exp(t), "exp derivate");
    h.eq(po.derivate(d)(vh::one(t))(0, 0), Poly({c(0), c(1), c(2), c(3)}).dn(d)(t), "polynomial derivate"); h.eq(id.derivate(d)(vh::one(t))(0, 0), d == 0 ? t : d == 1 ? double(1) : double(0), "identity derivate");
    h.eq(co.derivate(d)(vh::one(t))(0, 1), d == 0 ? h.real("z") : double(0), "constant derivate");
  }
}
HARNESS(C11, operations, ({"op=0,D1=1,D2=1,hi=3", "op=1,D1=2,D2=2,hi=3", "op=2,D1=1,D2=1,hi=3", "op=2,D1=2,D2=1,hi=3", "op=2,D1=1,D2=2,hi=2", "op=3,D1=1,D2=1,hi=3", "op=3,D1=2,D2=1,hi=3", "op=4,D1=1,D2=1,hi=3", "op=4,D1=2,D2=2,hi=2"}),
        ({"op=0,D1=3,D2=3,hi=5,var=1", "op=2,D1=3,D2=1,hi=4,var=1", "op=3,D1=1,D2=1,hi=4,var=1", "op=4,D1=3,D2=3,hi=4,var=1"}), ({})) {
  long op = h.n("op"), D1 = h.n("D1"), D2 = h.n("D2"), var = h.n("var", 0), hi = h.n("hi"); double a = h.real("a"), b = a + h.pos("L"), t = h.real("t");
  double a2 = op == 4 ? b : a, b2 = op == 4 ? b + h.pos("L2") : b; h.assume(a <= t); h.assume(t <= b2);
  for (long k1 = 0; k1 < 6; k1++) for (long k2 = 0; k2 < 6; k2++) {
    if (op == 3 && k1 == 4 && k2 != 0) continue;
    vx::G g(h); g.smooth = op == 3;
    vx::E x = vx::kind(g, k1, a, b, D1, false, var), y = op == 3 && k1 == 4 ? g.identity(a, b) : vx::kind(g, k2, a2, b2, D2, false, var + 1);
    int cat = (int)((k1 + k2) % 4); vx::E r = vx::combine(op, cat, x, y, false);
    derivs(h, r, t, hi, "operation " + std::to_string(op) + " on kinds " + std::to_string(k1) + "," + std::to_string(k2));
  }
}
HARNESS(C11, three_factors_and_deep_composition, ({"D=1,hi=3", "D=2,hi=3"}), ({"D=2,hi=4"}), ({})) {
  long D = h.n("D"), hi = h.n("hi"); double a = h.real("a"), b = a + h.pos("L"), t = h.real("t"); vx::G g(h);
  { vx::E x = g.poly(a, b, 2), y = g.sine(a, b), z = D > 1 ? g.vec(a, b, D) : g.expo(a, b), u = g.cosine(a, b); vx::E p = vx::combine(2, 3, x, y); vx::E q = vx::combine(2, 0, p, z); vx::E r = vx::combine(2, 2, q, u); derivs(h, r, t, hi, "product of four"); }
  { vx::E x = D > 1 ? g.vec(a, b, D) : g.poly(a, b, 3), y = g.sine(a, b), z = g.poly(a, b, 2), u = g.expo(a, b); vx::E p = vx::combine(3, 3, x, y); vx::E q = vx::combine(3, 0, p, z); vx::E r = vx::combine(3, 1, q, u); derivs(h, r, t, std::min(hi, 3l), "composition of four"); }
  { vx::E x = g.sine(a, b), y = g.poly(a, b, 2); vx::E p = vx::combine(3, 0, x, y); vx::E q = vx::combine(3, 0, x, x); vx::E s = vx::combine(2, 0, p, q); vx::E n = vx::neg(s, false); vx::E k = vx::scale(h.real("k"), n, true); vx::E r = vx::combine(1, 1, p, k); derivs(h, r, t, hi, "mixed"); }
  { vx::E x = g.poly(a, b, 2), y = g.sine(a, b), z = g.expo(a, b); x.f = vx::ref2(0, x.f, y.f, a, a, b, false); x.e += y.e; x.f = vx::ref2(2, x.f, z.f, a, a, b, false); x.e *= z.e; x.f = vx::ref2(0, x.f, y.f, a, a, b, false); x.e += std::move(y.e); derivs(h, x, t, hi, "built with += and *="); }
}
HARNESS(C11, dot_product, ({"D=2,hi=3"}), ({"D=3,hi=4"}), ({})) {
  long D = h.n("D"), hi = h.n("hi"); double a = h.real("a"), b = a + h.pos("L"), t = h.real("t"); h.assume(a <= t); h.assume(t <= b);
  for (long k1 = 0; k1 < 6; k1++) for (long k2 = 0; k2 < 6; k2 += 2) {
    vx::G g(h); g.smooth = true; vx::E x = vx::kind(g, k1, a, b, D, false), y = vx::kind(g, k2, a, b, D, false); vx::Ref f = x.f, q = y.f;
    vx::E d{functions::FunctionExpression(x.e.dot(y.e)), [=](const Jet& s) { vx::V u = f(s), v = q(s); Jet r = Jet(double(0), s.ord()); for (long i = 0; i < D; i++) r = r + u[i] * v[i]; return vx::V{r}; }, a, b, 1};
    derivs(h, d, t, hi, "dot product of kinds " + std::to_string(k1) + "," + std::to_string(k2));
    functions::DotProduct o = x.e.dot(y.e); vx::V j = d.f(Jet::var(t, hi)); for (long k = 0; k <= hi; k++) h.eq(o.derivate(k)(vh::one(t))(0, 0), j[0].deriv(k), "DotProduct::derivate", 1000);
  }
}
static vx::E tree(vx::G& g, std::mt19937& r, double a, double b, long D, int depth) {
  if (depth == 0) return g.elem(a, b, D, (long)(r() % 6));
  int cat = (int)(r() % 4);
  switch (r() % 8) {
    case 0: { vx::E x = tree(g, r, a, b, D, depth - 1), y = tree(g, r, a, b, D, depth - 1); return vx::combine(0, cat, x, y, false); }
    case 1: { vx::E x = tree(g, r, a, b, D, depth - 1), y = tree(g, r, a, b, D, depth - 1); return vx::combine(1, cat, x, y, false); }
    case 2: case 7: { bool fst = r() % 2; vx::E x = tree(g, r, a, b, fst ? D : 1, depth - 1), y = tree(g, r, a, b, fst ? 1 : D, depth - 1); return vx::combine(2, cat, x, y, false); }
    case 3: { vx::E y = tree(g, r, a, b, 1, depth - 1), x = tree(g, r, a, b, D, depth - 1); if (x.pieces) { vx::E z = g.identity(a, b); return vx::combine(3, cat, x, z, false); } return vx::combine(3, cat, x, y, false); }
    case 4: { double m = a + (b - a) * num(1 + (long)(r() % 3), 4); vx::E x = tree(g, r, a, m, D, depth - 1), y = tree(g, r, m, b, D, depth - 1); return vx::combine(4, cat, x, y, false); }
    case 5: { vx::E x = tree(g, r, a, b, D, depth - 1); return vx::neg(x, cat & 1); }
    default: { vx::E x = tree(g, r, a, b, D, depth - 1); return vx::scale(g.fresh(), x, cat & 1); }
  }
}
HARNESS(C11, trees, ({"D=1,depth=2,lo=1,hi=21,d=3", "D=2,depth=2,lo=100,hi=120,d=3", "D=2,depth=3,lo=150,hi=165,d=2"}), ({"D=2,depth=3,lo=200,hi=230,d=3", "D=1,depth=4,lo=400,hi=415,d=2"}), ({"D=2,depth=3,lo=500,hi=510,d=3"})) {
  double a = h.real("a"), b = a + h.pos("L"), t = h.real("t"); h.assume(a <= t); h.assume(t <= b);
  for (long s = h.n("lo"); s < h.n("hi"); s++) { std::mt19937 r((unsigned)s); vx::G g(h, "s" + std::to_string(s) + "_"); g.smooth = true; vx::E x = tree(g, r, a, b, h.n("D"), (int)h.n("depth")); derivs(h, x, t, h.n("d"), "tree " + std::to_string(s)); }
}
