// C10: the algebra of function expressions is the pointwise algebra.
#include "expr.hpp"
static const char* OP[] = {"sum", "difference", "product", "composition", "concatenation"};
static const char* CAT[] = {"lvalue,lvalue", "lvalue,rvalue", "rvalue,lvalue", "rvalue,rvalue"};
HARNESS(C10, binary, ({"op=0,D1=1,D2=1", "op=0,D1=2,D2=2", "op=1,D1=1,D2=1", "op=1,D1=2,D2=2", "op=2,D1=1,D2=1", "op=2,D1=2,D2=1", "op=2,D1=1,D2=3", "op=3,D1=1,D2=1", "op=3,D1=2,D2=1", "op=4,D1=1,D2=1", "op=4,D1=2,D2=2"}),
        ({"op=0,D1=3,D2=3,var=1", "op=1,D1=3,D2=3,var=1", "op=2,D1=3,D2=1,var=1", "op=2,D1=1,D2=2,var=2", "op=3,D1=3,D2=1,var=1", "op=4,D1=3,D2=3,var=1", "op=0,D1=1,D2=1,var=4", "op=2,D1=1,D2=1,var=4"}), ({})) {
  long op = h.n("op"), D1 = h.n("D1"), D2 = h.n("D2"), var = h.n("var", 0);
  double a = h.real("a"), L = h.pos("L"), b = a + L, t = h.real("t");
  for (long k1 = 0; k1 < 6; k1++) for (long k2 = 0; k2 < 6; k2++) {
    if (op == 3 && k1 == 4 && k2 != 0) continue;  // concatenation after a nonlinear function: see trees
    vx::G g(h); g.smooth = op == 3; double a2 = op == 4 ? b : a, b2 = op == 4 ? b + h.pos("L2") : b;
    vx::E x = vx::kind(g, k1, a, b, D1, true, var), y = op == 3 && k1 == 4 ? g.fixed_dilation(a, b, num(3, 4)) : vx::kind(g, k2, a2, b2, D2, true, var + 1);
    vx::check(h, x, t, "first operand"); vx::check(h, y, t, "second operand");
    for (int cat = 0; cat < 4; cat++) {
      vx::E p = vx::copy(x), q = vx::copy(y); std::string w = std::string(OP[op]) + " (" + CAT[cat] + ") of kinds " + std::to_string(k1) + "," + std::to_string(k2);
      vx::E r = vx::combine(op, cat, p, q); vx::check(h, r, t, w);
      if (cat == 0 || cat == 1) vx::check(h, p, t, w + ": first operand unchanged");
      if (cat == 0 || cat == 2) vx::check(h, q, t, w + ": second operand unchanged");
      vx::E q2 = vx::copy(y); vx::FE rb = vx::apply_base(op, cat, x.e, q2); vx::frame(h, rb, r.a, r.b, r.dim, w); vx::value(h, rb, r.f, t, w + " through FunctionBase");
      vx::check(h, x, t, w + ": operand unchanged");
    }
  }
}
HARNESS(C10, elementals_as_operands, ({"D=2"}), ({"D=3"}), ({})) {
  // operators called on the elemental objects themselves
  double a = h.real("a"), b = a + h.pos("L"), t = h.real("t"); std::pair<double, double> dom(a, b); vx::G g(h); long D = h.n("D");
  functions::Sin sn(dom); functions::Cos cs(dom); functions::Exponential ex(dom); functions::Identity id(dom); functions::DomainLinearDilation di(dom, h.real("k"));
  Eigen::VectorXd c = h.vec("c", 4); functions::CanonicPolynomial po(dom, c); Eigen::VectorXd cv = h.vec("cv", D); functions::ConstFunction co(dom, cv), z(dom, D, h.real("z"));
  auto one = [&](const functions::FunctionBase& f) { return f(vh::one(t)); };
  double k = h.real("k"), P = c(0) + t * (c(1) + t * (c(2) + t * c(3)));
  h.eq(one(sn)(0, 0), std::sin(t), "sin"); h.eq(one(cs)(0, 0), std::cos(t), "cos"); h.eq(one(ex)(0, 0), std::exp(t), "exp"); h.eq(one(id)(0, 0), t, "identity"); h.eq(one(di)(0, 0), k * t, "dilation"); h.eq(one(po)(0, 0), P, "polynomial");
  for (long i = 0; i < D; i++) { h.eq(one(co)(0, i), cv(i), "constant"); h.eq(one(z)(0, i), h.real("z"), "constant value"); }
  h.eq(one(sn + cs)(0, 0), std::sin(t) + std::cos(t), "sin+cos"); h.eq(one(sn - ex)(0, 0), std::sin(t) - std::exp(t), "sin-exp"); h.eq(one(po * ex)(0, 0), P * std::exp(t), "poly*exp");
  h.eq(one(sn.compose(di))(0, 0), std::sin(k * t), "sin of dilation"); h.eq(one(po.compose(sn))(0, 0), c(0) + std::sin(t) * (c(1) + std::sin(t) * (c(2) + std::sin(t) * c(3))), "poly of sin");
  h.eq(one(-sn)(0, 0), -std::sin(t), "-sin"); h.eq(one(-functions::Sin(dom))(0, 0), -std::sin(t), "-sin temporary"); h.eq(one(h.real("q") * po)(0, 0), h.real("q") * P, "scalar*poly"); h.eq(one(functions::Sin(dom) * functions::Cos(dom) + functions::Identity(dom))(0, 0), std::sin(t) * std::cos(t) + t, "temporaries");
  Eigen::MatrixXd m = one(sn * co), m2 = one(co * sn), m3 = one(co.compose(sn));
  for (long i = 0; i < D; i++) { h.eq(m(0, i), cv(i) * std::sin(t), "scalar*vector"); h.eq(m2(0, i), cv(i) * std::sin(t), "vector*scalar"); h.eq(m3(0, i), cv(i), "constant of sin"); }
  h.require(m.cols() == D && m2.cols() == D, "codomain of the product");
  // evaluation at several points is evaluation at each of them
  vx::E s = vx::kind(g, 1, a, b, D), u = vx::kind(g, 2, a, b, D), w = vx::kind(g, 4, a, b, D); vx::E v = vx::combine(0, 0, s, u); vx::E y = vx::combine(1, 0, v, w);
  Eigen::VectorXd ts(3); ts << t, h.real("t2"), t; Eigen::MatrixXd M = y.e(ts), M2(3, D); y.e.value(ts, M2);
  for (long i = 0; i < 3; i++) { vx::V r = y.f(Jet(ts(i), 0)); for (long j = 0; j < D; j++) { h.eq(M(i, j), r[j].c[0], "row " + std::to_string(i)); h.eq(M2(i, j), r[j].c[0], "row of the in-place evaluation"); } }
  vx::FE zero(dom, D); Eigen::MatrixXd Z = zero(ts); for (long i = 0; i < 3; i++) for (long j = 0; j < D; j++) h.eq(Z(i, j), double(0), "zero function");
  vx::frame(h, zero, a, b, D, "zero function");
}
HARNESS(C10, unary_scale_and_assign, ({"D=1", "D=2"}), ({"D=3,var=1"}), ({})) {
  long D = h.n("D"), var = h.n("var", 0); double a = h.real("a"), b = a + h.pos("L"), t = h.real("t"), k = h.real("k");
  for (long k1 = 0; k1 < 6; k1++) {
    vx::G g(h); vx::E x = vx::kind(g, k1, a, b, D, true, var); std::string w = " of kind " + std::to_string(k1);
    for (int mv = 0; mv < 2; mv++) {
      vx::E p = vx::copy(x); vx::E n = vx::neg(p, mv); vx::check(h, n, t, "negation" + w); if (!mv) vx::check(h, p, t, "operand of the negation unchanged" + w);
      vx::E q = vx::copy(x); vx::E s = vx::scale(k, q, mv); vx::check(h, s, t, "scalar multiple" + w); if (!mv) vx::check(h, q, t, "operand of the scalar multiple unchanged" + w);
      vx::E nn = vx::neg(n, mv); vx::check(h, nn, t, "double negation" + w);
      auto cl = x.e.clone(); vx::value(h, *cl, x.f, t, "clone" + w); vx::FE up(static_cast<const functions::FunctionBase&>(*cl)); vx::value(h, up, x.f, t, "wrapped clone" + w); vx::FE te = cl->to_expression(); vx::value(h, te, x.f, t, "to_expression" + w); vx::FE mc = std::move(*cl).to_expression(); vx::value(h, mc, x.f, t, "to_expression of a temporary" + w);
      vx::frame(h, te, a, b, D, "to_expression" + w); vx::frame(h, mc, a, b, D, "to_expression" + w);
    }
    for (long k2 = 0; k2 < 6; k2++) for (int mv = 0; mv < 2; mv++) {
      std::string w2 = w + " and " + std::to_string(k2); vx::G g2(h, "q"); vx::E y = vx::kind(g2, k2, a, b, D, true, var + 1), s = vx::kind(g2, k2, a, b, 1, true, var + 1);
      vx::E p = vx::copy(x), q = vx::copy(y); p.f = vx::ref2(0, x.f, y.f, a, a, b, true); if (mv) p.e += std::move(q.e); else { p.e += q.e; vx::check(h, q, t, "operand of += unchanged" + w2); } vx::check(h, p, t, "+=" + w2);
      vx::E c = vx::copy(s); p.f = vx::ref2(2, p.f, s.f, a, a, b, true); if (mv) p.e *= std::move(c.e); else { p.e *= c.e; vx::check(h, c, t, "operand of *= unchanged" + w2); } vx::check(h, p, t, "+= then *=" + w2);
      vx::E e = vx::copy(y); p.f = vx::ref2(0, p.f, y.f, a, a, b, true); p.e += e.e; vx::check(h, p, t, "*= then +=" + w2);
      vx::E m = vx::copy(x), c2 = vx::copy(s); m.f = vx::ref2(2, x.f, s.f, a, a, b, true); m.e *= c2.e; vx::check(h, m, t, "*=" + w2);
    }
  }
}
HARNESS(C10, dot_product, ({"D=1", "D=3"}), ({"D=4,var=1"}), ({})) {
  long D = h.n("D"); double a = h.real("a"), b = a + h.pos("L"), t = h.real("t");
  for (long k1 = 0; k1 < 6; k1++) for (long k2 = 0; k2 < 6; k2++) {
    vx::G g(h); vx::E x = vx::kind(g, k1, a, b, D, true, h.n("var", 0)), y = vx::kind(g, k2, a, b, D, true, 1); vx::V u = x.f(Jet(t, 0)), v = y.f(Jet(t, 0)); double r = double(0); for (long i = 0; i < D; i++) r = r + u[i].c[0] * v[i].c[0];
    for (int cat = 0; cat < 4; cat++) {
      vx::E p = vx::copy(x), q = vx::copy(y);
      functions::DotProduct d = cat == 0 ? p.e.dot(q.e) : cat == 1 ? p.e.dot(std::move(q.e)) : cat == 2 ? std::move(p.e).dot(q.e) : std::move(p.e).dot(std::move(q.e));
      vx::frame(h, d, a, b, 1, "dot product"); h.eq(d(vh::one(t))(0, 0), r, "dot product"); functions::DotProduct c(d); h.eq(c(vh::one(t))(0, 0), r, "copy of the dot product"); vx::FE e(d); h.eq(e(vh::one(t))(0, 0), r, "dot product as expression");
    }
  }
}
// expression trees built by a fixed pseudo-random sequence of operations
static vx::E tree(vx::G& g, std::mt19937& r, double a, double b, long D, int depth) {
  if (depth == 0) return g.elem(a, b, D, (long)(r() % 6));
  int cat = (int)(r() % 4);
  switch (r() % 8) {
    case 0: { vx::E x = tree(g, r, a, b, D, depth - 1), y = tree(g, r, a, b, D, depth - 1); return vx::combine(0, cat, x, y); }
    case 1: { vx::E x = tree(g, r, a, b, D, depth - 1), y = tree(g, r, a, b, D, depth - 1); return vx::combine(1, cat, x, y); }
    case 2: case 7: { bool fst = r() % 2; vx::E x = tree(g, r, a, b, fst ? D : 1, depth - 1), y = tree(g, r, a, b, fst ? 1 : D, depth - 1); return vx::combine(2, cat, x, y); }
    case 3: { vx::E y = r() % 2 ? g.fixed_dilation(a, b, num(1 + (long)(r() % 3), 2)) : tree(g, r, a, b, 1, depth - 1); vx::E x = tree(g, r, a, b, D, depth - 1); if (x.pieces) { vx::E z = g.fixed_dilation(a, b, num(1, 2)); return vx::combine(3, cat, x, z); } return vx::combine(3, cat, x, y); }
    case 4: { double m = a + (b - a) * num(1 + (long)(r() % 3), 4); vx::E x = tree(g, r, a, m, D, depth - 1), y = tree(g, r, m, b, D, depth - 1); return vx::combine(4, cat, x, y); }
    case 5: { vx::E x = tree(g, r, a, b, D, depth - 1); return vx::neg(x, cat & 1); }
    default: { vx::E x = tree(g, r, a, b, D, depth - 1); return vx::scale(g.fresh(), x, cat & 1); }
  }
}
HARNESS(C10, trees, ({"D=1,depth=3,lo=1,hi=25", "D=2,depth=3,lo=100,hi=125"}), ({"D=2,depth=4,lo=200,hi=260", "D=3,depth=3,lo=300,hi=380", "D=1,depth=5,lo=400,hi=430"}), ({"D=2,depth=5,lo=500,hi=520"})) {
  double a = h.real("a"), b = a + h.pos("L"), t = h.real("t");
  for (long s = h.n("lo"); s < h.n("hi"); s++) { std::mt19937 r((unsigned)s); vx::G g(h, "s" + std::to_string(s) + "_"); g.smooth = true; vx::E x = tree(g, r, a, b, h.n("D"), (int)h.n("depth")); vx::check(h, x, t, "tree " + std::to_string(s), 1000); }
}
