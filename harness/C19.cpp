// C19: objects are values: copies are independent, evaluation has no memory.
#include "expr.hpp"
using functions::FunctionExpression; using functions::FunctionBase;
HARNESS(C19, splines, ({"N=2,D=2,B=0,dim=3", "N=2,D=1,B=2,dim=3", "N=2,D=1,B=1,dim=3"}), ({"N=3,D=2,B=0,dim=6"}), ({"N=2,D=2,B=3", "N=6,D=3,B=0,dim=6"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h); double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim), e = h.vec("e", N * D * dim); auto b = vh::make_basis(B, dim);
  std::pair<double, double> dom(t0, t0 + vh::total(tau)); GSpline g(dom, D, N, *b, c, tau), q(dom, D, N, *b, e, tau); long k = N - 1; double t = vh::left_of(k, t0, tau) + num(2, 7) * tau(k), u = t0 + num(3, 5) * tau(0); auto at = [&](const FunctionBase& f, double x) { return f(vh::one(x)); };
  Eigen::MatrixXd gt = at(g, t), gu = at(g, u), qt = at(q, t), sum = gt + qt; auto ok = [&](const GSpline& f, const std::string& w) { h.eqm(at(f, t), gt, w, 100); h.eqm(at(f, u), gu, w, 100); h.eqm(f.get_coefficients(), c, w + " (coefficients)"); h.eqm(f.get_interval_lengths(), tau, w + " (lengths)"); h.require(f.get_basis() == *b && (long)f.get_codom_dim() == D, w + " (space)"); h.eq(f.get_domain().first, dom.first, w + " (domain)"); h.eq(f.get_domain().second, dom.second, w + " (domain)"); };
  GSpline a(g); ok(a, "copy"); a += q; h.eqm(at(a, t), sum, "changed copy", 100); ok(g, "original of a changed copy");
  GSpline a2(g), orig(g); orig += q; ok(a2, "copy of a changed original"); GSpline m(std::move(a2)); ok(m, "moved"); auto cl = g.clone(); ok(*cl, "clone"); *cl += q; ok(g, "original of a changed clone"); GSpline src(g); auto mc = src.move_clone(); ok(*mc, "moved clone");
  std::unique_ptr<FunctionBase> fb = static_cast<const FunctionBase&>(g).clone(); h.eqm(at(*fb, t), gt, "clone through FunctionBase", 100); auto fb2 = fb->move_clone(); h.eqm(at(*fb2, t), gt, "moved clone through FunctionBase", 100);
  FunctionExpression ex(g), ez = g.to_expression(); GSpline d1 = g.derivate(1); Eigen::MatrixXd dt = at(d1, t); g += q; h.eqm(at(ex, t), gt, "expression made before the change", 100); h.eqm(at(ez, t), gt, "expression made before the change", 100); h.eqm(at(d1, t), dt, "derivative taken before the change", 1000); h.eqm(at(g, t), sum, "changed spline", 100); g -= q; ok(g, "changed back");
  // the basis handed in may be changed or destroyed afterwards
  { auto b2 = vh::make_basis(B, dim); auto s = std::make_unique<GSpline>(dom, D, N, *b2, c, tau); b2.reset(); ok(*s, "after its basis was destroyed"); GSpline v(*s); s.reset(); ok(v, "after the original was destroyed"); }
  // data handed in may be changed afterwards
  Eigen::VectorXd c2 = c, l2 = tau; GSpline s2(dom, D, N, *b, c2, l2); c2.setZero(); l2.setZero(); ok(s2, "after the data it was made from changed");
}
HARNESS(C19, evaluation_has_no_memory, ({"N=2,D=2,B=0,dim=3", "N=2,D=1,B=2,dim=3", "N=3,D=1,B=1,dim=3"}), ({"N=4,D=2,B=0,dim=5"}), ({"N=2,D=2,B=3", "N=6,D=3,B=0,dim=6"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h); double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim), e = h.vec("e", N * D * dim); auto b = vh::make_basis(B, dim); std::pair<double, double> dom(t0, t0 + vh::total(tau)); GSpline g(dom, D, N, *b, c, tau), q(dom, D, N, *b, e, tau), k2(g);
  Eigen::VectorXd x(4); for (long i = 0; i < 4; i++) { long k = (i * 2 + 1) % N; x(i) = vh::left_of(k, t0, tau) + num(i + 1, 7) * tau(k); } std::vector<Eigen::MatrixXd> v; for (long i = 0; i < 4; i++) v.push_back(g(vh::one(x(i))));
  Eigen::MatrixXd all = g(x); for (long i = 0; i < 4; i++) h.eqm(all.row(i), v[i], "evaluation at several points", 100);
  Eigen::VectorXd rev = x.reverse(); Eigen::MatrixXd ar = g(rev); for (long i = 0; i < 4; i++) h.eqm(ar.row(3 - i), v[i], "evaluation in another order", 100);
  for (long i = 3; i >= 0; i--) { Eigen::MatrixXd w = q(x); auto d = g.derivate(1)(x); auto wp = g.get_waypoints(); auto bp = g.get_domain_breakpoints(); Eigen::MatrixXd y = k2(vh::one(x((i + 1) % 4))); (void)w; (void)d; (void)wp; (void)bp; (void)y; h.eqm(g(vh::one(x(i))), v[i], "evaluation after other evaluations", 100); }
  Eigen::VectorXd same(3); same << x(1), x(1), x(1); Eigen::MatrixXd sm = g(same); for (long i = 0; i < 3; i++) h.eqm(sm.row(i), v[1], "the same point repeated", 100);
  Eigen::MatrixXd out(4, D); out.setConstant(double(9)); g.value(x, out); h.eqm(out, all, "value() does not depend on the previous content", 100);
}
HARNESS(C19, basis_evaluation_has_no_memory, ({"B=0,dim=4", "B=1,dim=3", "B=2,dim=4"}), ({"B=0,dim=7"}), ({"B=3", "B=0,dim=12", "B=0,dim=1", "B=0,dim=2"})) {
  long B = h.n("B"), dim = vh::bdim(h); auto b = vh::make_basis(B, dim), c = b->clone(); double s = num(3, 11), r = num(-5, 13), t = h.pos("t"), u = h.pos("u");
  auto val = [&](const basis::Basis& x, double s_, double t_, long d) { Eigen::VectorXd v = Eigen::VectorXd::Constant(dim, double(7)); x.eval_derivative_on_window(s_, t_, d, v); return v; }; auto dt = [&](const basis::Basis& x, double s_, double t_, long d) { Eigen::VectorXd v = Eigen::VectorXd::Constant(dim, double(7)); x.eval_derivative_wrt_tau_on_window(s_, t_, d, v); return v; }; auto ev = [&](const basis::Basis& x, double s_, double t_) { Eigen::VectorXd v = Eigen::VectorXd::Constant(dim, double(5)); x.eval_on_window(s_, t_, v); return v; };
  for (long d = 0; d <= 3; d++) { Eigen::VectorXd p = val(*b, s, t, d), q = dt(*b, s, t, d); val(*b, r, u, 3 - d); dt(*b, r, u, d); ev(*b, r, u); h.eqm(val(*b, s, t, d), p, "derivatives", 10000); h.eqm(dt(*b, s, t, d), q, "derivatives by the length", 10000); h.eqm(val(*c, s, t, d), p, "derivatives from a copy", 10000); h.eqm(dt(*c, s, t, d), q, "derivatives by the length, from a copy", 10000); }
  Eigen::VectorXd p = ev(*b, s, t); ev(*b, r, u); ev(*c, r, u); h.eqm(ev(*b, s, t), p, "values"); h.eqm(ev(*c, s, t), p, "values from a copy"); h.eqm(val(*b, s, t, 0), p, "derivative of order zero"); auto m = c->move_clone(); h.eqm(ev(*m, s, t), p, "values from a moved copy"); h.eqm(val(*m, s, t, 1), val(*b, s, t, 1), "derivatives from a moved copy", 1000);
  // into a buffer with a stride
  Eigen::MatrixXd buf(3, dim); buf.setConstant(double(4)); b->eval_on_window(s, t, buf.row(1)); for (long i = 0; i < dim; i++) { h.eq(buf(1, i), p(i), "strided buffer"); h.eq(buf(0, i), double(4), "neighbouring row"); h.eq(buf(2, i), double(4), "neighbouring row"); }
  Eigen::MatrixXd g1 = Eigen::MatrixXd::Zero(dim, dim), g2 = Eigen::MatrixXd::Constant(dim, dim, double(3)), g3 = Eigen::MatrixXd::Zero(dim, dim); b->add_derivative_matrix(t, 1, g1); b->add_derivative_matrix(u, 2, g3); b->add_derivative_matrix(t, 1, g2); h.eqm((g2 - g1).eval(), Eigen::MatrixXd::Constant(dim, dim, double(3)).eval(), "add_derivative_matrix adds", 10000);
}
HARNESS(C19, expressions, ({"D=1", "D=2"}), ({"D=3"}), ({})) {
  long D = h.n("D"); double a = h.real("a"), b = a + h.pos("L"), t = h.real("t"), u = a + (b - a) / double(5);
  for (long k = 0; k < 6; k++) for (long k2 = 0; k2 < 6; k2 += 2) {
    vx::G g(h); vx::E x = vx::kind(g, k, a, b, D), y = vx::kind(g, k2, a, b, D), s = vx::kind(g, k2, a, b, 1); std::string w = "kinds " + std::to_string(k) + "," + std::to_string(k2);
    FunctionExpression cp(x.e); cp += y.e; vx::check(h, x, t, w + ": original of a copy that was added to"); FunctionExpression cm(x.e); cm *= s.e; vx::check(h, x, t, w + ": original of a copy that was multiplied");
    vx::E o = vx::copy(x); FunctionExpression keep(o.e); o.e += y.e; vx::value(h, keep, x.f, t, w + ": copy of an original that was added to"); FunctionExpression mv(std::move(keep)); vx::value(h, mv, x.f, t, w + ": moved");
    auto cl = x.e.clone(); vx::value(h, *cl, x.f, t, w + ": clone"); auto mc = cl->move_clone(); vx::value(h, *mc, x.f, t, w + ": moved clone"); std::unique_ptr<FunctionBase> fb = static_cast<const FunctionBase&>(x.e).clone(); vx::value(h, *fb, x.f, t, w + ": clone through FunctionBase");
    { auto p = std::make_unique<vx::E>(vx::copy(x)); FunctionExpression r = p->e + y.e, dd = p->e.derivate(1); p.reset(); vx::E sm = vx::combine(0, 0, x, y); vx::value(h, r, sm.f, t, w + ": sum after an operand was destroyed"); }
    vx::value(h, x.e, x.f, u, w + ": other point"); auto d = x.e.derivate(1); Eigen::MatrixXd dv = d(vh::one(u)); (void)dv; vx::value(h, x.e, x.f, t, w + ": evaluation after a derivative was taken");
    Eigen::VectorXd pts(3); pts << u, t, u; Eigen::MatrixXd all = x.e(pts); Eigen::MatrixXd at = x.e(vh::one(t)), au = x.e(vh::one(u)); h.eqm(all.row(1), at, w + ": several points"); h.eqm(all.row(0), au, w + ": several points"); h.eqm(all.row(2), au, w + ": several points");
  }
}
// interpolation and norms depend on their arguments only
HARNESS(C19, interpolation_has_no_memory, ({"N=2,D=1,B=0,dim=4"}), ({"N=2,D=2,B=0,dim=4"}), ({"N=5,D=2,B=0,dim=6", "N=3,D=2,B=3", "N=3,D=2,B=1,dim=4"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h); Eigen::VectorXd t1(N), t2(N); for (long i = 0; i < N; i++) { t1(i) = h.symbolic() ? num(i + 2, 3) : h.range("a" + std::to_string(i), num(1, 2), double(2)); t2(i) = h.symbolic() ? num(5, i + 3) : h.range("b" + std::to_string(i), num(1, 2), double(2)); } Eigen::MatrixXd w1 = h.mat("v", N + 1, D), w2 = h.mat("w", N + 1, D); auto b = vh::make_basis(B, dim);
  Interpolator f1(D, N, *b), f2(D, N, *b); Eigen::VectorXd y1 = f1.solve_interpolation(t1, w1), y2 = f2.solve_interpolation(t2, w2); Interpolator in(D, N, *b); const long sc = 1000;
  h.eqm(in.interpolate(t2, w2).get_coefficients(), y2, "first call", sc); h.eqm(in.interpolate(t1, w1).get_coefficients(), y1, "second call", sc); h.eqm(in.interpolate(t2, w2).get_coefficients(), y2, "third call", sc); GSpline g = in.interpolate(t1, w1); in.interpolate(t2, w2); h.eqm(g.get_coefficients(), y1, "result of an earlier call", sc); h.eqm(interpolate(t1, w1, *b).get_coefficients(), y1, "free function", sc);
  std::vector<std::pair<size_t, double>> wt{{1, num(3, 2)}}; functional_analysis::SobolevNorm n1(w1, *b, wt), n2(w1, *b, wt); double v1 = n1(t1); n2(t2); Eigen::VectorXd gr(N); n2.deriv_wrt_interval_len(t2, gr); h.eq(n2(t1), v1, "norm after other calls", 10000);
}
