// expressions together with their mathematical meaning
#ifndef VERIF_EXPR_HPP
#define VERIF_EXPR_HPP
#include "common.hpp"
namespace vx {
using functions::FunctionBase; using functions::FunctionExpression;
typedef FunctionExpression FE;
typedef std::vector<Jet> V;
typedef std::function<V(const Jet&)> Ref;  // Taylor series of the function at a point
struct E { FE e; Ref f; double a, b; long dim; long pieces = 0; };
inline Jet cst(double v, const Jet& t) { return Jet(v, t.ord()); }
struct G {  bool smooth = false;  // smooth: no elemental that selects an interval
  // generator of elementals; every coefficient is a fresh unknown
  H& h; long k = 0; std::string pre; explicit G(H& h_, std::string p = "p") : h(h_), pre(p) {}
  double fresh() { return h.real(pre + std::to_string(k++)); }
  E poly(double a, double b, long deg) {
    Eigen::VectorXd c(deg + 1); for (long i = 0; i <= deg; i++) c(i) = fresh();
    return {FE(functions::CanonicPolynomial({a, b}, c)), [c](const Jet& t) { Jet r = cst(c(c.size() - 1), t); for (long i = c.size() - 2; i >= 0; i--) { r = r * t; r.c[0] = r.c[0] + c(i); } return V{r}; }, a, b, 1};
  }
  E constant(double a, double b, long dim) {
    Eigen::VectorXd c(dim); for (long i = 0; i < dim; i++) c(i) = fresh();
    return {FE(functions::ConstFunction({a, b}, c)), [c](const Jet& t) { V v; for (long i = 0; i < c.size(); i++) v.push_back(cst(c(i), t)); return v; }, a, b, dim};
  }
  E dilation(double a, double b) { double k = fresh(); return {FE(functions::DomainLinearDilation({a, b}, k)), [k](const Jet& t) { return V{k * t}; }, a, b, 1}; }
  E fixed_dilation(double a, double b, double k) { return {FE(functions::DomainLinearDilation({a, b}, k)), [k](const Jet& t) { return V{k * t}; }, a, b, 1}; }
  E identity(double a, double b) { return {FE(functions::Identity({a, b})), [](const Jet& t) { return V{t}; }, a, b, 1}; }
  E expo(double a, double b) { return {FE(functions::Exponential({a, b})), [](const Jet& t) { return V{jexp(t)}; }, a, b, 1}; }
  E sine(double a, double b) { return {FE(functions::Sin({a, b})), [](const Jet& t) { Jet s, c; jsincos(t, s, c); return V{s}; }, a, b, 1}; }
  E cosine(double a, double b) { return {FE(functions::Cos({a, b})), [](const Jet& t) { Jet s, c; jsincos(t, s, c); return V{c}; }, a, b, 1}; }
  // vector function made of one Legendre spline with a single interval
  E spline(double a, double b, long dim, long deg) {
    Eigen::VectorXd c(dim * (deg + 1)), tau(1); tau(0) = b - a; for (long i = 0; i < c.size(); i++) c(i) = fresh();
    return {FE(GSpline({a, b}, dim, 1, basis::BasisLegendre(deg + 1), c, tau)), [=](const Jet& t) {
      Jet s = (double(2) / (b - a)) * (t - cst(a, t)) - cst(double(1), t); V v;
      for (long q = 0; q < dim; q++) { Jet r = cst(double(0), t); for (long j = 0; j <= deg; j++) { Poly p = legendre(j); Jet w = cst(double(0), t); for (long i = (long)p.a.size() - 1; i >= 0; i--) { w = w * s; w.c[0] = w.c[0] + p.a[i]; } r = r + c(q * (deg + 1) + j) * w; } v.push_back(r); }
      return v; }, a, b, dim};
  }
  E vec(double a, double b, long dim) {
    E p = poly(a, b, 1), c = constant(a, b, dim); Ref f = p.f, g = c.f; FE m = p.e * c.e;
    return {FE(static_cast<const FunctionBase&>(m)), [=](const Jet& t) { V x = g(t); Jet y = f(t)[0]; for (auto& j : x) j = j * y; return x; }, a, b, dim};
  }
  E elem(double a, double b, long dim, long i) {
    if (dim > 1) return smooth ? vec(a, b, dim) : i % 2 ? constant(a, b, dim) : spline(a, b, dim, 1);
    switch (i % 6) { case 0: return poly(a, b, 1); case 1: return sine(a, b); case 2: return cosine(a, b); case 3: return expo(a, b); case 4: return dilation(a, b); default: return constant(a, b, 1); }
  }
};
inline E copy(const E& x) { return {FE(x.e), x.f, x.a, x.b, x.dim, x.pieces}; }
// op: 0 +, 1 -, 2 *, 3 first composed with second, 4 concatenation
inline Ref ref2(int op, Ref f, Ref g, double a, double m, double b, bool clamp) {
  switch (op) {
    case 0: return [=](const Jet& t) { V x = f(t), y = g(t), r; for (size_t i = 0; i < x.size(); i++) r.push_back(x[i] + y[i]); return r; };
    case 1: return [=](const Jet& t) { V x = f(t), y = g(t), r; for (size_t i = 0; i < x.size(); i++) r.push_back(x[i] - y[i]); return r; };
    case 2: return [=](const Jet& t) { V x = f(t), y = g(t), r; if (x.size() < y.size()) std::swap(x, y); for (size_t i = 0; i < x.size(); i++) r.push_back(x[i] * y[0]); return r; };
    case 3: return [=](const Jet& t) { return f(g(t)[0]); };
    default: return [=](const Jet& t) { Jet u = t; if (u.c[0] < a) u = clamp ? cst(a, t) : (u.c[0] = a, u); else if (u.c[0] > b) u = clamp ? cst(b, t) : (u.c[0] = b, u);
      return u.c[0] < m ? f(u) : g(u); };
  }
}
inline FE apply(int op, int cat, E& x, E& y) {  // consumes rvalue operands
  FE &f = x.e, &g = y.e;
  switch (op * 4 + cat) {
    case 0: return f + g; case 1: return f + std::move(g); case 2: return std::move(f) + g; case 3: return std::move(f) + std::move(g);
    case 4: return f - g; case 5: return f - std::move(g); case 6: return std::move(f) - g; case 7: return std::move(f) - std::move(g);
    case 8: return f * g; case 9: return f * std::move(g); case 10: return std::move(f) * g; case 11: return std::move(f) * std::move(g);
    case 12: return f.compose(g); case 13: return f.compose(std::move(g)); case 14: return std::move(f).compose(g); case 15: return std::move(f).compose(std::move(g));
    case 16: return f.concat(g); case 17: return f.concat(std::move(g)); case 18: return std::move(f).concat(g); default: return std::move(f).concat(std::move(g));
  }
}
inline FE apply_base(int op, int cat, const FunctionBase& f, E& y) {  // through the abstract interface
  FE& g = y.e; auto m = f.clone(); FunctionBase& r = *m;
  switch (op * 4 + cat) {
    case 0: return f + g; case 1: return f + std::move(g); case 2: return std::move(r) + g; case 3: return std::move(r) + std::move(g);
    case 4: return f - g; case 5: return f - std::move(g); case 6: return std::move(r) - g; case 7: return std::move(r) - std::move(g);
    case 8: return f * g; case 9: return f * std::move(g); case 10: return std::move(r) * g; case 11: return std::move(r) * std::move(g);
    case 12: return f.compose(g); case 13: return f.compose(std::move(g)); case 14: return std::move(r).compose(g); case 15: return std::move(r).compose(std::move(g));
    case 16: return f.concat(g); case 17: return f.concat(std::move(g)); case 18: return std::move(r).concat(g); default: return std::move(r).concat(std::move(g));
  }
}
inline E combine(int op, int cat, E& x, E& y, bool clamp = true) {
  double a = op == 3 ? y.a : x.a, b = op == 3 || op == 4 ? y.b : x.b; long dim = op == 2 ? std::max(x.dim, y.dim) : x.dim;
  Ref r = ref2(op, x.f, y.f, x.a, y.a, y.b, clamp);
  return {apply(op, cat, x, y), r, a, b, dim, x.pieces + y.pieces + (op == 4)};
}
inline E neg(E& x, bool mv) { Ref f = x.f; Ref r = [f](const Jet& t) { V v = f(t); for (auto& j : v) j = -j; return v; }; return {mv ? FE(-std::move(x.e)) : FE(-x.e), r, x.a, x.b, x.dim, x.pieces}; }
inline E scale(double k, E& x, bool mv) { Ref f = x.f; Ref r = [f, k](const Jet& t) { V v = f(t); for (auto& j : v) j = k * j; return v; }; return {mv ? FE(k * std::move(x.e)) : FE(k * x.e), r, x.a, x.b, x.dim, x.pieces}; }
// an expression of each structural kind: 0 UNIQUE 1 SUM 2 MULTIPLICATION 3 COMPOSITION 4 CONCATENATION 5 NEGATIVE
inline E kind(G& g, long k, double a, double b, long dim, bool clamp = true, long var = 0) {
  switch (k) {
    case 0: return g.elem(a, b, dim, var);
    case 1: { E x = g.elem(a, b, dim, var), y = g.elem(a, b, dim, var + 1); return combine(0, 3, x, y); }
    case 2: { E x = g.elem(a, b, dim, var), y = g.elem(a, b, 1, var + 1); return combine(2, 3, x, y); }
    case 3: { E x = g.elem(a, b, dim, var), y = g.elem(a, b, 1, var); return combine(3, 3, x, y); }
    case 4: { double m = a + (b - a) / double(3); E x = g.elem(a, m, dim, var), y = g.elem(m, b, dim, var + 1); return combine(4, 3, x, y, clamp); }
    default: { E x = g.elem(a, b, dim, var); return neg(x, true); }
  }
}
inline void frame(H& h, const FunctionBase& e, double a, double b, long dim, const std::string& w) {
  h.require((long)e.get_codom_dim() == dim, w + ": codomain"); h.eq(e.get_domain().first, a, w + ": left end of the domain"); h.eq(e.get_domain().second, b, w + ": right end of the domain");
}
inline void value(H& h, const FunctionBase& e, const Ref& f, double t, const std::string& w, long scale = 1) {
  Eigen::MatrixXd m = e(vh::one(t)); V v = f(Jet(t, 0)); h.require(m.rows() == 1 && m.cols() == (long)v.size(), w + ": size");
  for (long i = 0; i < m.cols() && i < (long)v.size(); i++) h.eq(m(0, i), v[i].c[0], w, scale);
}
inline void check(H& h, const E& x, double t, const std::string& w, long scale = 1) { frame(h, x.e, x.a, x.b, x.dim, w); value(h, x.e, x.f, t, w, scale); }
}  // namespace vx
#endif
