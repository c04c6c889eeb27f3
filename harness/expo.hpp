// exact calculus of sums of  c u^p exp((a + i w) u),  c complex rational
#ifndef VERIF_EXPO_HPP
#define VERIF_EXPO_HPP
#include "common.hpp"
namespace vh {
struct Cx { double r, i; };
inline Cx operator*(Cx x, Cx y) { return {x.r * y.r - x.i * y.i, x.r * y.i + x.i * y.r}; }
inline Cx operator+(Cx x, Cx y) { return {x.r + y.r, x.i + y.i}; }
struct Expo {
  std::map<std::array<long, 3>, Cx> t;  // (p, a, w) -> c
  void add(long p, long a, long w, Cx c) { auto it = t.find({p, a, w}); if (it == t.end()) t[{p, a, w}] = c; else it->second = it->second + c; }
  static Expo phi(long j) {  // the six functions of basis0101
    Expo e; double q = num(1, 2), z = double(0);
    if (j == 4) e.add(1, 0, 0, {double(1), z}); else if (j == 5) e.add(0, 0, 0, {double(1), z});
    else { long a = j < 2 ? 1 : -1; if (j % 2 == 0) { e.add(0, a, 1, {q, z}); e.add(0, a, -1, {q, z}); } else { e.add(0, a, 1, {z, -q}); e.add(0, a, -1, {z, q}); } }
    return e;
  }
  Expo d() const { Expo e; for (auto& x : t) { long p = x.first[0], a = x.first[1], w = x.first[2]; e.add(p, a, w, x.second * Cx{double(a), double(w)}); if (p) e.add(p - 1, a, w, x.second * Cx{double(p), double(0)}); } return e; }
  Expo dn(long k) const { Expo e = *this; while (k-- > 0) e = e.d(); return e; }
  Expo prim() const {
    Expo e;
    for (auto& x : t) {
      long p = x.first[0], a = x.first[1], w = x.first[2]; Cx c = x.second;
      if (a == 0 && w == 0) { e.add(p + 1, 0, 0, c * Cx{num(1, p + 1), double(0)}); continue; }
      Cx inv{num(a, a * a + w * w), num(-w, a * a + w * w)};
      for (long q = p; q >= 0; q--) { c = c * inv; e.add(q, a, w, c); c = c * Cx{double(-q), double(0)}; }
    }
    return e;
  }
  double operator()(double u) const {
    double r = double(0);
    for (auto& x : t) { long p = x.first[0], a = x.first[1], w = x.first[2];
      double m = ipow(u, p) * std::exp(double(a) * u); r = r + m * (x.second.r * std::cos(double(w) * u) - x.second.i * std::sin(double(w) * u)); }
    return r;
  }
};
inline Expo operator*(const Expo& f, const Expo& g) { Expo e; for (auto& x : f.t) for (auto& y : g.t) e.add(x.first[0] + y.first[0], x.first[1] + y.first[1], x.first[2] + y.first[2], x.second * y.second); return e; }
// integral over an interval of length tau of the d-th time derivatives of basis functions i and j; and its derivative wrt tau
inline double gram0101(long i, long j, long d, double tau, double k) {
  Expo P = (Expo::phi(i).dn(d) * Expo::phi(j).dn(d)).prim(); double U = k * tau;
  return ipow(double(2) * k, 2 * d) / (double(2) * k) * (P(U) - P(-U));
}
inline double gram0101_tau(long i, long j, long d, double tau, double k) {
  Expo g = Expo::phi(i).dn(d) * Expo::phi(j).dn(d); double U = k * tau;
  return ipow(double(2) * k, 2 * d) / (double(2) * k) * k * (g(U) + g(-U));
}
inline double gram_poly(long kind, long dim, long i, long j, long d, double tau) {
  Poly p = basis_poly(kind, dim, i).dn(d) * basis_poly(kind, dim, j).dn(d);
  return ipow(double(2) / tau, 2 * d) * tau / double(2) * p.integ(double(-1), double(1));
}
inline double gram(long kind, long dim, long i, long j, long d, double tau) { return kind == 3 ? gram0101(i, j, d, tau, k0101(alpha())) : gram_poly(kind, dim, i, j, d, tau); }
inline double gram_tau(long kind, long dim, long i, long j, long d, double tau) {
  return kind == 3 ? gram0101_tau(i, j, d, tau, k0101(alpha())) : double(1 - 2 * d) / tau * gram_poly(kind, dim, i, j, d, tau);
}
}  // namespace vh
#endif
