// C14: linear time scaling.
#include "common.hpp"
template <class S> static void scaled(H& h, const S& g, const S& r, double T, double t, long hi, const std::string& w) {
  double t0 = g.get_domain().first, L = g.get_domain().second - t0, f = T / L, u = t0 + (t - t0) * f;
  h.eq(r.get_domain().first, t0, w + ": starts at the same instant"); h.eq(r.get_domain().second, t0 + T, w + ": new execution time");
  h.require(r.get_codom_dim() == g.get_codom_dim() && r.get_number_of_intervals() == g.get_number_of_intervals() && r.get_basis_dim() == g.get_basis_dim(), w + ": sizes");
  for (long i = 0; i < g.get_interval_lengths().size(); i++) h.eq(r.get_interval_lengths()(i), f * g.get_interval_lengths()(i), w + ": lengths");
  for (long d = 0; d <= hi; d++) { Eigen::MatrixXd a = g.derivate(d)(vh::one(t)), b = r.derivate(d)(vh::one(u)); for (long i = 0; i < a.cols(); i++) h.eq(b(0, i) * vh::ipow(f, d), a(0, i), w + ": derivative " + std::to_string(d), 100000); }
}
HARNESS(C14, execution_time, ({"N=1,D=1,B=0,dim=4", "N=3,D=2,B=0,dim=4", "N=2,D=1,B=1,dim=3", "N=2,D=2,B=2,dim=3"}), ({"N=4,D=2,B=0,dim=6", "N=3,D=3,B=2,dim=4"}), ({"N=2,D=2,B=3", "N=5,D=1,B=3", "N=12,D=3,B=0,dim=6"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h); double t0 = h.real("t0"), T = h.pos("T"); h.assume(T >= num(1, 1000)); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim); h.assume(vh::total(tau) >= num(1, 1000)); auto b = vh::make_basis(B, dim);
  GSpline g({t0, t0 + vh::total(tau)}, D, N, *b, c, tau); GSpline r = g.linear_scaling_new_execution_time(T);
  long k = N / 2; double s = num(2, 7), t = vh::left_of(k, t0, tau) + s * tau(k);
  scaled(h, g, r, T, t, 3, "scaled spline"); h.eqm(g.get_coefficients(), c, "the spline itself is unchanged"); h.eqm(g.get_interval_lengths(), tau, "the spline itself is unchanged");
  h.eqm(r.get_waypoints(), g.get_waypoints(), "way-points", 1000);
  if (B != 3) h.require(r.get_basis() == g.get_basis(), "basis");
  GSpline back = r.linear_scaling_new_execution_time(vh::total(tau)); h.eqm(back(vh::one(t)), g(vh::one(t)), "scaling back", 1000);
}
HARNESS(C14, execution_time_of_collocation_splines, ({"N=2,D=2,n=3"}), ({"N=3,D=1,n=4"}), ({"N=4,D=2,n=5"})) {
  long N = h.n("N"), D = h.n("D"), n = h.n("n"); double t0 = h.real("t0"), T = h.pos("T"); h.assume(T >= num(1, 1000)); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * n);
  collocation::GLLSpline g({t0, t0 + vh::total(tau)}, D, N, n, c, tau); collocation::GLLSpline r = g.linear_scaling_new_execution_time(T); double t = vh::left_of(N - 1, t0, tau) + num(2, 7) * tau(N - 1); scaled(h, g, r, T, t, 2, "scaled spline"); h.eqm(r.get_coefficients(), c, "nodal values");
}
HARNESS(C14, execution_time_must_be_positive, ({"B=0,dim=3", "B=3"}), ({}), ({})) {
  long B = h.n("B"), dim = vh::bdim(h); double t0 = h.real("t0"), T = h.range("T", double(-3), double(0)); Eigen::VectorXd tau = h.posvec("tau", 2), c = h.vec("c", 2 * dim); auto b = vh::make_basis(B, dim); GSpline g({t0, t0 + vh::total(tau)}, 1, 2, *b, c, tau);
  h.throws("a new execution time that is not positive", [&] { auto r = g.linear_scaling_new_execution_time(T); (void)r; });
}
// bounds=1 velocity only, 2 acceleration only, 3 both; vec=1: one bound per component
static double absd(double x) { return x < double(0) ? -x : x; }
HARNESS(C14, velocity_and_acceleration_bounds, ({"N=1,D=1,B=0,dim=3,seg=2,bounds=1,vec=0", "N=2,D=1,B=0,dim=2,seg=2,bounds=1,vec=1", "N=1,D=2,B=0,dim=2,seg=1,bounds=1,vec=1"}), ({"N=2,D=1,B=0,dim=3,seg=3,bounds=1,vec=0"}),
        ({"N=1,D=1,B=0,dim=3,seg=2,bounds=2,vec=0", "N=1,D=1,B=0,dim=3,seg=1,bounds=3,vec=0", "N=2,D=1,B=0,dim=4,seg=3,bounds=2,vec=0", "N=3,D=3,B=0,dim=6,seg=97,bounds=1,vec=0", "N=3,D=3,B=0,dim=6,seg=97,bounds=2,vec=0", "N=3,D=3,B=0,dim=6,seg=61,bounds=3,vec=0", "N=3,D=3,B=0,dim=6,seg=61,bounds=3,vec=1", "N=3,D=3,B=0,dim=6,seg=61,bounds=1,vec=1", "N=3,D=2,B=0,dim=6,seg=61,bounds=2,vec=1", "N=2,D=2,B=3,seg=61,bounds=3,vec=1", "N=2,D=2,B=3,seg=61,bounds=1,vec=0"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h), seg = h.n("seg"), bounds = h.n("bounds"); bool per = h.n("vec") == 1;
  double t0 = num(1, 2); Eigen::VectorXd tau(N), c = h.vec("c", N * D * dim); for (long i = 0; i < N; i++) tau(i) = num(3 + i, 4); auto b = vh::make_basis(B, dim);
  GSpline g({t0, t0 + vh::total(tau)}, D, N, *b, c, tau); double L = vh::total(tau), dt = L / (double(seg) + num(1, 3));
  std::vector<double> vb, ab; for (long i = 0; i < D; i++) { vb.push_back(h.pos(per ? "vb" + std::to_string(i) : "vb")); ab.push_back(h.pos(per ? "ab" + std::to_string(i) : "ab")); }
  // largest ratio over the seg+1 equally spaced instants
  GSpline g1 = g.derivate(1), g2 = g.derivate(2); double mv = double(0), ma = double(0);
  for (long i = 0; i <= seg; i++) { double t = i == seg ? t0 + L : t0 + L * double(i) / double(seg); Eigen::MatrixXd v = g1(vh::one(t)), a = g2(vh::one(t)); for (long q = 0; q < D; q++) { double x = absd(v(0, q)) / vb[q], y = absd(a(0, q)) / ab[q]; if (mv < x) mv = x; if (ma < y) ma = y; } }
  h.assume(bounds == 1 ? mv > num(1, 1000) : bounds == 2 ? ma > num(1, 1000) : mv > num(1, 1000) && ma > num(1, 1000));
  double f = bounds == 1 ? mv : bounds == 2 ? std::sqrt(ma) : std::max(mv, std::sqrt(ma));
  std::optional<double> nod; std::optional<std::vector<double>> nov;
  auto run = [&]() -> GSpline {
    if (per) return g.linear_scaling_new_execution_time_max_velocity_max_acceleration(bounds & 1 ? std::optional<std::vector<double>>(vb) : nov, bounds & 2 ? std::optional<std::vector<double>>(ab) : nov, dt);
    return g.linear_scaling_new_execution_time_max_velocity_max_acceleration(bounds & 1 ? std::optional<double>(vb[0]) : nod, bounds & 2 ? std::optional<double>(ab[0]) : nod, dt);
  };
  GSpline r = run(); double T = L * f;
  scaled(h, g, r, T, t0 + num(2, 5) * L, h.symbolic() ? 1 : 3, "scaled to the bounds");
  if (!h.symbolic()) {  // the consequence a user relies on: no sampled instant exceeds a bound, and one reaches it
    GSpline r1 = r.derivate(1), r2 = r.derivate(2); double wv = double(0), wa = double(0);
    for (long i = 0; i <= seg; i++) { double t = t0 + T * double(i) / double(seg); Eigen::MatrixXd v = r1(vh::one(t)), a = r2(vh::one(t)); for (long q = 0; q < D; q++) { wv = std::max(wv, absd(v(0, q)) / vb[q]); wa = std::max(wa, absd(a(0, q)) / ab[q]); } }
    h.require((bounds & 1) == 0 || wv <= 1.0 + 1e-5, "velocity within its bound"); h.require((bounds & 2) == 0 || wa <= 1.0 + 1e-5, "acceleration within its bound");
    h.require(((bounds & 1) && wv >= 1.0 - 1e-5) || ((bounds & 2) && wa >= 1.0 - 1e-5), "a bound is reached");
  }
}
HARNESS(C14, bounds_are_checked, ({""}), ({}), ({})) {
  Eigen::VectorXd tau = h.posvec("tau", 2), c = h.vec("c", 2 * 2 * 3); GSpline g({double(0), vh::total(tau)}, 2, 2, basis::BasisLegendre(3), c, tau); std::optional<double> nod; std::optional<std::vector<double>> nov; double k = h.pos("k"); std::vector<double> one(1, k), three(3, k);
  auto go = [&](auto v, auto a, double dt) { return [&g, v, a, dt] { auto r = g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a, dt); (void)r; }; };
  h.throws("no bound at all", go(nod, nod, double(1))); h.throws("no bound at all", go(nov, nov, double(1)));
  h.throws("too few velocity bounds", go(std::optional<std::vector<double>>(one), nov, double(1))); h.throws("too many acceleration bounds", go(nov, std::optional<std::vector<double>>(three), double(1))); h.throws("a sampling period that is not positive", go(std::optional<double>(k), nod, h.range("dt", double(-1), double(0))));
}
HARNESS(C14, random_splines_have_the_requested_domain, ({""}), ({}), ({})) {
  if (h.symbolic()) return;
  double a = h.real("a"), L = h.pos("L"); GSpline g = random_gspline({a, a + L}, 2), q = random_gspline({a, a + L}, 3, basis::BasisLegendre(4));
  for (const GSpline* p : {&g, &q}) { h.eq(p->get_domain().first, a, "left end"); h.eq(p->get_domain().second, a + L, "right end"); h.eq(vh::total(p->get_interval_lengths()), L, "lengths"); }
  h.require(g.get_codom_dim() == 2 && q.get_codom_dim() == 3, "codomain");
}
