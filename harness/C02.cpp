// C02: breakpoints, way-points and the data of a spline are mutually
// consistent, and inconsistent data are rejected.
#include "common.hpp"
HARNESS(C02, breakpoints_waypoints, ({"N=1,D=1,B=0,dim=2", "N=3,D=2,B=0,dim=3", "N=2,D=1,B=1,dim=3", "N=2,D=1,B=3"}),
        ({"N=6,D=3,B=0,dim=4", "N=4,D=2,B=2,dim=3"}), ({"N=33,D=4,B=0,dim=6", "N=12,D=2,B=1,dim=4"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim);
  auto b = vh::make_basis(B, dim); double t1 = t0 + vh::total(tau);
  GSpline g({t0, t1}, D, N, *b, c, tau);
  Eigen::VectorXd bp = g.get_domain_breakpoints();
  h.require(bp.size() == N + 1, "number of breakpoints");
  double acc = t0;
  for (long i = 0; i <= N && i < bp.size(); i++) { h.eq(bp(i), acc, "breakpoint " + std::to_string(i)); if (i < N) acc = acc + tau(i); }
  Eigen::MatrixXd wp = g.get_waypoints(), v = g(bp);
  h.require(wp.rows() == N + 1 && wp.cols() == D, "size of the way-points");
  for (long i = 0; i <= N; i++) for (long d = 0; d < D; d++) {
    // first breakpoint: left end of the first interval; others: right end of the interval before
    long k = i ? i - 1 : 0; double s = i ? double(1) : double(-1), want = double(0);
    for (long j = 0; j < dim; j++) want = want + c(k * D * dim + d * dim + j) * vh::phi(B, dim, j, 0, s, tau(k));
    h.eq(wp(i, d), want, "way-point " + std::to_string(i)); h.eq(wp(i, d), v(i, d), "way-point is the value at the breakpoint");
  }
  h.require(g.get_codom_dim() == (size_t)D && g.get_number_of_intervals() == (size_t)N && g.get_basis_dim() == (size_t)dim, "sizes");
  h.require(g.get_basis() == *b && g.get_basis_name() == b->get_name(), "basis");
  h.eq(g.get_domain().first, t0, "left end"); h.eq(g.get_domain().second, t1, "right end"); h.eq(g.get_domain_length(), t1 - t0, "length");
  h.eqm(g.get_coefficients(), c, "coefficients"); h.eqm(g.get_interval_lengths(), tau, "lengths");
}
HARNESS(C02, inconsistent_data, ({"N=2,D=2,B=0,dim=3", "N=1,D=1,B=3"}), ({"N=3,D=1,B=2,dim=3"}), ({"N=7,D=3,B=0,dim=6"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h);
  auto b = vh::make_basis(B, dim);
  for (long dc = -2; dc <= 2; dc++) for (long dt = -1; dt <= 1; dt++) for (int mv = 0; mv < 2; mv++) {
    long nc = N * D * dim + dc, nt = N + dt; if (nt < 0 || nc < 0) continue;
    Eigen::VectorXd tau = h.posvec("tau", nt), c = h.vec("c", nc);
    std::pair<double, double> dom(double(0), vh::total(tau));
    auto make = [&] { if (mv) { Eigen::VectorXd c2 = c, t2 = tau; GSpline g(dom, D, N, *b, std::move(c2), std::move(t2)); } else GSpline g(dom, D, N, *b, c, tau); };
    std::string l = std::to_string(dc) + " extra coefficients, " + std::to_string(dt) + " extra lengths";
    if (dc == 0 && dt == 0) h.nothrow("consistent data are accepted", make); else h.throws(l, make);
  }
}
