// C18: name, dimension and parameters identify a basis; equality; reconstruction of splines.
#include "common.hpp"
static void same_basis(H& h, const basis::Basis& a, const basis::Basis& b, double s, double tau, const std::string& w) {
  long n = a.get_dim(); h.require((long)b.get_dim() == n, w + ": dimension"); h.require(a.get_name() == b.get_name(), w + ": name"); h.eqm(a.get_parameters(), b.get_parameters(), w + ": parameters"); h.require(a == b && b == a && !(a != b), w + ": equal"); if ((long)b.get_dim() != n) return;
  Eigen::VectorXd u(n), v(n); a.eval_on_window(s, tau, u); b.eval_on_window(s, tau, v); h.eqm(v, u, w + ": values", 100);
  for (long d = 0; d <= 3; d++) { a.eval_derivative_on_window(s, tau, d, u); b.eval_derivative_on_window(s, tau, d, v); h.eqm(v, u, w + ": derivatives", 10000); a.eval_derivative_wrt_tau_on_window(s, tau, d, u); b.eval_derivative_wrt_tau_on_window(s, tau, d, v); h.eqm(v, u, w + ": derivatives by the length", 10000); h.eqm(b.get_derivative_matrix_block(d), a.get_derivative_matrix_block(d), w + ": derivative matrix", 10000); }
  auto x = a.clone(), y = b.clone(); for (long d = 0; d <= 2; d++) { Eigen::MatrixXd p = Eigen::MatrixXd::Zero(n, n), q = Eigen::MatrixXd::Zero(n, n); x->add_derivative_matrix(tau, d, p); y->add_derivative_matrix(tau, d, q); h.eqm(q, p, w + ": inner products", 100000); }
}
static std::unique_ptr<basis::Basis> direct(H& h, long B, long dim, Eigen::VectorXd* pts = nullptr) {
  if (B == 3) return std::make_unique<basis::Basis0101>(h.symbolic() ? num(16, 17) : h.range("al", num(1, 8), num(7, 8)));
  if (B == 4) return std::make_unique<basis::BasisLagrangeGaussLobatto>(dim);
  (void)pts; return vh::make_basis(B, dim);
}
HARNESS(C18, factory, ({"B=0,dim=1", "B=0,dim=5", "B=1,dim=3", "B=2,dim=4", "B=3", "B=4,dim=4"}), ({"B=0,dim=8", "B=2,dim=6"}), ({"B=4,dim=9", "B=0,dim=14"})) {
  long B = h.n("B"), dim = vh::bdim(h); auto a = direct(h, B, dim); double s = num(3, 7), tau = h.pos("tau"); Eigen::VectorXd p = a->get_parameters(); std::vector<double> pv; for (long i = 0; i < p.size(); i++) pv.push_back(p(i)); h.require((long)a->get_dim() == dim, "dimension");
  auto b = basis::get_basis(a->get_name(), dim, p), c = basis::get_basis(a->get_name(), dim, pv); same_basis(h, *a, *b, s, tau, "rebuilt from its name and parameters"); same_basis(h, *a, *c, s, tau, "rebuilt from a list of parameters");
  auto u = a->clone(); same_basis(h, *a, *u, s, tau, "clone"); auto v = b->move_clone(); same_basis(h, *a, *v, s, tau, "moved clone");
  // another basis handed out before or after is independent
  auto d = basis::get_basis(a->get_name(), dim, p); auto e = d->move_clone(); auto f = basis::get_basis(a->get_name(), dim, p); same_basis(h, *a, *f, s, tau, "after another one was consumed");
  const char* want[] = {"legendre", "lagrange", "lagrange", "basis0101", "lagrange"}; h.require(a->get_name() == want[B], "name of the basis");
  if (B == 0) h.require(p.size() == 0, "no parameters"); if (B == 1 || B == 2) h.eqm(p, vh::points(dim, B - 1), "parameters are the nodes"); if (B == 4) h.eqm(p, collocation::legendre_gauss_lobatto_points(dim), "parameters are the nodes"); if (B == 3) h.require(p.size() == 1, "one parameter");
}
HARNESS(C18, factory_rejects, ({""}), ({}), ({})) {
  std::vector<double> none, one(1, num(1, 2)), two(2, num(1, 2));
  for (const char* n : {"", "Legendre", "legendre ", "lagrang", "basis0102", "basis"}) h.throws(std::string("unknown basis ") + n, [&] { auto b = basis::get_basis(n, 3, one); (void)b; });
  h.throws("basis0101 without its parameter", [&] { auto b = basis::get_basis("basis0101", 6, none); (void)b; }); h.throws("basis0101 with two parameters", [&] { auto b = basis::get_basis("basis0101", 6, two); (void)b; });
  h.nothrow("legendre", [&] { auto b = basis::get_basis("legendre", 3, none); (void)b; });
}
HARNESS(C18, equality, ({""}), ({}), ({})) {
  std::vector<std::unique_ptr<basis::Basis>> v; for (long n = 2; n <= 6; n++) { v.push_back(vh::make_basis(0, n)); v.push_back(vh::make_basis(1, n)); v.push_back(vh::make_basis(2, n)); }
  v.push_back(std::make_unique<basis::Basis0101>(num(1, 2))); v.push_back(std::make_unique<basis::Basis0101>(num(1, 3)));
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) { h.require((*v[i] == *v[j]) == (i == j), "different bases are different"); h.require((*v[i] != *v[j]) == (i != j), "operator !="); }
  // one node, anywhere in the list, moved by more than the tolerance
  double d = h.range("d", num(1, 10000), num(1, 100)); for (long n = 2; n <= 4; n++) for (long i = 0; i < n; i++) { Eigen::VectorXd x = vh::points(n, 1), y = x; y(i) = y(i) + d; basis::BasisLagrange a(x), b(y), c(x); h.require(a != b && b != a, "a moved node"); h.require(a == c, "same nodes"); }
}
HARNESS(C18, spline_rebuilt_from_its_parts, ({"N=1,D=1,B=0,dim=3", "N=2,D=2,B=0,dim=3", "N=2,D=1,B=2,dim=3", "N=3,D=2,B=1,dim=3"}), ({"N=3,D=3,B=0,dim=6"}), ({"N=2,D=2,B=3", "N=7,D=3,B=0,dim=6", "N=2,D=2,B=4,dim=5"})) {
  long N = h.n("N"), D = h.n("D"), B = h.n("B"), dim = vh::bdim(h); double t0 = h.real("t0"); Eigen::VectorXd tau = h.posvec("tau", N), c = h.vec("c", N * D * dim); auto b = direct(h, B, dim); GSpline g({t0, t0 + vh::total(tau)}, D, N, *b, c, tau);
  const basis::Basis& gb = g.get_basis(); GSpline r(g.get_domain(), g.get_codom_dim(), g.get_number_of_intervals(), *basis::get_basis(gb.get_name(), gb.get_dim(), gb.get_parameters()), g.get_coefficients(), g.get_interval_lengths(), "gspline");
  h.eqm(r.get_coefficients(), c, "coefficients"); h.eqm(r.get_interval_lengths(), tau, "lengths"); h.eq(r.get_domain().first, t0, "domain"); h.eq(r.get_domain().second, t0 + vh::total(tau), "domain"); h.require(g.get_basis_name() == b->get_name() && (long)g.get_basis_dim() == dim, "basis of the spline"); if (!h.symbolic()) h.require(g == r && r == g && !(g != r), "equal");
  long k = N - 1; for (long q = 0; q <= 2; q++) { double t = vh::left_of(k, t0, tau) + num(2, 7) * tau(k); h.eqm(r.derivate(q)(vh::one(t)), g.derivate(q)(vh::one(t)), "values and derivatives", 10000); }
}
