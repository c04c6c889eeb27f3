// Assumed contract of the iterative node computation in the real-arithmetic
// build: it returns the Legendre-Gauss-Lobatto nodes and weights, taken as
// constants.  The real routine is checked in the plain build (property C15).
extern "C" void verif_lgl(unsigned long n, sym::bdouble* x, sym::bdouble* w);
namespace gsplines { namespace collocation {
std::pair<Eigen::VectorXd, Eigen::VectorXd> legendre_gauss_lobatto_points_and_weights(std::size_t n);
std::pair<Eigen::VectorXd, Eigen::VectorXd> legendre_gauss_lobatto_points_and_weights(std::size_t n) {
  if (n < 2) throw sym::Violation("Gauss-Lobatto rule with fewer than two points");
  std::vector<sym::bdouble> x(n), w(n);
  verif_lgl(n, x.data(), w.data());
  Eigen::VectorXd p(n), q(n);
  for (std::size_t i = 0; i < n; i++) { p(i) = sym::Real(x[i]); q(i) = sym::Real(w[i]); }
  return {p, q};
}
} }
