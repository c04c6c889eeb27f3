// C17: continuity and derivative matrices, whatever was asked from the basis before.
#include "common.hpp"
// d-th derivative at the right (side 1) or left (side -1) end of interval k
static double end_value(long B, long dim, long D, const Eigen::VectorXd& tau, const Eigen::VectorXd& y, long k, long c, long d, long side) { double r = double(0); for (long j = 0; j < dim; j++) r = r + y(k * D * dim + c * dim + j) * vh::phi(B, dim, j, d, double(side), tau(k)); return r; }
static void continuity(H& h, const Eigen::SparseMatrix<double, Eigen::RowMajor>& M, long B, long dim, long N, long D, long q, const Eigen::VectorXd& tau, const Eigen::VectorXd& y, const std::string& w) {
  h.require(M.rows() == (N - 1) * D * (q + 1) && M.cols() == N * D * dim, w + ": size"); if (M.rows() != (N - 1) * D * (q + 1) || M.cols() != N * D * dim) return;
  Eigen::MatrixXd m = Eigen::MatrixXd(M); Eigen::VectorXd j = m * y;
  for (long d = 0; d <= q; d++) for (long i = 0; i + 1 < N; i++) for (long c = 0; c < D; c++) h.eq(j(D * (N - 1) * d + i * D + c), end_value(B, dim, D, tau, y, i, c, d, 1) - end_value(B, dim, D, tau, y, i + 1, c, d, -1), w + ": jump of derivative " + std::to_string(d), 100000);
}
static void derivative(H& h, const Eigen::SparseMatrix<double, Eigen::RowMajor>& M, const basis::Basis& b, long N, long D, long q, const Eigen::VectorXd& tau, const Eigen::VectorXd& y, const std::string& w) {
  long n = N * D * b.get_dim(); h.require(M.rows() == n && M.cols() == n, w + ": size"); if (M.rows() != n || M.cols() != n) return;
  GSpline g({double(0), vh::total(tau)}, D, N, b, y, tau); Eigen::MatrixXd m = Eigen::MatrixXd(M); h.eqm((m * y).eval(), g.derivate(q).get_coefficients(), w + ": coefficients of derivative " + std::to_string(q), 100000);
}
#define SH(...) ({__VA_ARGS__})
HARNESS(C17, matrices_after_any_history, SH("B=0,dim=3,N=2,D=1,q=1", "B=0,dim=4,N=3,D=2,q=2", "B=1,dim=3,N=2,D=2,q=1", "B=2,dim=3,N=3,D=1,q=2"), SH("B=0,dim=6,N=4,D=2,q=3", "B=2,dim=4,N=3,D=2,q=2"), SH("B=3,N=2,D=1,q=1", "B=3,N=3,D=2,q=3", "B=0,dim=6,N=6,D=3,q=4", "B=1,dim=5,N=4,D=2,q=3")) {
  long B = h.n("B"), dim = vh::bdim(h), N = h.n("N"), D = h.n("D"), q = h.n("q"); Eigen::VectorXd t1 = h.posvec("tau", N), t2 = h.posvec("sig", N), y = h.vec("y", N * D * dim), t3 = h.posvec("rho", N + 1), y3 = h.vec("z", (N + 1) * D * dim), y4 = h.vec("x", N * (D + 1) * dim);
  auto b = vh::make_basis(B, dim);
  continuity(h, b->continuity_matrix(N, D, q, t1), B, dim, N, D, q, t1, y, "first request"); continuity(h, b->continuity_matrix(N, D, q, t1), B, dim, N, D, q, t1, y, "same request again"); continuity(h, b->continuity_matrix(N, D, q, t2), B, dim, N, D, q, t2, y, "other lengths"); continuity(h, b->continuity_matrix(N, D, q, t1), B, dim, N, D, q, t1, y, "first lengths again");
  if (q > 0) continuity(h, b->continuity_matrix(N, D, q - 1, t2), B, dim, N, D, q - 1, t2, y, "lower order"); continuity(h, b->continuity_matrix(N + 1, D, q, t3), B, dim, N + 1, D, q, t3, y3, "other number of intervals"); continuity(h, b->continuity_matrix(N, D + 1, q, t2), B, dim, N, D + 1, q, t2, y4, "other codomain"); continuity(h, b->continuity_matrix(N, D, q, t2), B, dim, N, D, q, t2, y, "after the other sizes");
  derivative(h, b->gspline_derivative_matrix(N, D, q, t1), *b, N, D, q, t1, y, "derivative matrix"); derivative(h, b->gspline_derivative_matrix(N, D, q, t2), *b, N, D, q, t2, y, "derivative matrix, other lengths"); derivative(h, b->gspline_derivative_matrix(N, D, q, t1), *b, N, D, q, t1, y, "derivative matrix, first lengths again");
  for (long d = 0; d <= q + 1; d++) derivative(h, b->gspline_derivative_matrix(N, D, d, t2), *b, N, D, d, t2, y, "derivative matrix of each order"); derivative(h, b->gspline_derivative_matrix(N + 1, D, q, t3), *b, N + 1, D, q, t3, y3, "derivative matrix, other number of intervals"); derivative(h, b->gspline_derivative_matrix(N, D + 1, q, t1), *b, N, D + 1, q, t1, y4, "derivative matrix, other codomain");
  // a copy made now, and a fresh basis, agree
  auto c = b->clone(); continuity(h, c->continuity_matrix(N, D, q, t2), B, dim, N, D, q, t2, y, "copy of a used basis"); derivative(h, c->gspline_derivative_matrix(N, D, q, t2), *c, N, D, q, t2, y, "copy of a used basis"); continuity(h, b->continuity_matrix(N, D, q, t1), B, dim, N, D, q, t1, y, "after the copy");
}
HARNESS(C17, one_interval, SH("B=0,dim=3", "B=2,dim=3"), SH(), SH("B=3")) {
  long B = h.n("B"), dim = vh::bdim(h); Eigen::VectorXd t = h.posvec("tau", 1), y = h.vec("y", 2 * dim); auto b = vh::make_basis(B, dim); continuity(h, b->continuity_matrix(1, 2, 1, t), B, dim, 1, 2, 1, t, y, "one interval"); derivative(h, b->gspline_derivative_matrix(1, 2, 1, t), *b, 1, 2, 1, t, y, "one interval");
}
// the derivative matrix blocks do not depend on the order of the requests
HARNESS(C17, derivative_blocks, SH("B=0,dim=4", "B=1,dim=3", "B=2,dim=3"), SH("B=0,dim=6"), SH("B=3", "B=0,dim=9")) {
  long B = h.n("B"), dim = vh::bdim(h); auto b = vh::make_basis(B, dim), u = vh::make_basis(B, dim); Eigen::MatrixXd d3 = b->get_derivative_matrix_block(3), d1 = b->get_derivative_matrix_block(1), d2 = b->get_derivative_matrix_block(2), d0 = b->get_derivative_matrix_block(0);
  h.eqm(u->get_derivative_matrix_block(1), d1, "order of requests"); h.eqm(u->get_derivative_matrix_block(2), d2, "order of requests"); h.eqm(u->get_derivative_matrix_block(3), d3, "order of requests"); h.eqm(u->get_derivative_matrix_block(0), d0, "order of requests"); h.eqm(d0, Eigen::MatrixXd::Identity(dim, dim).eval(), "order zero"); h.eqm((d1 * d1).eval(), d2, "second derivative", 10000); h.eqm((d1 * d2).eval(), d3, "third derivative", 100000); h.eqm(b->get_derivative_matrix_block(3), d3, "repeated request");
  // coefficients of the derivative of the spline
  Eigen::VectorXd y = h.vec("y", dim), t = h.posvec("tau", 1); GSpline g({double(0), t(0)}, 1, 1, *b, y, t); double k = B == 3 ? double(1) : double(2) / t(0); h.eqm(g.derivate(1).get_coefficients(), (k * (d1 * y)).eval(), "used by the derivative of a spline", 1000);
}
