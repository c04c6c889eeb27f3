// C03: the Legendre basis: values, time derivatives of any order, derivatives
// with respect to the interval length, derivative matrices.
#include "common.hpp"
// evaluates through a strided, pre-filled buffer
template <class F> static Eigen::VectorXd strided(H& h, long dim, F f) {
  Eigen::MatrixXd m(3, dim); for (long i = 0; i < 3; i++) for (long j = 0; j < dim; j++) m(i, j) = h.real("g" + std::to_string(i) + "_" + std::to_string(j));
  Eigen::MatrixXd m0 = m; f(m.row(1));
  h.eqm(m.row(0), m0.row(0), "memory outside the buffer is left alone"); h.eqm(m.row(2), m0.row(2), "memory outside the buffer is left alone");
  return m.row(1).transpose();
}
HARNESS(C03, values_and_derivatives, ({"dim=1", "dim=2", "dim=3", "dim=5", "dim=6"}), ({"dim=4", "dim=8", "dim=11"}), ({"dim=9", "dim=12"})) {
  long dim = h.n("dim"); basis::BasisLegendre b(dim);
  double s = h.range("s", double(-1), double(1)), tau = h.pos("tau");
  std::unique_ptr<basis::Basis> c = b.clone();
  for (const basis::Basis* p : {(const basis::Basis*)&b, (const basis::Basis*)c.get()}) {
    Eigen::VectorXd v = strided(h, dim, [&](auto r) { p->eval_on_window(s, tau, r); });
    for (long j = 0; j < dim; j++) h.eq(v(j), vh::phi(0, dim, j, 0, s, tau), "value of P" + std::to_string(j));
    for (long d = dim + 2; d >= 0; d--) {
      Eigen::VectorXd e = strided(h, dim, [&](auto r) { p->eval_derivative_on_window(s, tau, d, r); });
      Eigen::VectorXd g = strided(h, dim, [&](auto r) { p->eval_derivative_wrt_tau_on_window(s, tau, d, r); });
      for (long j = 0; j < dim; j++) {
        double w = vh::phi(0, dim, j, d, s, tau), wt = vh::phi_tau(0, dim, j, d, s, tau);
        h.eq(e(j), w, "derivative " + std::to_string(d) + " of P" + std::to_string(j));
        h.eq(g(j), wt, "derivative wrt tau of derivative " + std::to_string(d) + " of P" + std::to_string(j));
      }
    }
  }
}
// row vector of derivatives = row vector of values times the derivative block
HARNESS(C03, derivative_blocks, ({"dim=1,hi=2", "dim=3,hi=4", "dim=5,hi=5"}), ({"dim=8,hi=9"}), ({"dim=10,hi=6"})) {
  long dim = h.n("dim"), hi = h.n("hi"); basis::BasisLegendre b(dim), b2(dim);
  double s = h.range("s", double(-1), double(1));
  Eigen::VectorXd v(dim); b.eval_on_window(s, double(2), v);
  for (long q = 0; q < 2; q++) for (long d0 = 0; d0 <= hi; d0++) {
    long d = q ? d0 : hi - d0;  // any order of requests
    Eigen::MatrixXd m = (q ? b : b2).get_derivative_matrix_block(d), i = b.derivative_matrix_impl(d);
    h.require(m.rows() == dim && m.cols() == dim, "size of the block");
    for (long j = 0; j < dim; j++) {
      double r = double(0), ri = double(0); for (long k = 0; k < dim; k++) { r = r + v(k) * m(k, j); ri = ri + v(k) * i(k, j); }
      double w = vh::phi(0, dim, j, d, s, double(2));
      h.eq(r, w, "block of order " + std::to_string(d)); h.eq(ri, w, "derivative_matrix_impl of order " + std::to_string(d));
    }
  }
  Eigen::MatrixXd D = basis::BasisLegendre::derivative_matrix(dim);
  for (long j = 0; j < dim; j++) { double r = double(0); for (long k = 0; k < dim; k++) r = r + D(j, k) * v(k); h.eq(r, vh::phi(0, dim, j, 1, s, double(2)), "derivative_matrix"); }
}
