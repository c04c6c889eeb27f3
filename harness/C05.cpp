// C05: basis0101 (the fundamental solutions of the minimum time-and-jerk problem)
#include "expo.hpp"
static double any_alpha(H& h) { double a = h.n("a", 0) ? h.range("alpha", num(1, 8), num(15, 16)) : vh::alpha(); return a; }
HARNESS(C05, values_and_derivatives, ({"a=0", "a=1"}), ({"a=1,hi=9"}), ({"a=1,hi=7"})) {
  double al = any_alpha(h), s = h.range("s", double(-1), double(1)), tau = h.pos("tau");
  basis::Basis0101 b(al); auto c = b.clone(); long hi = h.n("hi", 5);
  h.eq(b.get_alpha(), al, "alpha"); h.require(b.get_dim() == 6, "dimension");
  for (const basis::Basis* p : {(const basis::Basis*)&b, (const basis::Basis*)c.get()}) {
    Eigen::MatrixXd m(2, 6); m.setConstant(double(5)); p->eval_on_window(s, tau, m.row(0));
    for (long j = 0; j < 6; j++) { h.eq(m(0, j), vh::phi(3, 6, j, 0, s, tau, al), "value of function " + std::to_string(j)); h.eq(m(1, j), double(5), "memory outside the buffer is left alone"); }
    for (long d = hi; d >= 0; d--) {
      Eigen::VectorXd e(6), g(6); p->eval_derivative_on_window(s, tau, d, e); p->eval_derivative_wrt_tau_on_window(s, tau, d, g);
      double k = vh::k0101(al);
      for (long j = 0; j < 6; j++) { h.eq(e(j), vh::phi(3, 6, j, d, s, tau, al), "derivative " + std::to_string(d) + " of function " + std::to_string(j));
        h.eq(g(j), vh::ipow(double(2) * k, d) * k * s * vh::phi0101(j, d + 1, k * tau * s), "derivative wrt tau of derivative " + std::to_string(d)); }
    }
  }
}
HARNESS(C05, derivative_blocks, ({"a=0", "a=1"}), ({"a=1,hi=8"}), ({"a=1,hi=6"})) {
  double al = any_alpha(h), s = h.range("s", double(-1), double(1)), tau = h.pos("tau");
  basis::Basis0101 b(al); Eigen::VectorXd v(6); b.eval_on_window(s, tau, v);
  for (long d = h.n("hi", 4); d >= 0; d--) {
    Eigen::MatrixXd m = b.get_derivative_matrix_block(d), i = b.derivative_matrix_impl(d);
    for (long j = 0; j < 6; j++) { double r = double(0), q = double(0); for (long k = 0; k < 6; k++) { r = r + v(k) * m(k, j); q = q + v(k) * i(k, j); }
      h.eq(r, vh::phi(3, 6, j, d, s, tau, al), "block of order " + std::to_string(d)); h.eq(q, vh::phi(3, 6, j, d, s, tau, al), "derivative_matrix_impl of order " + std::to_string(d)); }
  }
}
HARNESS(C05, gram_matrices, ({"a=0,d=0", "a=0,d=1", "a=0,d=2", "a=0,d=3", "a=1,d=1", "a=1,d=3"}), ({"a=1,d=0", "a=1,d=2"}), ({"a=1,d=0", "a=1,d=2"})) {
  double al = any_alpha(h), tau = h.pos("tau"), k = vh::k0101(al); long d = h.n("d");
  basis::Basis0101 b(al); Eigen::MatrixXd m = h.mat("m", 6, 6), m0 = m;
  Eigen::MatrixXd other(6, 6); other.setZero(); b.add_derivative_matrix(tau * double(2), (d + 1) % 4, other);  // history
  b.add_derivative_matrix(tau, d, m);
  for (long i = 0; i < 6; i++) for (long j = 0; j < 6; j++) h.eq(m(i, j), m0(i, j) + vh::gram0101(i, j, d, tau, k), "integral of products of derivatives " + std::to_string(d) + " (" + std::to_string(i) + "," + std::to_string(j) + ")", 10);
  if (d == 1 || d == 3) {
    Eigen::MatrixXd q = m0; b.add_derivative_matrix_deriv_wrt_tau(tau, d, q);
    for (long i = 0; i < 6; i++) for (long j = 0; j < 6; j++) h.eq(q(i, j), m0(i, j) + vh::gram0101_tau(i, j, d, tau, k), "its derivative wrt tau (" + std::to_string(i) + "," + std::to_string(j) + ")", 10);
  } else { Eigen::MatrixXd q = m0; h.throws("derivative wrt tau of order " + std::to_string(d) + " is not available", [&] { b.add_derivative_matrix_deriv_wrt_tau(tau, d, q); }); h.eqm(q, m0, "rejected request leaves the matrix alone"); }
}
