// Correctly rounded Legendre-Gauss-Lobatto nodes and weights (long double Newton).
#include <cmath>
extern "C" void verif_lgl(unsigned long n, double* x, double* w) {
  const long N = (long)n - 1;
  for (long j = 0; j <= N; j++) {
    long double t = -cosl(M_PIl * j / N), L = 1;
    for (int it = 0; it < 200; it++) {
      long double p0 = 1, p1 = t;
      for (long k = 1; k < N; k++) { long double p2 = ((2 * k + 1) * t * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; }
      L = N == 0 ? 1 : p1;
      if (j == 0 || j == N) break;
      // q = (1-t^2) L_N'(t) = N (L_{N-1} - t L_N);  q' = -N(N+1) L_N
      long double d = (p0 - t * p1) * N / (N * (N + 1) * p1);
      t += d; if (fabsl(d) < 1e-19L) { if (it > 3) break; }
    }
    if (j == 0) t = -1; if (j == N) t = 1; if (2 * j == N) t = 0;
    long double p0 = 1, p1 = t;
    for (long k = 1; k < N; k++) { long double p2 = ((2 * k + 1) * t * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; }
    L = p1; x[j] = (double)t; w[j] = (double)(2.0L / (N * (N + 1) * L * L));
  }
}
