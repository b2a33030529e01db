// U09: the fast transforms equal their defining sums, in both directions
#include "gen.h"
#include "FFT.h"
const char* pbt::RULE = "data of length 2^k, 1 <= k <= 8 (complex data also of length 1): random, sparse, constant or alternating; a case is non-trivial when the data are not all zero";
static std::vector<double> data(Gen& g, int n) {
    std::vector<double> a(n); int mode = g.weighted({4, 2, 1, 1}); double m = std::pow(10.0, g.integer(-3, 3)); for (int i = 0; i < n; i++) a[i] = mode == 0 ? g.coord(m) : mode == 1 ? (g.chance(1, 4) ? g.coord(m) : 0) : mode == 2 ? m : (i % 2 ? -m : m);
    bool nz = false; for (double x : a) nz = nz || x != 0; if (nz) g.nontrivial(); g.note([&](std::ostream& o) { o << a; }); return a;
}
static const ld PI = acosl(-1.0L);
static ld norm1(const std::vector<double>& a) { ld s = 0; for (double x : a) s += fabsl((ld)x); return s; }
static int len(Gen& g, int lo) { return 1 << g.integer(lo, g.chance(1, 4) ? 8 : 5); }
LAW(complex_dft, 6000, 200000) {
    int n = len(g, 0); auto a = data(g, 2 * n), b = a; int sg = g.boolean() ? 1 : -1; cdft(2 * n, cos(M_PI / n), sg * sin(M_PI / n), b); ld tol = 1e-13L * norm1(a) * (n + 4);
    for (int k = 0; k < n; k++) { ld re = 0, im = 0; for (int j = 0; j < n; j++) { ld w = sg * 2 * PI * (((long)j * k) % n) / n; re += a[2 * j] * cosl(w) - a[2 * j + 1] * sinl(w); im += a[2 * j] * sinl(w) + a[2 * j + 1] * cosl(w); } NEAR1(b[2 * k], re, tol, "Re X[" << k << "] of " << n); NEAR1(b[2 * k + 1], im, tol, "Im X[" << k << "] of " << n); }
    cdft(2 * n, cos(M_PI / n), -sg * sin(M_PI / n), b); for (int j = 0; j < 2 * n; j++) NEAR1(b[j] / n, (ld)a[j], tol, "inverse");
}
LAW(real_dft, 6000, 200000) {
    int n = len(g, 1); auto a = data(g, n), b = a; ld tol = 1e-13L * norm1(a) * (n + 4); rdft(n, cos(M_PI / n), sin(M_PI / n), b);
    for (int k = 0; k <= n / 2; k++) { ld R = 0, I = 0; for (int j = 0; j < n; j++) { ld w = 2 * PI * (((long)j * k) % n) / n; R += a[j] * cosl(w); I += a[j] * sinl(w); } NEAR1(k == n / 2 ? b[1] : b[2 * k], R, tol, "R[" << k << "] of " << n); if (k > 0 && k < n / 2) NEAR1(b[2 * k + 1], I, tol, "I[" << k << "] of " << n); }
    rdft(n, cos(M_PI / n), -sin(M_PI / n), b); for (int j = 0; j < n; j++) NEAR1(b[j] * 2 / n, (ld)a[j], tol, "inverse");
}
LAW(cosine_and_sine, 6000, 200000) {
    int n = len(g, 1); auto a = data(g, n); ld tol = 1e-13L * norm1(a) * (n + 4); double c = cos(M_PI / n / 2), s = sin(M_PI / n / 2);
    auto b = a; ddct(n, c, -s, b); for (int k = 0; k < n; k++) { ld C = 0; for (int j = 0; j < n; j++) C += a[j] * cosl(PI * (j + 0.5L) * k / n); NEAR1(b[k], C, tol, "DCT " << k << " of " << n); } b[0] *= 0.5; ddct(n, c, s, b); for (int j = 0; j < n; j++) NEAR1(b[j] * 2 / n, (ld)a[j], tol, "inverse DCT");
    b = a; ddct(n, c, s, b); for (int k = 0; k < n; k++) { ld C = 0; for (int j = 0; j < n; j++) C += a[j] * cosl(PI * j * (k + 0.5L) / n); NEAR1(b[k], C, tol, "IDCT " << k << " of " << n); }
    b = a; ddst(n, c, -s, b); for (int k = 1; k <= n; k++) { ld C = 0; for (int j = 0; j < n; j++) C += a[j] * sinl(PI * (j + 0.5L) * k / n); NEAR1(b[k % n], C, tol, "DST " << k << " of " << n); } b[0] *= 0.5; ddst(n, c, s, b); for (int j = 0; j < n; j++) NEAR1(b[j] * 2 / n, (ld)a[j], tol, "inverse DST");
    b = a; ddst(n, c, s, b); for (int k = 0; k < n; k++) { ld C = 0; for (int j = 1; j <= n; j++) C += a[j % n] * sinl(PI * j * (k + 0.5L) / n); NEAR1(b[k], C, tol, "IDST " << k << " of " << n); }
}
LAW(symmetric, 6000, 200000) {
    int n = len(g, 1); auto a = data(g, n + 1); ld tol = 1e-13L * norm1(a) * (n + 4); double c = cos(M_PI / n), s = sin(M_PI / n);
    auto b = a; dfct(n, c, s, b); for (int k = 0; k <= n; k++) { ld C = 0; for (int j = 0; j <= n; j++) C += a[j] * cosl(PI * (((long)j * k) % (2 * n)) / n); NEAR1(b[k], C, tol, "cosine transform " << k << " of " << n); }
    b = a; a.resize(n); b.resize(n); dfst(n, c, s, b); for (int k = 1; k < n; k++) { ld C = 0; for (int j = 1; j < n; j++) C += a[j] * sinl(PI * (((long)j * k) % (2 * n)) / n); NEAR1(b[k], C, tol, "sine transform " << k << " of " << n); } dfst(n, c, s, b); for (int j = 1; j < n; j++) NEAR1(b[j] * 2 / n, (ld)a[j], tol, "inverse sine transform");
}
