// U05: tolerant comparisons, combinatorics and dense / banded linear algebra
#include "gen.h"
#include <limits>
const char* pbt::RULE = "pairs of numbers that are far apart, within the tolerance, equal, infinite or NaN; matrices up to 9x9 with random entries made well conditioned by a dominant diagonal, singular integer matrices, bandwidths 1 to 7; a case is non-trivial when the operands are not zero";
typedef std::vector<std::vector<double>> MX;
static MX rnd(Gen& g, int r, int c, double mag = 3) { MX m(r, std::vector<double>(c)); bool in = g.chance(1, 3); for (auto& x : m) for (double& v : x) v = in ? g.integer(-3, 3) : g.coord(mag); return m; }
static ld det(std::vector<std::vector<ld>> a) { int n = (int)a.size(); ld d = 1; for (int i = 0; i < n; i++) { int p = i; for (int r = i; r < n; r++) if (fabsl(a[r][i]) > fabsl(a[p][i])) p = r; if (a[p][i] == 0) return 0; if (p != i) { std::swap(a[p], a[i]); d = -d; } d *= a[i][i]; for (int r = i + 1; r < n; r++) { ld f = a[r][i] / a[i][i]; for (int c = i; c < n; c++) a[r][c] -= f * a[i][c]; } } return d; }
static std::vector<std::vector<ld>> L(const MX& m) { std::vector<std::vector<ld>> r; for (auto& x : m) r.emplace_back(x.begin(), x.end()); return r; }
static void square(Gen& g, MX& m) { int n = (int)m.size(); for (int i = 0; i < n; i++) { double s = 0.5; for (int j = 0; j < n; j++) if (j != i) s += std::fabs(m[i][j]); m[i][i] = g.boolean() ? s : -s; } if (g.boolean()) { int a = g.integer(0, n - 1), b = g.integer(0, n - 1); std::swap(m[a], m[b]); g.tagIf(a != b, "permuted"); } }
LAW(comparisons, 40000, 2000000) {
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN(); static const double TOL[] = {1e-6, 1e-3, 1e-9, 1e-2, 0}; double tol = TOL[g.weighted({4, 2, 2, 2, 1})], a = g.coord(g.boolean() ? 10 : 1e6), b = 0; int kind = g.weighted({4, 4, 1, 2, 1}); ld band = (ld)tol * (1 + fabsl((ld)a));
    switch (kind) { case 0: b = g.coord(g.boolean() ? 10 : 1e6); break; case 1: b = a + (double)band * g.real(0.5, 1.5) * (g.boolean() ? 1 : -1); break; case 2: b = a; break; case 3: { int s = g.integer(0, 3); a = s & 1 ? inf : s & 2 ? -inf : a; b = s == 0 ? inf : s == 1 ? -inf : s == 2 ? g.coord(10) : inf; g.tag("infinite"); break; } default: (g.boolean() ? a : b) = nan; g.tag("nan"); }
    g.nontrivial(kind != 2); g.note([&](std::ostream& o) { o.precision(17); o << a << " " << b << " tol " << tol; }); bool eq = MathUtils::IsAlmostEqualTo(a, b, tol), gt = MathUtils::IsGreaterThan(a, b, tol), ge = MathUtils::IsGreaterThanOrEqual(a, b, tol), lt = MathUtils::IsLessThan(a, b, tol), le = MathUtils::IsLessThanOrEqual(a, b, tol);
    REQUIRE(MathUtils::IsNaN(a) == (a != a), "IsNaN"); REQUIRE(MathUtils::IsInfinite(a) == (a == inf || a == -inf), "IsInfinite");
    if (kind == 4) { REQUIRE(!eq && !gt && !ge && !lt && !le, "NaN compares"); return; }
    if (std::isinf(a) || std::isinf(b)) { REQUIRE(eq == (a == b) && gt == (a > b) && lt == (a < b) && ge == (a >= b) && le == (a <= b), "infinities"); return; }
    ld d = (ld)a - b, e = (ld)tol * (1 + std::max(fabsl((ld)a), fabsl((ld)b))); if (fabsl(fabsl(d) - e) < 1e-9L * e + 1e-14L * (fabsl((ld)a) + fabsl((ld)b)) && d != 0) return; 
    REQUIRE(eq == (fabsl(d) <= e), "IsAlmostEqualTo"); REQUIRE(gt == (d > e), "IsGreaterThan"); REQUIRE(lt == (-d > e), "IsLessThan"); REQUIRE(ge == (d >= -e), "IsGreaterThanOrEqual"); REQUIRE(le == (d <= e), "IsLessThanOrEqual");
}
LAW(combinatorics, 5000, 100000) {
    int n = g.integer(-2, 40), k = g.integer(-2, 42); g.nontrivial(n > 1 && k > 0 && k < n); g.note([&](std::ostream& o) { o << n << " " << k; }); ld want = (n < 0 || k < 0 || k > n) ? 0 : refBinom(n, k); NEAR1(MathUtils::Binomial(n, k), want, 1e-12L * (1 + want), "Binomial"); if (n > 20) { bool t = false; try { MathUtils::Factorial(n); } catch (const std::exception&) { t = true; } REQUIRE(t, "Factorial(" << n << ") overflows"); } else if (n >= 0) { long long f = 1; for (int i = 2; i <= n; i++) f *= i; REQUIRE(MathUtils::Factorial(n) == f, "Factorial"); } else REQUIRE(MathUtils::Factorial(n) == -1, "Factorial of a negative number"); double t = g.coord(720); NEAR1(MathUtils::AngleToRadians(t), (ld)t * 3.14159265358979323846L / 180, 1e-12L, "radians"); NEAR1(MathUtils::RadiansToAngle(MathUtils::AngleToRadians(t)), t, 1e-10L, "angle round trip");
}
LAW(matrix_products, 15000, 500000) {
    int m = g.integer(1, 7), n = g.integer(1, 7), p = g.integer(1, 7); MX a = rnd(g, m, n), b = rnd(g, n, p); g.nontrivial(m * n * p > 1); g.note([&](std::ostream& o) { o << a << b; }); auto r = MathUtils::MatrixMultiply(a, b); REQUIRE((int)r.size() == m, "rows"); for (int i = 0; i < m; i++) { REQUIRE((int)r[i].size() == p, "columns"); for (int j = 0; j < p; j++) { ld s = 0; for (int k = 0; k < n; k++) s += (ld)a[i][k] * b[k][j]; NEAR1(r[i][j], s, 1e-12L * 10, "product " << i << "," << j); } }
    MX t; MathUtils::Transpose(a, t); REQUIRE((int)t.size() == n && (int)t[0].size() == m, "transposed size"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) REQUIRE(t[j][i] == a[i][j], "transpose"); int c = g.integer(0, n - 1); auto col = MathUtils::GetColumn(a, c); REQUIRE((int)col.size() == m, "column size"); for (int i = 0; i < m; i++) REQUIRE(col[i] == a[i][c], "column"); auto d = MathUtils::MakeDiagonal(m), z = MathUtils::CreateMatrix(m, n); for (int i = 0; i < m; i++) { for (int j = 0; j < m; j++) REQUIRE(d[i][j] == (i == j), "diagonal"); REQUIRE((int)z[i].size() == n, "zero matrix"); for (double v : z[i]) REQUIRE(v == 0, "zero matrix"); } REQUIRE((int)z.size() == m && (int)d.size() == m, "sizes");
}
LAW(determinant_and_inverse, 15000, 500000) {
    int n = g.integer(1, 7); MX a = rnd(g, n, n, 2); int kind = g.weighted({4, 1, 1, 2}); if (kind == 0) square(g, a); if (kind == 1) { for (auto& r : a) for (double& v : r) v = std::round(v); int r = g.integer(0, n - 1), s = g.integer(0, n - 1); if (r == s) std::fill(a[r].begin(), a[r].end(), 0.0); else a[r] = a[s]; g.tag("singular"); } g.nontrivial(n > 1); g.note([&](std::ostream& o) { o << a; }); ld D = det(L(a)), scale = 1; for (auto& r : a) { ld s = 0; for (double v : r) s += (ld)v * v; scale *= sqrtl(s) + 1e-3L; } NEAR1(MathUtils::GetDeterminant(a), D, 1e-12L * n * n * scale, "determinant");
    MX inv; if (kind == 2) { a.push_back(std::vector<double>(n, 1.0)); REQUIRE(!MathUtils::MakeInverse(a, inv), "inverse of a rectangle"); g.tag("rectangular"); return; } if (kind == 1) { REQUIRE(!MathUtils::MakeInverse(a, inv), "inverse of a singular matrix"); return; } if (fabsl(D) < 1e-4L * scale) pbt::discard("nearly singular"); REQUIRE(MathUtils::MakeInverse(a, inv), "no inverse"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ld s = 0, t = 0; for (int k = 0; k < n; k++) { s += (ld)a[i][k] * inv[k][j]; t += (ld)inv[i][k] * a[k][j]; } NEAR1(s, i == j, 1e-7L, "A inv(A)"); NEAR1(t, i == j, 1e-7L, "inv(A) A"); }
}
LAW(linear_system, 15000, 500000) {
    int n = g.integer(1, 9), m = g.integer(1, 4); MX a = rnd(g, n, n, 2); square(g, a); int extra = g.chance(1, 3) ? g.integer(1, 4) : 0; for (int i = 0; i < extra; i++) { std::vector<double> r(n); for (double& v : r) v = g.coord(2); a.push_back(r); } g.tagIf(extra, "least-squares"); MX b = rnd(g, n + extra, m, 5); g.nontrivial(n > 1); g.note([&](std::ostream& o) { o << a << b; }); auto x = MathUtils::SolveLinearSystem(a, b); REQUIRE((int)x.size() == n && (int)x[0].size() == m, "size");
    for (int c = 0; c < m; c++) { std::vector<ld> r(n + extra); for (int i = 0; i < n + extra; i++) { ld s = -(ld)b[i][c]; for (int k = 0; k < n; k++) s += (ld)a[i][k] * x[k][c]; r[i] = s; } if (!extra) { for (int i = 0; i < n; i++) NEAR1(r[i], 0, 1e-9L, "residual of row " << i); } else for (int k = 0; k < n; k++) { ld s = 0; for (int i = 0; i < n + extra; i++) s += a[i][k] * r[i]; NEAR1(s, 0, 1e-8L, "residual not orthogonal to column " << k); } }
}
LAW(banded_system, 15000, 500000) {   // matrix[i][k] is the element (i, i - bandwidth/2 + k)
    int n = g.integer(1, 14), h = g.integer(0, 3), bw = 2 * h + 1, m = g.integer(1, 3); MX a(n, std::vector<double>(bw)), b = rnd(g, n, m, 5), x(n, std::vector<double>(m)); bool sing = g.chance(1, 6); for (int i = 0; i < n; i++) { double s = 0.5; for (int k = 0; k < bw; k++) if (k != h) { a[i][k] = g.chance(1, 5) ? 0 : g.coord(2); s += std::fabs(a[i][k]); } a[i][h] = g.boolean() ? s : -s; } if (sing) { int i = g.integer(0, n - 1); std::fill(a[i].begin(), a[i].end(), 0.0); g.tag("singular"); } g.nontrivial(n > 1 && h > 0); g.note([&](std::ostream& o) { o << "bandwidth " << bw << " " << a << b; });
    bool ok = MathUtils::SolveLinearSystemBanded(n, a, bw, b, x); if (sing) { REQUIRE(!ok, "solved a singular system"); return; } REQUIRE(ok, "not solved"); for (int c = 0; c < m; c++) for (int i = 0; i < n; i++) { ld s = -(ld)b[i][c]; for (int k = 0; k < bw; k++) { int j = i - h + k; if (j >= 0 && j < n) s += (ld)a[i][k] * x[j][c]; } NEAR1(s, 0, 1e-9L, "row " << i << " column " << c); }
}
LAW(principal_axes, 15000, 500000) {   // orthonormal axes in which the covariance is diagonal, in ascending order
    int n = g.integer(1, 12); bool flat = g.chance(1, 5); XYZ o = genPoint(g), d1 = genPoint(g, 3), d2 = genPoint(g, 3); std::vector<std::array<double, 3>> p; std::array<double, 3> c = {0, 0, 0}; for (int i = 0; i < n; i++) { XYZ q = flat ? o + d1 * g.coord(2) + d2 * g.coord(2) : genPoint(g); p.push_back({q[0], q[1], q[2]}); for (int k = 0; k < 3; k++) c[k] += q[k] / n; } g.nontrivial(n > 2); g.tagIf(flat, "planar"); g.note([&](std::ostream& s) { for (auto& q : p) s << XYZ(q[0], q[1], q[2]); }); std::array<double, 3> ax[3]; MathUtils::ComputeOBBAxes(p, c, ax);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld s = 0; for (int k = 0; k < 3; k++) s += (ld)ax[i][k] * ax[j][k]; NEAR1(s, i == j, 1e-10L, "axes " << i << "," << j << " not orthonormal"); ld v = 0; for (auto& q : p) { ld x = 0, y = 0; for (int k = 0; k < 3; k++) { x += (ld)ax[i][k] * (q[k] - c[k]); y += (ld)ax[j][k] * (q[k] - c[k]); } v += x * y / n; } if (i != j) NEAR1(v, 0, 1e-9L * 1000, "correlated axes " << i << "," << j); }
}
