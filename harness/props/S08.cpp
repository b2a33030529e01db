// S08: fitting surfaces to grids of points
#include "gen.h"
const char* pbt::RULE = "random grids of points (scattered, height fields, grids with degenerate edge rows or columns) with different numbers of rows and columns; interpolants are checked at the independently computed average chord parameters, approximations against a dense long-double solution of the normal equations in both directions; every case is non-trivial";
typedef std::vector<std::vector<XYZ>> Grid;
static Grid genGrid(Gen& g, int n, int m, double& mag, bool collapsed) {
    mag = genMag(g); Grid Q(n, std::vector<XYZ>(m)); int mode = g.weighted({2, 4, 1});
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
        if (mode == 0) Q[i][j] = genPoint(g, mag);
        else if (mode == 1) { double dx = 0.5 * g.unit(), dy = 0.5 * g.unit(), z = g.coord(mag); Q[i][j] = XYZ(mag * (i + dx), mag * (j + dy), z); }
        else { double r = mag * (1 + j), a = 0.9 * i; Q[i][j] = XYZ(r * cos(a), r * sin(a), g.coord(mag)); }
    }
    if (collapsed && g.chance(1, 6)) { g.tag("collapsed-edge"); if (g.boolean()) for (int j = 1; j < m; j++) Q[0][j] = Q[0][0]; else for (int i = 1; i < n; i++) Q[i][m - 1] = Q[0][m - 1]; }
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { if (i && !(collapsed && j == m - 1) && Q[i][j].Distance(Q[i - 1][j]) < 2e-2 * mag) pbt::discard("points too close"); if (j && !(collapsed && i == 0) && Q[i][j].Distance(Q[i][j - 1]) < 2e-2 * mag) pbt::discard("points too close"); }
    g.tagIf(n != m, "rows!=columns"); g.nontrivial(); g.note([&](std::ostream& o) { o << n << "x" << m << " points " << Q << " "; });
    return Q;
}
// average chord-length parameters of the rows (index of the outer vector) and columns; lines of zero length do not count
static void params(const Grid& Q, std::vector<double>& u, std::vector<double>& v) {
    int n = (int)Q.size(), m = (int)Q[0].size(); std::vector<ld> a(n, 0), b(m, 0); int c = 0;
    for (int j = 0; j < m; j++) { std::vector<ld> d(n, 0); for (int i = 1; i < n; i++) d[i] = d[i - 1] + (V3(Q[i][j]) - V3(Q[i - 1][j])).len(); if (d[n - 1] > 1e-3) { c++; for (int i = 0; i < n; i++) a[i] += d[i] / d[n - 1]; } }
    for (int i = 0; i < n; i++) u.push_back((double)(a[i] / c)); u.back() = 1; c = 0;
    for (int i = 0; i < n; i++) { std::vector<ld> d(m, 0); for (int j = 1; j < m; j++) d[j] = d[j - 1] + (V3(Q[i][j]) - V3(Q[i][j - 1])).len(); if (d[m - 1] > 1e-3) { c++; for (int j = 0; j < m; j++) b[j] += d[j] / d[m - 1]; } }
    for (int j = 0; j < m; j++) v.push_back((double)(b[j] / c)); v.back() = 1;
}
static std::vector<double> averageKnots(int p, const std::vector<double>& u) { int n = (int)u.size(); std::vector<double> U(p + 1, 0.0); for (int j = 1; j < n - p; j++) { ld s = 0; for (int i = j; i < j + p; i++) s += u[i]; U.push_back((double)(s / p)); } U.insert(U.end(), p + 1, 1.0); return U; }
LAW(global_interpolation, 6000, 250000) {
    int p = genDegree(g, 1, 5), q = genDegree(g, 1, 5), n = p + 1 + g.weighted({2, 3, 2, 1}), m = q + 1 + g.weighted({2, 3, 2, 1}); double mag; auto Q = genGrid(g, n, m, mag, true); g.note([&](std::ostream& o) { o << "degrees " << p << "," << q; });
    LN_NurbsSurface s; NurbsSurface::GlobalInterpolation(Q, p, q, s); validSurface(s, "interpolant"); REQUIRE(s.DegreeU == p && s.DegreeV == q && (int)s.ControlPoints.size() == n && (int)s.ControlPoints[0].size() == m, "shape");
    std::vector<double> u, v; params(Q, u, v); sameKnots(s.KnotVectorU, averageKnots(p, u), "U knots"); sameKnots(s.KnotVectorV, averageKnots(q, v), "V knots");
    LMat A, B, ai, bi; for (double x : u) A.push_back(refRow(p, s.KnotVectorU, x)); for (double x : v) B.push_back(refRow(q, s.KnotVectorV, x)); if (!refInverse(A, ai) || !refInverse(B, bi)) pbt::discard("singular"); ld cond = normInf(ai) * normInf(bi); if (cond > 1e5) pbt::discard("ill-conditioned");
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) NEAR3(refEval(s, u[i], v[j]), V3(Q[i][j]), 1e-9L * mag * 30 * (10 + cond), "point " << i << "," << j);
    std::vector<double> pu, pv; REQUIRE(Interpolation::GetSurfaceMeshParameterization(Q, pu, pv), "parameters refused"); sameKnots(pu, u, "parameters of the rows"); sameKnots(pv, v, "parameters of the columns");
}
LAW(bicubic_local, 6000, 250000) {
    int n = 2 + g.weighted({1, 2, 2, 2, 1, 1}), m = 2 + g.weighted({1, 2, 2, 2, 1, 1}); double mag; auto Q = genGrid(g, n, m, mag, false);
    LN_NurbsSurface s; REQUIRE(NurbsSurface::BicubicLocalInterpolation(Q, s), "refused"); validSurface(s, "local interpolant"); REQUIRE(s.DegreeU == 3 && s.DegreeV == 3, "degrees");
    auto du = distinctOf(s.KnotVectorU, s.KnotVectorU.front(), s.KnotVectorU.back()), dv = distinctOf(s.KnotVectorV, s.KnotVectorV.front(), s.KnotVectorV.back()); REQUIRE((int)du.size() == n && (int)dv.size() == m, "one distinct knot per row and column: " << s.KnotVectorU << s.KnotVectorV); ld sc = mag * 30;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) NEAR3(refEval(s, du[i], dv[j]), V3(Q[i][j]), 1e-9L * sc, "point " << i << "," << j);
    // the first derivatives are continuous: every interior knot has multiplicity at most 2 (cubic)
    for (auto* K : {&s.KnotVectorU, &s.KnotVectorV}) for (size_t i = 4; i + 6 < K->size(); i++) REQUIRE((*K)[i + 2] > (*K)[i], "interior knot of multiplicity above 2: " << *K);
    // knots at the lengths summed over all rows or columns; first derivatives are the estimated tangents; the twist is the mean of the Bessel differences, zero on the border
    std::vector<std::vector<V3>> Tu(n, std::vector<V3>(m)), Tv(n, std::vector<V3>(m)), W(n, std::vector<V3>(m)); for (int i = 0; i < n; i++) { std::vector<XYZ> t = Interpolation::ComputeTangent(Q[i]); for (int j = 0; j < m; j++) Tv[i][j] = V3(t[j]); } for (int j = 0; j < m; j++) { std::vector<XYZ> l; for (int i = 0; i < n; i++) l.push_back(Q[i][j]); auto t = Interpolation::ComputeTangent(l); for (int i = 0; i < n; i++) Tu[i][j] = V3(t[i]); }
    std::vector<ld> lu(n, 0), lv(m, 0); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { if (i) lu[i] += (V3(Q[i][j]) - V3(Q[i - 1][j])).len(); if (j) lv[j] += (V3(Q[i][j]) - V3(Q[i][j - 1])).len(); } for (auto* l : {&lu, &lv}) { for (size_t i = 1; i < l->size(); i++) (*l)[i] += (*l)[i - 1]; for (auto& x : *l) x /= l->back(); } for (int i = 0; i < n; i++) NEAR1(du[i], lu[i], 1e-9L, "u knot " << i); for (int j = 0; j < m; j++) NEAR1(dv[j], lv[j], 1e-9L, "v knot " << j);
    ld hmin = 1; for (int i = 1; i < n; i++) hmin = std::min(hmin, lu[i] - lu[i - 1]); for (int j = 1; j < m; j++) hmin = std::min(hmin, lv[j] - lv[j - 1]); if (hmin < 1e-3) return;
    for (int i = 1; i + 1 < n; i++) for (int j = 1; j + 1 < m; j++) { ld h0 = lu[i] - lu[i - 1], h1 = lu[i + 1] - lu[i], k0 = lv[j] - lv[j - 1], k1 = lv[j + 1] - lv[j], a = h0 / (h0 + h1), b = k0 / (k0 + k1); V3 x = (Tv[i][j] - Tv[i - 1][j]) * ((1 - a) / h0) + (Tv[i + 1][j] - Tv[i][j]) * (a / h1), y = (Tu[i][j] - Tu[i][j - 1]) * ((1 - b) / k0) + (Tu[i][j + 1] - Tu[i][j]) * (b / k1); W[i][j] = (y * a + x * b) / (a + b); }
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { auto D = refSurfDers(s, du[i], dv[j], 1, 1); NEAR3(D(1, 0), Tu[i][j], 1e-10L * sc / hmin, "u derivative at point " << i << "," << j); NEAR3(D(0, 1), Tv[i][j], 1e-10L * sc / hmin, "v derivative at point " << i << "," << j); NEAR3(D(1, 1), W[i][j], 1e-10L * sc / hmin / hmin, "twist at point " << i << "," << j); }
}
LAW(bicubic_local_plane, 3000, 120000) {
    int n = 2 + g.integer(0, 5), m = 2 + g.integer(0, 5); V3 o(genPoint(g)), a(genPoint(g)), b(genPoint(g)); if (a.cross(b).len() < 0.3 * a.len() * b.len() || a.len() < 1 || b.len() < 1) pbt::discard("frame"); std::vector<ld> x{0}, y{0}; for (int i = 1; i < n; i++) x.push_back(x.back() + g.real(0.3, 2)); for (int j = 1; j < m; j++) y.push_back(y.back() + g.real(0.3, 2)); bool skew = g.boolean(); Grid Q(n, std::vector<XYZ>(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Q[i][j] = (o + a * x[i] + b * y[j] * (skew ? 1 + 0.1L * i : 1)).xyz(); g.nontrivial(); g.tagIf(!skew, "affine-grid"); g.note([&](std::ostream& os) { os << "plane grid " << Q; });
    LN_NurbsSurface s; REQUIRE(NurbsSurface::BicubicLocalInterpolation(Q, s), "refused"); validSurface(s, "local interpolant"); V3 nn = a.cross(b) / a.cross(b).len(); for (int i = 0; i <= 7; i++) for (int j = 0; j <= 7; j++) { V3 p = refEval(s, i / 7.0L, j / 7.0L); NEAR1((p - o).dot(nn), 0, 1e-7L * 300, "in the plane"); if (!skew) NEAR3(p, o + a * (x.back() * i / 7.0L) + b * (y.back() * j / 7.0L), 1e-7L * 300, "an affine grid is reproduced with chord parameters"); }
}
// least squares with fixed ends: the control points for data D at parameters t over knots U
static bool lsq(int p, const std::vector<double>& U, const std::vector<double>& t, const std::vector<V3>& D, std::vector<V3>& P, ld& cond) {
    int n = (int)U.size() - p - 1, m = (int)t.size(); P.assign(n, V3()); P[0] = D[0]; P[n - 1] = D[m - 1]; if (n == 2) return true; LMat A(n - 2, std::vector<ld>(n - 2, 0)), inv; std::vector<V3> r(n - 2);
    for (int k = 1; k < m - 1; k++) { auto N = refRow(p, U, t[k]); V3 q = D[k] - D[0] * N[0] - D[m - 1] * N[n - 1]; for (int i = 1; i < n - 1; i++) { r[i - 1] = r[i - 1] + q * N[i]; for (int j = 1; j < n - 1; j++) A[i - 1][j - 1] += N[i] * N[j]; } }
    if (!refInverse(A, inv)) return false; cond = std::max(cond, normInf(inv)); for (int i = 1; i < n - 1; i++) for (int j = 1; j < n - 1; j++) P[i] = P[i] + r[j - 1] * inv[i - 1][j - 1];
    return true;
}
LAW(global_approximation, 6000, 250000) {
    int p = genDegree(g, 1, 5), q = genDegree(g, 1, 5), a = std::max(3, p + 1 + g.integer(0, 3)), b = std::max(3, q + 1 + g.integer(0, 3)), n = a + 1 + g.integer(0, 5), m = b + 1 + g.integer(0, 5); double mag; auto Q = genGrid(g, n, m, mag, false); g.note([&](std::ostream& o) { o << "degrees " << p << "," << q << " net " << a << "x" << b; });
    LN_NurbsSurface s; REQUIRE(NurbsSurface::GlobalApproximation(Q, p, q, a, b, s), "refused"); validSurface(s, "approximation"); REQUIRE(s.DegreeU == p && s.DegreeV == q && (int)s.ControlPoints.size() == a && (int)s.ControlPoints[0].size() == b, "shape");
    std::vector<double> u, v; params(Q, u, v); sameKnots(s.KnotVectorU, Interpolation::ComputeKnotVector(p, a, u), "U knots"); sameKnots(s.KnotVectorV, Interpolation::ComputeKnotVector(q, b, v), "V knots");
    ld c1 = 1, c2 = 1; std::vector<std::vector<V3>> R(n); for (int i = 0; i < n; i++) { std::vector<V3> D; for (auto& x : Q[i]) D.push_back(V3(x)); if (!lsq(q, s.KnotVectorV, v, D, R[i], c1)) pbt::discard("singular"); }
    if (c1 > 1e4) pbt::discard("ill-conditioned");
    for (int j = 0; j < b; j++) { std::vector<V3> D, P; for (int i = 0; i < n; i++) D.push_back(R[i][j]); if (!lsq(p, s.KnotVectorU, u, D, P, c2)) pbt::discard("singular"); if (c2 > 1e4) pbt::discard("ill-conditioned"); ld k = c1 * c2; for (int i = 0; i < a; i++) NEAR3(s.ControlPoints[i][j].ToXYZ(true), P[i], mag * 30 * (1e-12L * k * k + 1e-10L * k), "control point " << i << "," << j); }
    NEAR3(s.ControlPoints[0][0].ToXYZ(true), V3(Q[0][0]), 1e-9L * mag * 30, "corner"); NEAR3(s.ControlPoints[a - 1][0].ToXYZ(true), V3(Q[n - 1][0]), 1e-9L * mag * 30, "corner"); NEAR3(s.ControlPoints[0][b - 1].ToXYZ(true), V3(Q[0][m - 1]), 1e-9L * mag * 30, "corner"); NEAR3(s.ControlPoints[a - 1][b - 1].ToXYZ(true), V3(Q[n - 1][m - 1]), 1e-9L * mag * 30, "corner");
}
