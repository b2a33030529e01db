#include "gen.h"
const char* pbt::RULE = "random lists of distinct points (random, progressing, planar, collinear, closed; spacing ratios up to a few hundred), random tangents, degrees and explicit parameters; the interpolant is evaluated with the reference model at the data parameters; parametrisations, knot placement, tangents and the conic weight are compared with their formulas in long double; non-trivial: at least five points or explicit parameters";

static std::vector<XYZ> genData(Gen& g, int n, double& mag, double minGap = 2e-2) {
    mag = genMag(g); auto P = genPoints(g, n, mag, false);
    int extra = g.weighted({6, 1, 1});
    if (extra == 1) { XYZ a = genPoint(g, mag), b = genPoint(g, mag); double s = 0; for (int i = 0; i < n; i++) { s += g.real(0.1, 1); P[i] = a + b * s; } g.tag("collinear"); }
    if (extra == 2 && n > 3) { P[n - 1] = P[0]; g.tag("closed"); }
    for (int i = 1; i < n; i++) if (P[i].Distance(P[i - 1]) < minGap * mag) pbt::discard("consecutive points too close");
    g.nontrivial(n >= 5); g.note([&](std::ostream& o) { o << "points " << P << " "; });
    return P;
}
static std::vector<ld> refChord(const std::vector<XYZ>& P, ld ex = 1) { std::vector<ld> u{0}; ld s = 0; for (size_t i = 1; i < P.size(); i++) { s += powl((V3(P[i]) - V3(P[i - 1])).len(), ex); u.push_back(s); } for (auto& x : u) x /= s; return u; }

LAW(parametrisations, 10000, 400000) {
    double mag; int n = g.integer(2, 15); auto P = genData(g, n, mag); if (n > 3 && g.chance(1, 4)) { int k = g.integer(1, n - 1); P[k] = P[k - 1]; g.tag("repeated-point"); if (n > 2 && P[0].Distance(P[n - 1]) < 1e-9) pbt::discard("all equal"); }
    auto c = Interpolation::GetChordParameterization(P), s = Interpolation::GetCentripetalParameterization(P); auto rc = refChord(P), rs = refChord(P, 0.5L);
    REQUIRE((int)c.size() == n && (int)s.size() == n, "size");
    ld L = 0, LS = 0; for (int i = 1; i < n; i++) { ld d = (V3(P[i]) - V3(P[i - 1])).len(); L += d; LS += sqrtl(d); }
    NEAR1(Interpolation::GetTotalChordLength(P), L, 1e-11L * L, "chord length"); NEAR1(Interpolation::GetCentripetalLength(P), LS, 1e-11L * LS, "centripetal length");
    for (int i = 0; i < n; i++) { NEAR1(c[i], rc[i], 1e-11L, "chord parameter " << i); NEAR1(s[i], rs[i], 1e-11L, "centripetal parameter " << i); }
    int p = g.integer(1, std::min(7, n - 1)); auto U = Interpolation::AverageKnotVector(p, c); REQUIRE((int)U.size() == n + p + 1, "knot count");
    for (int i = 0; i <= p; i++) { NEAR1(U[i], 0, 1e-14L, "first knots"); NEAR1(U[n + p - i], 1, 1e-14L, "last knots"); }
    for (int j = 1; j <= n - 1 - p; j++) { ld a = 0; for (int i = j; i < j + p; i++) a += c[i]; NEAR1(U[j + p], a / p, 1e-11L, "averaged knot " << j + p); }
    int m = g.integer(p + 1, n); auto K = Interpolation::ComputeKnotVector(p, m, c); REQUIRE((int)K.size() == m + p + 1, "knot count");
    for (int i = 0; i <= p; i++) { NEAR1(K[i], 0, 1e-14L, "first knots"); NEAR1(K[m + p - i], 1, 1e-14L, "last knots"); }
    for (int j = 1; j < m - p; j++) { ld d = (ld)n / (m - p) * j; int i = (int)floorl(d + 1e-12L); ld al = d - i; ld e = i < n ? (1 - al) * c[i - 1] + al * c[i] : c[i - 1]; NEAR1(K[p + j], e, 1e-9L, "approximation knot " << j); }
}
LAW(mesh_parametrisation, 5000, 200000) {
    int n = g.integer(2, 8), m = g.integer(2, 8); std::vector<std::vector<XYZ>> Q(n); std::vector<ld> U(n), V(m);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Q[i].push_back(XYZ(3 * i + g.unit(), 2 * j + g.unit(), g.coord(5)));
    g.nontrivial(n != m); g.tagIf(n != m, "non-square");
    std::vector<ld> su(n), sv(m); std::vector<double> pu, pv; int dropU = 0;
    bool collapse = g.chance(1, 3); int cj = g.integer(0, m - 1); if (collapse) { for (int i = 1; i < n; i++) Q[i][cj] = Q[0][cj]; g.tag("degenerate-column"); }
    for (int j = 0; j < m; j++) { std::vector<XYZ> col; for (int i = 0; i < n; i++) col.push_back(Q[i][j]); ld tot = Interpolation::GetTotalChordLength(col); if (tot == 0) { dropU++; continue; } auto r = refChord(col); for (int i = 0; i < n; i++) su[i] += r[i]; }
    for (int i = 0; i < n; i++) { auto r = refChord(Q[i]); for (int j = 0; j < m; j++) sv[j] += r[j]; }
    REQUIRE(Interpolation::GetSurfaceMeshParameterization(Q, pu, pv), "refused");
    REQUIRE((int)pu.size() == n && (int)pv.size() == m, "sizes");
    for (int i = 0; i < n; i++) NEAR1(pu[i], su[i] / (m - dropU), 1e-10L, "U parameter " << i); for (int j = 0; j < m; j++) NEAR1(pv[j], sv[j] / n, 1e-10L, "V parameter " << j);
}
LAW(global_interpolation_passes_through_points, 20000, 1000000) {
    int p = genDegree(g), n = p + 1 + g.weighted({1, 2, 2, 2, 2, 1, 1, 1, 1, 1}); if (g.chance(1, 20)) n = g.integer(n, 40); double mag; auto P = genData(g, n, mag, 5e-2);
    std::vector<double> params;
    if (g.chance(1, 3)) { double acc = 0; std::vector<double> a{0}; for (int i = 1; i < n; i++) { acc += g.real(0.3, 2); a.push_back(acc); } for (auto& x : a) params.push_back(x / acc); params.back() = 1; g.tag("explicit-parameters"); g.nontrivial(); }
    LN_NurbsCurve c; NurbsCurve::GlobalInterpolation(p, P, c, params);
    validCurve(c, "GlobalInterpolation"); REQUIRE(c.Degree == p && (int)c.ControlPoints.size() == n, "shape");
    auto rc = refChord(P); ld amp = mag; for (auto& q : c.ControlPoints) for (int j = 0; j < 3; j++) amp = std::max(amp, fabsl(q[j]));
    if (amp > 1e6 * mag) pbt::discard("ill-conditioned data");
    for (int i = 0; i < n; i++) NEAR3(refEval(c, params.empty() ? rc[i] : (ld)params[i]), V3(P[i]), 1e-9L * amp * 10, "point " << i << " missed by " << c);
    std::vector<double> K = Interpolation::AverageKnotVector(p, params.empty() ? Interpolation::GetChordParameterization(P) : params); sameKnots(c.KnotVector, K, "GlobalInterpolation");
}
LAW(tangent_interpolation, 20000, 800000) {
    int p = genDegree(g, 2, 7), n = p + 1 + g.weighted({2, 2, 2, 2, 1, 1, 1}); double mag; auto P = genData(g, n, mag, 0.1);
    std::vector<XYZ> T; for (int i = 0; i < n; i++) T.push_back(genPoint(g, 1)); double f = g.real(0.1, 3) * mag;
    g.note([&](std::ostream& o) { o << "degree " << p << " tangents " << T << " factor " << f; });
    LN_NurbsCurve c; NurbsCurve::GlobalInterpolation(p, P, T, f, c);
    validCurve(c, "GlobalInterpolation"); REQUIRE(c.Degree == p && (int)c.ControlPoints.size() == 2 * n, "shape");
    auto u = refChord(P); ld amp = mag; for (auto& q : c.ControlPoints) for (int j = 0; j < 3; j++) amp = std::max(amp, fabsl(q[j]));
    if (amp > 1e5 * mag) pbt::discard("ill-conditioned data");
    for (int i = 0; i < n; i++) { auto d = refCurveDers(c, u[i], 1); NEAR3(d(0), V3(P[i]), 1e-8L * amp * 10, "point " << i << " of " << c); NEAR3(d(1), V3(T[i]) * f, 1e-7L * amp * 100, "tangent " << i << " of " << c); }
}
LAW(local_cubic_interpolation_visits_points_in_order, 20000, 800000) {
    double mag; int n = g.integer(5, 14); auto P = genData(g, n, mag, 5e-2);
    LN_NurbsCurve c; REQUIRE(NurbsCurve::CubicLocalInterpolation(P, c), "refused"); validCurve(c, "CubicLocalInterpolation"); REQUIRE(c.Degree == 3, "degree");
    // the points are met at joints of the curve, in order; G1 with the tangents there
    double lo = c.KnotVector.front(), hi = c.KnotVector.back(); auto d = distinctOf(c.KnotVector, lo, hi); ld tol = 1e-8L * mag * 10; std::vector<XYZ> T; REQUIRE(Interpolation::ComputeTangent(P, T), "tangents");
    REQUIRE((int)d.size() >= n, "not enough joints for " << n << " points: " << c.KnotVector); size_t at = 0;
    for (int i = 0; i < n; i++) {
        while (at < d.size() && !near3(refEval(c, d[at]), V3(P[i]), tol)) at++;
        REQUIRE(at < d.size(), "point " << i << " not met: " << c);
        V3 t(T[i]); auto D = refCurveDers(c, d[at], 1); REQUIRE((D(1) / D(1).len() - t).len() < 1e-6L, "tangent direction at point " << i << ": " << D(1) << " vs " << t);
        if (at > 0) { auto L = refCurveDers(c, d[at], 1, refSpanLeft(3, c.KnotVector, d[at])); REQUIRE((L(1) / L(1).len() - t).len() < 1e-6L, "left tangent direction at point " << i); if (at + 1 < d.size()) NEAR3(L(1), D(1), 1e-6L * (L(1).len() + D(1).len()), "derivative jumps at point " << i << " of " << c); }
        at++;
    }
}
LAW(five_point_tangents, 10000, 400000) {
    double mag; int n = g.integer(5, 12); auto P = genData(g, n, mag); std::vector<XYZ> T; REQUIRE(Interpolation::ComputeTangent(P, T), "refused"); REQUIRE((int)T.size() == n, "size");
    std::vector<V3> q(n + 4); auto Q = [&](int k) -> V3& { return q[k + 1]; };    // q_{-1} .. q_{n+1}; q_k = P_k - P_{k-1}, k = 1..n-1
    int N = n - 1; for (int k = 1; k <= N; k++) Q(k) = V3(P[k]) - V3(P[k - 1]);
    Q(0) = Q(1) * 2 - Q(2); Q(-1) = Q(0) * 2 - Q(1); Q(N + 1) = Q(N) * 2 - Q(N - 1); Q(N + 2) = Q(N + 1) * 2 - Q(N);
    for (int k = 0; k <= N; k++) { ld a = Q(k - 1).cross(Q(k)).len(), b = Q(k + 1).cross(Q(k + 2)).len(); REQUIRE(finite3(T[k]), "tangent " << k << " not finite"); NEAR1(V3(T[k]).len(), 1, 1e-9L, "unit");
        if (a + b < 1e-3L * mag * mag) continue; ld al = a / (a + b); V3 v = Q(k) * (1 - al) + Q(k + 1) * al; if (v.len() < 1e-2L * mag) continue; NEAR3(T[k], v / v.len(), 1e-7L, "tangent " << k); }
}
LAW(five_point_tangents_reverse_with_the_points, 5000, 200000) {
    double mag; int n = g.integer(5, 10); auto P = genData(g, n, mag);
    if (g.chance(1, 2)) { // a corner between two straight runs: the weights of the formula vanish
        V3 c(genPoint(g)), a(genPoint(g)), b(genPoint(g)); if (a.len() < 0.2 || b.len() < 0.2) pbt::discard("short direction"); n = 5 + 2 * g.integer(0, 2); int m = n / 2; P.clear(); a = a / a.len(); b = b / b.len(); ld la = 0, lb = 0; std::vector<V3> L, R;
        for (int i = 0; i < m; i++) { la += g.real(0.3, 3); lb += g.real(0.3, 3); L.push_back(c - a * la); R.push_back(c + b * lb); } for (int i = m - 1; i >= 0; i--) P.push_back(L[i].xyz()); P.push_back(c.xyz()); for (auto& r : R) P.push_back(r.xyz()); g.tag("corner"); }
    g.nontrivial(); g.note([&](std::ostream& o) { for (auto& q : P) o << V3(q); });
    std::vector<XYZ> T, R; auto Q = P; std::reverse(Q.begin(), Q.end()); REQUIRE(Interpolation::ComputeTangent(P, T) && Interpolation::ComputeTangent(Q, R), "refused"); REQUIRE((int)T.size() == n && (int)R.size() == n, "size");
    for (int k = 1; k + 1 < n; k++) { V3 a = V3(P[k]) - V3(P[k - 1]), b = V3(P[k + 1]) - V3(P[k]); if (a.len() < 1e-3L || b.len() < 1e-3L || a.dot(b) < -0.98L * a.len() * b.len()) continue; NEAR3(T[k], V3(R[n - 1 - k]) * -1, 1e-6L, "tangent " << k << " against the one of the reversed points"); }
}
LAW(three_point_tangents, 10000, 400000) {
    double mag; int n = g.integer(3, 12); auto P = genData(g, n, mag); int rep = -1; if (n > 3 && g.chance(1, 4)) { rep = g.integer(1, n - 1); P[rep] = P[rep - 1]; g.tag("repeated-point"); }
    for (int i = 1; i < n; i++) if (i != rep && P[i].Distance(P[i - 1]) < 1e-2 * mag) pbt::discard("close points");
    auto T = Interpolation::ComputeTangent(P); REQUIRE((int)T.size() == n, "size"); auto u = refChord(P);
    std::vector<V3> D(n), d(n); auto du = [&](int i) { return u[i + 1] - u[i]; }; auto dp = [&](int i) { return (V3(P[i + 1]) - V3(P[i])) / du(i); };
    for (int i = 1; i + 1 < n; i++) { if (i + 1 == rep) D[i] = dp(i - 1); else if (i == rep) D[i] = dp(i); else D[i] = (dp(i - 1) * du(i) + dp(i) * du(i - 1)) / (du(i) + du(i - 1)); }
    if (rep != 1) D[0] = dp(0) * 2 - D[1]; else D[0] = D[1]; if (rep != n - 1) D[n - 1] = dp(n - 2) * 2 - D[n - 2]; else D[n - 1] = D[n - 2];
    ld L = Interpolation::GetTotalChordLength(P); for (int i = 0; i < n; i++) NEAR3(T[i], D[i], 1e-8L * L * 10, "tangent " << i);
}
LAW(conic_weight, 10000, 400000) {
    V3 S(genPoint(g)), R(genPoint(g)), E(genPoint(g)); bool iso = g.chance(1, 3);
    if (iso) { V3 M = (S + E) / 2, e = E - S, x = (R - M).cross(e).cross(e); if (x.len() < 1e-2) pbt::discard("degenerate"); R = M + x / x.len() * g.real(0.3, 8); g.tag("isosceles"); }
    V3 SM = R - S, EM = R - E, SE = E - S; if (SM.len() < 0.2 || EM.len() < 0.2 || SE.len() < 0.2 || SM.cross(EM).len() < 0.05 * SM.len() * EM.len()) pbt::discard("degenerate triangle");
    if (!iso && fabsl(SM.len() - EM.len()) < 1e-4) pbt::discard("nearly isosceles");
    g.nontrivial(); g.note([&](std::ostream& o) { o << S << R << E; });
    double w; REQUIRE(Interpolation::ComputerWeightForRationalQuadraticInterpolation(S.xyz(), R.xyz(), E.xyz(), w), "refused");
    V3 M = (S + E) / 2, MR = R - M; ld e;
    if (iso) e = SM.dot(SE) / SM.len() / SE.len();
    else { // feet on M-R of the bisectors at S and E
        auto foot = [&](const V3& o, const V3& a, const V3& b) { V3 dir = a / a.len() + b / b.len(), n = dir.cross(a.cross(b)); return (o - M).dot(n) / MR.dot(n); };
        ld s = (foot(S, SM, SE) + foot(E, EM, SE * -1)) / 2; e = s / (1 - s); }
    NEAR1(w, e, 1e-6L * (1 + fabsl(e)) * (iso ? 1 : 10), "weight");
}
