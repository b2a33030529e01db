#include "gen.h"
const char* pbt::RULE = "random point lists with distinct neighbours, degrees, numbers of control points, weights, constraints and error bounds; least-squares results are compared with a dense long-double solution of the normal (Lagrange) equations, error-bounded results are measured at the data parameters, fits to single segments are measured by distance; non-trivial: fewer control points than points";

static std::vector<XYZ> genData(Gen& g, int n, double& mag, bool smooth) {
    mag = genMag(g); std::vector<XYZ> P;
    if (smooth) { double a = g.coord(1), b = g.coord(1), c = g.real(0.2, 1), w = g.real(0.5, 4); for (int i = 0; i < n; i++) { double t = (i + 0.3 * g.unit()) / n; P.push_back(XYZ(mag * c * t * 3, mag * (a * std::sin(w * t) + 0.2 * t), mag * b * t * t)); } }
    else P = genPoints(g, n, mag, false);
    for (int i = 1; i < n; i++) if (P[i].Distance(P[i - 1]) < 1e-2 * mag) pbt::discard("consecutive points too close");
    g.note([&](std::ostream& o) { o << "points " << P << " "; });
    return P;
}
static std::vector<double> chord(const std::vector<XYZ>& P) { std::vector<double> u{0}; ld s = 0; std::vector<ld> a{0}; for (size_t i = 1; i < P.size(); i++) { s += (V3(P[i]) - V3(P[i - 1])).len(); a.push_back(s); } for (size_t i = 1; i < a.size(); i++) u.push_back((double)(a[i] / s)); u.back() = 1; return u; }
static V3 col(const LMat& inv, int i, const std::vector<V3>& r) { V3 s; for (size_t j = 0; j < r.size(); j++) s = s + r[j] * inv[i][j]; return s; }

LAW(least_squares, 15000, 600000) {
    int p = genDegree(g), n = std::max(2, p + 1 + g.weighted({2, 2, 2, 1, 1, 1, 1})), m = n + 1 + g.integer(0, 14); double mag; auto P = genData(g, m, mag, g.boolean()); g.nontrivial();
    g.note([&](std::ostream& o) { o << "degree " << p << " control points " << n; });
    LN_NurbsCurve c; REQUIRE(NurbsCurve::LeastSquaresApproximation(p, P, n, c), "refused"); validCurve(c, "LeastSquaresApproximation");
    REQUIRE(c.Degree == p && (int)c.ControlPoints.size() == n, "shape"); auto u = chord(P); sameKnots(c.KnotVector, Interpolation::ComputeKnotVector(p, n, u), "LeastSquaresApproximation");
    NEAR3(c.ControlPoints[0].ToXYZ(true), V3(P[0]), 1e-10L * mag, "start point"); NEAR3(c.ControlPoints[n - 1].ToXYZ(true), V3(P[m - 1]), 1e-10L * mag, "end point");
    // normal equations over the inner control points
    LMat A(n - 2, std::vector<ld>(n - 2, 0)), inv; std::vector<V3> r(n - 2);
    for (int k = 1; k < m - 1; k++) { auto N = refRow(p, c.KnotVector, u[k]); V3 q = V3(P[k]) - V3(P[0]) * N[0] - V3(P[m - 1]) * N[n - 1]; for (int i = 1; i < n - 1; i++) { r[i - 1] = r[i - 1] + q * N[i]; for (int j = 1; j < n - 1; j++) A[i - 1][j - 1] += N[i] * N[j]; } }
    if (n == 2) { g.tag("two control points"); return; }
    if (!refInverse(A, inv)) pbt::discard("singular"); ld cond = normInf(inv); if (cond > 1e5) { g.tag("ill-conditioned"); pbt::discard("ill-conditioned"); }
    for (int i = 1; i < n - 1; i++) NEAR3(c.ControlPoints[i].ToXYZ(true), col(inv, i - 1, r), mag * (1e-10L * cond * cond * 10 + 1e-10L * m * cond), "control point " << i);
}
LAW(least_squares_reproduces_splines, 10000, 400000) {
    // points of a straight segment or of a polynomial curve in its chord parametrisation are reproduced: use collinear data
    int p = genDegree(g), n = std::max(2, p + 1 + g.integer(0, 4)), m = n + 1 + g.integer(0, 12); V3 a(genPoint(g)), b(genPoint(g)); if (b.len() < 1) pbt::discard("short"); std::vector<XYZ> P; ld s = 0;
    for (int i = 0; i < m; i++) { P.push_back((a + b * s).xyz()); s += g.real(0.2, 1); } g.nontrivial();
    LN_NurbsCurve c; REQUIRE(NurbsCurve::LeastSquaresApproximation(p, P, n, c), "refused"); V3 e = V3(P.back()) - a;
    for (int i = 0; i <= 20; i++) NEAR3(refEval(c, i / 20.0L), a + e * (i / 20.0L), 1e-4L * (1 + e.len()), "straight line not reproduced at " << i / 20.0);
}
LAW(weighted_constrained_least_squares, 15000, 600000) {
    int p = genDegree(g, 1, 5), n = p + 1 + g.integer(0, 4), m = n + 2 + g.integer(0, 10); double mag; auto P = genData(g, m, mag, g.boolean()); g.nontrivial();
    std::vector<double> w, tw; std::vector<XYZ> T; std::vector<int> ti; int mc = 0, cmax = g.boolean() ? n - 1 : n - 2, cr = g.chance(1, 3) ? 2 : 5;
    for (int i = 0; i < m; i++) { bool con = mc < cmax && g.chance(1, cr); if (con) mc++; w.push_back(con ? -1.0 : g.chance(1, 2) ? 1.0 : g.real(0.2, 4)); }
    if (p >= 2 && g.chance(1, 2)) { int k = g.integer(1, 3); std::set<int> used; for (int i = 0; i < k; i++) { int at = g.integer(0, m - 1); if (!used.insert(at).second) continue; bool con = mc < cmax && g.chance(1, 3); if (con) mc++; ti.push_back(at); tw.push_back(con ? -1.0 : g.real(0.2, 3)); T.push_back(genPoint(g, mag)); } g.tag("tangents"); }
    g.tagIf(mc > 0, "constraints"); g.tagIf(mc == n - 1, "as many constraints as possible"); g.note([&](std::ostream& o) { o << "degree " << p << " n " << n << " weights " << w << " tangent indices " << ti << " tangents " << T << " tangent weights " << tw; });
    auto u = chord(P); auto U = Interpolation::ComputeKnotVector(p, n, u);
    std::vector<std::vector<ld>> N, M; std::vector<ld> W; std::vector<V3> S, Tc;
    for (int i = 0; i < m; i++) { auto r = refRow(p, U, u[i]); if (w[i] > 0) { N.push_back(r); W.push_back(w[i]); S.push_back(V3(P[i])); } else { M.push_back(r); Tc.push_back(V3(P[i])); } }
    for (size_t i = 0; i < ti.size(); i++) { auto r = refRow(p, U, u[ti[i]], 1); if (tw[i] > 0) { N.push_back(r); W.push_back(tw[i]); S.push_back(V3(T[i])); } else { M.push_back(r); Tc.push_back(V3(T[i])); } }
    int tot = n + (int)M.size(); LMat A(tot, std::vector<ld>(tot, 0)), inv; std::vector<V3> r(tot); ld big = 1;
    for (size_t k = 0; k < N.size(); k++) for (int i = 0; i < n; i++) { r[i] = r[i] + S[k] * (W[k] * N[k][i]); for (int j = 0; j < n; j++) { A[i][j] += W[k] * N[k][i] * N[k][j]; big = std::max(big, fabsl(A[i][j])); } }
    for (size_t k = 0; k < M.size(); k++) { for (int i = 0; i < n; i++) A[i][n + k] = A[n + k][i] = M[k][i]; r[n + k] = Tc[k]; }
    if (!refInverse(A, inv)) pbt::discard("singular"); ld cond = normInf(inv) * big; if (cond > 1e7) pbt::discard("ill-conditioned");
    LN_NurbsCurve c; REQUIRE(NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, P, w, T, ti, tw, n, c), "refused"); validCurve(c, "weighted least squares"); sameKnots(c.KnotVector, U, "weighted least squares");
    ld sol = mag; for (int i = 0; i < n; i++) sol = std::max(sol, col(inv, i, r).len());
    for (int i = 0; i < n; i++) NEAR3(c.ControlPoints[i].ToXYZ(true), col(inv, i, r), sol * 1e-11L * cond * 10, "control point " << i);
}
LAW(approximation_within_error_bound, 6000, 250000) {
    int p = genDegree(g, 1, 4), m = p + 1 + g.integer(1, 16); double mag; auto P = genData(g, m, mag, g.chance(2, 3)); double E = mag * (g.chance(1, 3) ? 1e-3 : g.real(0.01, 1));
    g.note([&](std::ostream& o) { o << "degree " << p << " bound " << E; });
    LN_NurbsCurve c; NurbsCurve::GlobalApproximationByErrorBound(p, P, E, c); validCurve(c, "GlobalApproximationByErrorBound"); REQUIRE(c.Degree == p, "degree"); g.nontrivial((int)c.ControlPoints.size() < (m - 1) * p + 1); g.tagIf((int)c.ControlPoints.size() < (m - 1) * p + 1, "knots-removed");
    auto u = chord(P); for (int i = 0; i < m; i++) { ld d = (refEval(c, u[i]) - V3(P[i])).len(); REQUIRE(d <= E * (1 + 1e-6) + 2e-6 * (1 + mag), "point " << i << " is " << (double)d << " away, bound " << E << " " << c); }
}
LAW(remove_knots_within_bound, 8000, 300000) {
    CurveOpt o; o.weights = WOne; o.knots.many = false; o.maxDegree = 5; auto c = genCurve(g, o); double lo = c.k.lo(), hi = c.k.hi(); std::vector<double> par; int m = g.integer(5, 40); for (int i = 0; i <= m; i++) par.push_back(lo + (hi - lo) * i / m); par.back() = hi;
    std::vector<double> err(par.size(), 0), e0; double E = c.scale * (g.chance(1, 3) ? 1e-3 : g.real(0.01, 1)); if (g.chance(1, 3)) for (auto& x : err) x = E * g.unit() * 0.9; e0 = err;
    LN_NurbsCurve in = c.c; if (g.chance(1, 2)) { LN_NurbsCurve t; std::vector<double> ins; for (size_t i = 0; i + 1 < c.k.distinct.size(); i++) ins.push_back((c.k.distinct[i] + c.k.distinct[i + 1]) / 2); NurbsCurve::RefineKnotVector(in, ins, t); in = t; g.tag("removable-knots"); }
    g.note([&](std::ostream& s) { s << "bound " << E << " parameters " << m + 1; });
    LN_NurbsCurve r; NurbsCurve::RemoveKnotsByGivenBound(in, par, err, E, r); validCurve(r, "RemoveKnotsByGivenBound"); REQUIRE(r.Degree == in.Degree && r.ControlPoints.size() <= in.ControlPoints.size(), "shape"); g.tagIf(r.ControlPoints.size() < in.ControlPoints.size(), "knots-removed"); if (in.ControlPoints.size() > c.c.ControlPoints.size()) REQUIRE(r.ControlPoints.size() <= c.c.ControlPoints.size(), "knots that can be removed without error are kept: " << r.ControlPoints.size() << " control points of " << in.ControlPoints.size() << ", unrefined " << c.c.ControlPoints.size());
    NEAR1(r.KnotVector.front(), lo, 1e-12L * (1 + fabsl(lo)), "start"); NEAR1(r.KnotVector.back(), hi, 1e-12L * (1 + fabsl(hi)), "end");
    for (size_t i = 0; i < par.size(); i++) { ld d = (refEval(r, par[i]) - refEval(c.c, par[i])).len(); REQUIRE(err[i] <= E * (1 + 1e-6) + 1e-5, "reported error " << err[i] << " exceeds the bound " << E); REQUIRE(d <= err[i] - e0[i] + 2e-6L * c.scale * 20, "parameter " << par[i] << ": moved by " << (double)d << ", reported " << err[i] - e0[i] << " of " << in << " result " << r); }
}
LAW(knot_removal_error_bound, 10000, 400000) {
    CurveOpt o; o.weights = WOne; o.knots.many = false; auto c = genCurve(g, o); if (c.k.distinct.size() < 3) pbt::discard("no interior knot"); int ki = g.integer(1, (int)c.k.distinct.size() - 2); double u = c.k.distinct[ki]; int p = c.c.Degree, s = c.k.mult[ki]; LN_NurbsCurve in = c.c; bool removable = g.chance(1, 3) && s < p;
    if (removable) { LN_NurbsCurve t; NurbsCurve::InsertKnot(c.c, u, 1, t); in = t; s++; g.tag("removable"); }
    int r = 0; for (size_t i = 0; i < in.KnotVector.size(); i++) if (in.KnotVector[i] == u) r = (int)i;
    double b = NurbsCurve::ComputerRemoveKnotErrorBound(in, r); g.nontrivial();
    // A9.8 in long double
    int ord = p + 1, first = r - p, last = r - s, off = first - 1, i = first, j = last, ii = 1, jj = last - off; auto& U = in.KnotVector; std::vector<V3> T(U.size()); auto P = [&](int k) { return V3(in.ControlPoints[k].ToXYZ(false)); };
    T[0] = P(off); T[last + 1 - off] = P(last + 1); ld e, amp = 1;
    while (j - i > 0) { ld ai = ((ld)u - U[i]) / ((ld)U[i + ord] - U[i]), aj = ((ld)u - U[j]) / ((ld)U[j + ord] - U[j]); T[ii] = (P(i) - T[ii - 1] * (1 - ai)) / ai; T[jj] = (P(j) - T[jj + 1] * aj) / (1 - aj); amp *= 2 / std::min(ai, 1 - aj); i++; ii++; j--; jj--; }
    if (j - i < 0) e = (T[ii - 1] - T[jj + 1]).len(); else { ld ai = ((ld)u - U[i]) / ((ld)U[i + ord] - U[i]); e = (P(i) - T[ii + 1] * ai - T[ii - 1] * (1 - ai)).len(); }
    NEAR1(b, e, 1e-12L * c.scale * amp * 10, "error bound"); if (removable) NEAR1(b, 0, 1e-12L * c.scale * amp * 10, "removable knot");
}
// ---- single-segment fits
static ld distToCurve(const LN_NurbsCurve& c, const V3& q) { ld best = 1e300L, bt = 0; for (int i = 0; i <= 400; i++) { ld d = (refEval(c, i / 400.0L) - q).len(); if (d < best) { best = d; bt = i / 400.0L; } } ld a = std::max(0.0L, bt - 1 / 400.0L), b = std::min(1.0L, bt + 1 / 400.0L); for (int k = 0; k < 60; k++) { ld x = a + (b - a) / 3, y = b - (b - a) / 3; if ((refEval(c, x) - q).len() < (refEval(c, y) - q).len()) b = y; else a = x; } return std::min(best, (refEval(c, (a + b) / 2) - q).len()); }
LAW(conic_segment_fit, 8000, 300000) {
    V3 A(genPoint(g)), R(genPoint(g)), B(genPoint(g)); if ((R - A).cross(B - A).len() < 5 || (B - A).len() < 1 || (R - A).len() < 1 || (R - B).len() < 1) pbt::discard("degenerate triangle");
    double w = g.real(0.3, 3); LN_NurbsCurve c; c.Degree = 2; c.KnotVector = {0, 0, 0, 1, 1, 1}; c.ControlPoints = {XYZW(A.xyz(), 1), XYZW(R.xyz(), w), XYZW(B.xyz(), 1)};
    int k = g.integer(1, 6), s = g.integer(0, 2); std::vector<XYZ> P; for (int i = 0; i < s; i++) P.push_back(genPoint(g)); P.push_back(A.xyz()); double noise = g.boolean() ? 0 : g.real(0.01, 0.5); g.tagIf(noise > 0, "noisy"); g.tagIf(s > 0, "start-index>0");
    bool planar = g.chance(3, 4); int only = g.boolean() ? g.integer(1, k) : 0; g.tagIf(noise > 0 && only, "one point off");
    for (int i = 1; i <= k; i++) { V3 nz(genPoint(g, 1)); if (planar) nz = (B - A) / (B - A).len() * (nz.x / 2) + (R - (A + B) / 2) / (R - (A + B) / 2).len() * nz.y; P.push_back((refEval(c, (ld)i / (k + 1)) + nz * (only && only != i ? 0 : noise)).xyz()); } P.push_back(B.xyz()); int e = (int)P.size() - 1; for (int i = g.integer(0, 2); i > 0; i--) P.push_back(genPoint(g));
    double E = g.real(0.02, 0.3); std::vector<XYZW> mid; g.nontrivial(); V3 ts = (R - A) / (R - A).len(), te = (B - R) / (B - R).len();
    g.note([&](std::ostream& o) { o << "conic " << c << " through points " << k << " noise " << noise << " bound " << E; });
    bool ok = NurbsCurve::FitWithConic(P, s, e, ts.xyz(), te.xyz(), E, mid);
    if (noise == 0) { REQUIRE(ok, "points of a conic not fitted"); REQUIRE(mid.size() == 1, "one middle point"); NEAR3(mid[0].ToXYZ(true), R, 1e-3L, "middle point"); NEAR1(mid[0].GetW(), w, 1e-3L * (1 + w), "weight"); }
    g.tagIf(ok && noise > 0, "noisy and fitted"); if (ok) { REQUIRE(mid.size() == 1 && finite4(mid[0]), "one middle point"); LN_NurbsCurve f = c; f.ControlPoints[1] = mid[0]; for (int i = s + 1; i < e; i++) { ld d = distToCurve(f, V3(P[i])); REQUIRE(d <= E * (1 + 1e-5) + 1e-5, "point " << i << " is " << (double)d << " off, bound " << E); } }
}
LAW(cubic_segment_fit, 8000, 300000) {
    V3 A(genPoint(g)), B(genPoint(g)), ts(genPoint(g)), te(genPoint(g)); bool planar = g.boolean(); if (planar) { A.z = B.z = ts.z = te.z = 0; g.tag("planar"); } if (ts.len() < 1 || te.len() < 1 || (B - A).len() < 2) pbt::discard("degenerate"); ts = ts / ts.len(); te = te / te.len();
    if (!planar && fabsl((B - A).cross(ts).dot(te)) < 0.2 * (B - A).len()) pbt::discard("nearly planar");
    ld L = (B - A).len(), al = L * g.real(0.2, 0.6), be = L * g.real(0.2, 0.6); LN_NurbsCurve c; c.Degree = 3; c.KnotVector = {0, 0, 0, 0, 1, 1, 1, 1}; c.ControlPoints = {XYZW(A.xyz(), 1), XYZW((A + ts * al).xyz(), 1), XYZW((B - te * be).xyz(), 1), XYZW(B.xyz(), 1)};
    int k = g.integer(1, 6), s = g.integer(0, 2); std::vector<XYZ> P; for (int i = 0; i < s; i++) P.push_back(genPoint(g)); P.push_back(A.xyz()); double noise = g.boolean() ? 0 : g.real(0.01, 0.5); g.tagIf(noise > 0, "noisy"); g.tagIf(s > 0, "start-index>0");
    for (int i = 1; i <= k; i++) { V3 nz(genPoint(g, 1)); if (planar) nz.z = 0; P.push_back((refEval(c, (ld)i / (k + 1)) + nz * noise).xyz()); } P.push_back(B.xyz()); int e = (int)P.size() - 1; for (int i = g.integer(0, 2); i > 0; i--) P.push_back(genPoint(g));
    double E = g.real(0.02, 0.3); std::vector<XYZW> mid; g.nontrivial();
    g.note([&](std::ostream& o) { o << "cubic " << c << " points " << P << " from " << s << " to " << e << " noise " << noise << " bound " << E; });
    bool ok = NurbsCurve::FitWithCubic(P, s, e, ts.xyz(), te.xyz(), E, mid);
    if (noise == 0 && !planar) { REQUIRE(ok, "points of a cubic not fitted"); REQUIRE(mid.size() == 2, "two middle points"); NEAR3(mid[0].ToXYZ(true), A + ts * al, 1e-2L, "first middle point"); NEAR3(mid[1].ToXYZ(true), B - te * be, 1e-2L, "second middle point"); }
    if (ok) { REQUIRE(mid.size() == 2 && finite4(mid[0]) && finite4(mid[1]), "two middle points"); LN_NurbsCurve f = c; f.ControlPoints[1] = mid[0]; f.ControlPoints[2] = mid[1]; V3 d0 = V3(mid[0].ToXYZ(true)) - A, d1 = V3(mid[1].ToXYZ(true)) - B; REQUIRE(d0.cross(ts).len() < 1e-6 * (1 + d0.len()) && d1.cross(te).len() < 1e-6 * (1 + d1.len()), "middle points on the tangents");
        for (int i = s + 1; i < e; i++) { ld d = distToCurve(f, V3(P[i])); REQUIRE(d <= E * (1 + 1e-5) + 1e-5, "point " << i << " is " << (double)d << " off, bound " << E); } }
}
LAW(cubic_fit_between_neighbours, 3000, 100000) {
    // no point in between: two middle points ahead of the start along its tangent and behind the end along the other
    double mag; int n = g.integer(5, 10), s = g.integer(0, n - 2); auto P = genData(g, n, mag, 5e-2); V3 ts(genPoint(g)), te(genPoint(g)); if (ts.len() < 1 || te.len() < 1) pbt::discard("degenerate"); ts = ts / ts.len(); te = te / te.len(); g.nontrivial(); g.tagIf(s > 0 && s < n - 2, "interior");
    g.note([&](std::ostream& o) { o << "points " << P << " from " << s << " tangents " << ts << te; }); std::vector<XYZW> mid; REQUIRE(NurbsCurve::FitWithCubic(P, s, s + 1, ts.xyz(), te.xyz(), 0.1, mid), "refused"); REQUIRE(mid.size() == 2 && finite4(mid[0]) && finite4(mid[1]), "two middle points");
    V3 d0 = V3(mid[0].ToXYZ(true)) - V3(P[s]), d1 = V3(P[s + 1]) - V3(mid[1].ToXYZ(true)); NEAR3(d0, ts * d0.len(), 1e-9L * (mag + d0.len()), "first middle point"); NEAR3(d1, te * d1.len(), 1e-9L * (mag + d1.len()), "second middle point");
}
LAW(straight_segment_fits, 3000, 100000) {
    // evenly ordered points of a line and tangents along it: the fit is that line, without overshooting
    V3 A(genPoint(g)), d(genPoint(g, 1)); if (d.len() < 0.2) pbt::discard("degenerate"); d = d / d.len(); int k = g.integer(0, 5), s = g.integer(0, 2); std::vector<XYZ> P; for (int i = 0; i < s; i++) P.push_back((A - d * (2.0L * (s - i))).xyz()); ld at = 0; P.push_back(A.xyz()); for (int i = 0; i <= k; i++) { at += g.real(0.5, 3); P.push_back((A + d * at).xyz()); } int e = (int)P.size() - 1; V3 B(P[e]); if (P.size() < 3 || g.boolean()) P.push_back((A + d * (at + 2)).xyz()); if (P.size() < 3) P.push_back((A + d * (at + 4)).xyz()); g.nontrivial(); g.note([&](std::ostream& o) { o << "points " << P << " from " << s << " to " << e; });
    std::vector<XYZW> mid; REQUIRE(NurbsCurve::FitWithConic(P, s, e, d.xyz(), d.xyz(), 0.1, mid), "conic refused"); REQUIRE(mid.size() == 1 && finite4(mid[0]) && mid[0].GetW() > 0, "one middle point"); ld f = (V3(mid[0].ToXYZ(true)) - A).dot(d); NEAR3(mid[0].ToXYZ(true), A + d * f, 1e-6L * (20 + at), "middle point off the line"); REQUIRE(f > -1e-6L && f < at + 1e-6L, "middle point outside the segment");
    if (k > 0) { mid.clear(); REQUIRE(NurbsCurve::FitWithCubic(P, s, e, d.xyz(), d.xyz(), 0.1, mid), "cubic refused"); REQUIRE(mid.size() == 2, "two middle points"); NEAR3(mid[0].ToXYZ(true), A + d * (at / 3), 1e-6L * (20 + at), "first middle point"); NEAR3(mid[1].ToXYZ(true), A + d * (at * 2 / 3), 1e-6L * (20 + at), "second middle point"); (void)B; }
}
