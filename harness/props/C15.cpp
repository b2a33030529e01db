// C15: shape modification and offset
#include "gen.h"
const char* pbt::RULE = "the curve has interior knots or unequal weights";
static CurveOpt opt(int minDeg = 1) { CurveOpt o; o.minDegree = minDeg; o.knots.many = false; return o; }
static ld R(const LN_NurbsCurve& c, int k, ld t) { auto r = refRow(c.Degree, c.KnotVector, t); ld s = 0; for (size_t i = 0; i < r.size(); i++) s += r[i] * c.ControlPoints[i][3]; return r[k] * c.ControlPoints[k][3] / s; }
static V3 cp(const LN_NurbsCurve& c, int i) { auto& q = c.ControlPoints[i]; return V3((ld)q[0] / q[3], (ld)q[1] / q[3], (ld)q[2] / q[3]); }
static void sameFrame(const LN_NurbsCurve& a, const LN_NurbsCurve& b, bool weights, const char* what) { validCurve(b, what); REQUIRE(a.Degree == b.Degree && a.KnotVector == b.KnotVector && a.ControlPoints.size() == b.ControlPoints.size(), what << ": degree, knots or size changed"); if (weights) for (size_t i = 0; i < a.ControlPoints.size(); i++) NEAR1(b.ControlPoints[i][3], a.ControlPoints[i][3], 1e-9L * a.ControlPoints[i][3], what << ": weight " << i); }
static int pickIndex(Gen& g, const GCurve& c, double t) { int s = refSpan(c.c.Degree, c.c.KnotVector, t); return s - c.c.Degree + g.integer(0, c.c.Degree); }
LAW(control_point_reposition, 15000, 500000) {
    auto c = genCurve(g, opt()); double t = genParam(g, c.k); int k = g.chance(1, 6) ? g.integer(0, (int)c.c.ControlPoints.size() - 1) : pickIndex(g, c, t); XYZ v = genPoint(g); if (v.Length() < 1e-2) pbt::discard("direction"); double d = g.real(0.1, 5) * (g.boolean() ? 1 : -1); ld r = R(c.c, k, t);
    g.note([&](std::ostream& s) { s << "at " << t << " index " << k << " direction " << v << " distance " << d; }); LN_NurbsCurve m; bool ok = NurbsCurve::ControlPointReposition(c.c, t, k, v, d, m);
    if (r < 1e-9) { REQUIRE(!ok, "control point without influence"); g.tag("no-influence"); return; } if (r < 1e-3) pbt::discard("little influence"); REQUIRE(ok, "refused"); sameFrame(c.c, m, true, "reposition");
    NEAR3(refEval(m, t), refEval(c.c, t) + V3(v) * (d / V3(v).len()), 1e-8L * (c.scale + fabsl(d) / r) * c.wr, "moved point"); for (size_t i = 0; i < m.ControlPoints.size(); i++) if ((int)i != k) NEAR3(cp(m, i), cp(c.c, i), 1e-9L * c.scale, "other control point " << i);
}
LAW(weight_modification, 15000, 500000) {
    auto c = genCurve(g, opt()); double t = genParam(g, c.k); int k = pickIndex(g, c, t); ld r = R(c.c, k, t); if (r < 1e-3 || r > 0.999) pbt::discard("influence"); V3 P = refEval(c.c, t), K = cp(c.c, k); ld dist = (K - P).len(); if (dist < 1e-2 * c.scale) pbt::discard("at the control point");
    // towards the control point (positive, at most to 0.9 of the way) or away as far as the weight stays positive
    double d = (double)dist * (g.boolean() ? g.real(0.05, 0.9) : -g.real(0.05, 0.8) * (double)(r / (1 - r))); if (fabs(d) < 1e-4) pbt::discard("small"); g.tagIf(d < 0, "pushed-away");
    g.note([&](std::ostream& s) { s << "at " << t << " index " << k << " distance " << d << " of " << (double)dist; }); LN_NurbsCurve m; NurbsCurve::WeightModification(c.c, t, k, d, m); sameFrame(c.c, m, false, "weight");
    NEAR3(refEval(m, t), P + (K - P) * (d / dist), 1e-7L * c.scale * c.wr * (1 + 1 / r) * 10, "moved point"); for (size_t i = 0; i < m.ControlPoints.size(); i++) { NEAR3(cp(m, i), cp(c.c, i), 1e-8L * c.scale, "control point " << i); if ((int)i != k) NEAR1(m.ControlPoints[i][3], c.c.ControlPoints[i][3], 1e-12L * c.c.ControlPoints[i][3], "other weight"); }
}
LAW(neighbor_weights, 15000, 500000) {
    auto c = genCurve(g, opt(2)); double t = genParam(g, c.k, false); int s = refSpan(c.c.Degree, c.c.KnotVector, t), k = s - c.c.Degree + g.integer(0, c.c.Degree - 1); ld a = R(c.c, k, t), b = R(c.c, k + 1, t); if (a < 1e-2 || b < 1e-2 || a + b > 0.95) pbt::discard("influence");
    V3 P = refEval(c.c, t), A = cp(c.c, k), B = cp(c.c, k + 1), Q = (A * a + B * b) / (a + b), Rr = (P - Q * (a + b)) / (1 - a - b); if ((A - B).len() < 1e-2 * c.scale || (P - Rr).len() < 1e-2 * c.scale || (Q - P).len() < 1e-2 * c.scale || (A - B).cross(P - Q).len() < 0.05 * (A - B).len() * (P - Q).len() || (A - B).cross(P - Rr).len() < 0.05) pbt::discard("degenerate");
    double d = g.boolean() ? (double)(Q - P).len() * g.real(0.05, 0.9) : -(double)(P - Rr).len() * g.real(0.05, 0.9); if (fabs(d) < 1e-4) pbt::discard("small"); g.tagIf(d < 0, "pushed-away");
    g.note([&](std::ostream& q) { q << "at " << t << " indices " << k << "," << k + 1 << " distance " << d; }); LN_NurbsCurve m; REQUIRE(NurbsCurve::NeighborWeightsModification(c.c, t, k, d, 1.0, m), "refused"); sameFrame(c.c, m, false, "weights");
    V3 dir = (P - Rr) / (P - Rr).len(); NEAR3(refEval(m, t), P + dir * d, 1e-5L * c.scale * c.wr, "moved point"); for (size_t i = 0; i < m.ControlPoints.size(); i++) { NEAR3(cp(m, i), cp(c.c, i), 1e-8L * c.scale, "control point " << i); if ((int)i != k && (int)i != k + 1) NEAR1(m.ControlPoints[i][3], c.c.ControlPoints[i][3], 1e-12L * c.c.ControlPoints[i][3], "other weight"); }
}
LAW(neighbor_weights_last_index, 300, 3000) {
    auto c = genCurve(g, opt(2)); double t = genParam(g, c.k); LN_NurbsCurve m; int k = (int)c.c.ControlPoints.size() - 1 + g.integer(0, 2); g.nontrivial(); bool thrown = false; try { NurbsCurve::NeighborWeightsModification(c.c, t, k, 0.5, 1.0, m); } catch (const std::exception& e) { thrown = true; } REQUIRE(thrown, "there is no neighbour of index " << k);
}
LAW(warping, 10000, 300000) {
    auto c = genRegular(g, opt(2), 1.0); double a = genParam(g, c.k), b = genParam(g, c.k); if (a > b) std::swap(a, b); if (b - a < 1e-3) pbt::discard("empty"); XYZ n = genPoint(g, 1); double half = 0.5 * (a + b); for (double x : c.k.distinct) if (fabs(half - x) < 1e-6 * (1 + fabs(x))) pbt::discard("middle at a knot"); RefDers D = refCurveDers(c.c, half, 1); V3 W = D(1).cross(V3(n)); if (W.len() < 0.05 * D(1).len()) pbt::discard("parallel"); W = W / W.len();
    std::vector<double> f; for (size_t i = 0; i < c.c.ControlPoints.size(); i++) f.push_back(g.real(-1, 2)); double d = g.real(0.1, 4) * (g.boolean() ? 1 : -1); LN_NurbsCurve m; NurbsCurve::Warping(c.c, f, d, n, a, b, m); sameFrame(c.c, m, true, "warp");
    for (double t : probes(c.k.distinct, 2)) { ld s = 0; for (size_t i = 0; i < f.size(); i++) { ld r = R(c.c, (int)i, t); s += r * f[i]; } NEAR3(refEval(m, t), refEval(c.c, t) + W * (s * d), 1e-8L * (c.scale + 10) * c.wr, "warped point at " << t); }
}
static std::vector<int> selected(const Knots& k, const LN_NurbsCurve& c, double a, double b) { int s = refSpan(c.Degree, c.KnotVector, a), e = refSpan(c.Degree, c.KnotVector, b); std::vector<int> r; for (int i = s; i <= e - c.Degree - 1; i++) r.push_back(i); return r; }
static Knots longKnots(Gen& g, int p) { Knots k; k.p = p; int m = g.integer(2, 12); bool mult = g.chance(1, 3); for (int i = 0; i <= m; i++) { double u = i == 0 ? 0 : k.distinct.back() + g.real(0.3, 2); k.distinct.push_back(u); int mu = i == 0 || i == m ? p + 1 : mult ? g.integer(1, p) : 1; k.mult.push_back(mu); for (int j = 0; j < mu; j++) k.U.push_back(u); } return k; }
static GCurve longCurve(Gen& g) { GCurve r; int p = genDegree(g, 1, 4); r.k = longKnots(g, p); r.c.Degree = p; r.c.KnotVector = r.k.U; int n = (int)r.k.U.size() - p - 1; auto P = genPoints(g, n, 10, false); finish(r, P, genWeights(g, n)); g.nontrivial(); g.note([&](std::ostream& s) { s << r.c << " "; }); return r; }
// between two knots: outside of them nothing moves
static void outsideUnchanged(const GCurve& c, const LN_NurbsCurve& m, double a, double b) { for (double t : probes(c.k.distinct, c.c.Degree + 1)) if (t <= a || t >= b) NEAR3(refEval(m, t), refEval(c.c, t), 1e-9L * c.scale * c.wr, "outside [" << a << "," << b << "] at " << t); }
LAW(flattening, 10000, 300000) {
    auto c = longCurve(g); int m = (int)c.k.distinct.size(), i = g.integer(0, m - 2), j = g.integer(i + 1, m - 1); double a = c.k.distinct[i], b = c.k.distinct[j]; XYZ s = genPoint(g, 20), e = genPoint(g, 20); if (s.Distance(e) < 1) pbt::discard("line"); if (g.boolean()) { XYZ d = (e - s).Normalize(); s = s + d * -200.0; e = e + d * 200.0; }
    g.note([&](std::ostream& q) { q << "between " << a << " and " << b << " onto " << s << e; }); LN_NurbsCurve r; bool ok = NurbsCurve::Flattening(c.c, s, e, a, b, r); sameFrame(c.c, r, true, "flattening"); outsideUnchanged(c, r, a, b);
    auto sel = selected(c.k, c.c, a, b); V3 S(s), L = V3(e) - S; ld L2 = L.dot(L); int moved = 0; std::vector<char> on(c.c.ControlPoints.size(), 0), unsure(c.c.ControlPoints.size(), 0);
    for (int q : sel) { V3 Q = cp(c.c, q); ld t = (Q - S).dot(L) / L2; if (fabsl(t) < 1e-5 || fabsl(t - 1) < 1e-5) { unsure[q] = 1; continue; } if (t > 0 && t < 1) { on[q] = 1; moved++; NEAR3(cp(r, q), S + L * t, 1e-8L * (c.scale + 400), "projected control point " << q); } }
    for (size_t q = 0; q < on.size(); q++) if (!on[q] && !unsure[q]) NEAR3(cp(r, q), cp(c.c, q), 1e-9L * c.scale, "control point " << q << " kept"); bool anyUnsure = false; for (char u : unsure) anyUnsure = anyUnsure || u; if (!anyUnsure) REQUIRE(ok == (moved >= c.c.Degree + 1), "returned " << ok << ", " << moved << " control points projected");
    for (int sp = c.c.Degree; sp + 1 < (int)c.c.KnotVector.size() - c.c.Degree; sp++) if (c.c.KnotVector[sp] < c.c.KnotVector[sp + 1]) { bool all = true; for (int q = sp - c.c.Degree; q <= sp; q++) all = all && on[q]; if (all) { g.tag("flat-span"); for (ld f : {0.1L, 0.5L, 0.8L}) { V3 Q = refEval(r, c.c.KnotVector[sp] + f * (c.c.KnotVector[sp + 1] - c.c.KnotVector[sp])) - S; REQUIRE(Q.cross(L).len() / L.len() < 1e-7 * (c.scale + 400), "not on the line"); } } }
}
LAW(bending, 10000, 300000) {
    auto c = longCurve(g); int m = (int)c.k.distinct.size(), i = g.integer(0, m - 2), j = g.integer(i + 1, m - 1); double a = c.k.distinct[i], b = c.k.distinct[j]; XYZ o = genPoint(g, 20); double rad = g.real(0.5, 20), cr = g.chance(1, 3) ? 1.0 : g.real(0.2, 3);
    for (auto& q : c.c.ControlPoints) { ld d = (cp(c.c, (int)(&q - &c.c.ControlPoints[0])) - V3(o)).len(); if (d < 0.5 || fabsl(1 + (cr - 1) * rad / d) < 0.1) pbt::discard("near the centre"); }
    g.note([&](std::ostream& q) { q << "between " << a << " and " << b << " about " << o << " radius " << rad << " ratio " << cr; }); LN_NurbsCurve r; NurbsCurve::Bending(c.c, a, b, o, rad, cr, r); sameFrame(c.c, r, true, "bending"); outsideUnchanged(c, r, a, b); auto sel = selected(c.k, c.c, a, b);
    for (size_t q = 0; q < c.c.ControlPoints.size(); q++) { V3 Q = cp(c.c, (int)q), want = Q; if (std::find(sel.begin(), sel.end(), (int)q) != sel.end()) { g.tag("bent"); ld d = (Q - V3(o)).len(), s = rad / d, t = cr * s / (1 + (cr - 1) * s); want = V3(o) + (Q - V3(o)) * t; if (cr == 1.0) NEAR1((cp(r, (int)q) - V3(o)).len(), rad, 1e-8L * (1 + rad), "on the bend circle"); } NEAR3(cp(r, (int)q), want, 1e-8L * (c.scale + 100) * (1 + want.len()), "control point " << q); }
}
LAW(constraint_based, 10000, 300000) {
    auto o = opt(); o.maxDegree = 5; auto c = genCurve(g, o); int p = c.c.Degree, n = (int)c.c.ControlPoints.size(), np = g.integer(1, std::min(3, n - 1)); std::vector<double> par; for (int i = 0; i < np; i++) { double t = genParam(g, c.k); bool dup = false; for (double x : par) dup = dup || fabs(x - t) < 1e-2 * (c.k.hi() - c.k.lo()); if (dup) pbt::discard("close parameters"); par.push_back(t); }
    std::vector<XYZ> D; std::vector<int> Dr, Dk; for (int i = 0; i < np; i++) { int kmax = g.integer(0, std::min(g.chance(1, 3) ? 4 : 2, p)); for (int k = kmax; k >= 0; k--) if (k == kmax || g.boolean()) { D.push_back(genPoint(g, 3)); Dr.push_back(i); Dk.push_back(k); } } std::vector<int> fix; for (int i = 0; i < n; i++) if (g.chance(1, 6)) fix.push_back(i);
    g.tagIf(!fix.empty(), "fixed-points"); g.tagIf(D.size() > 1, "several-constraints"); for (int k : Dk) g.tagIf(k > 0, "derivative-constraint"), g.tagIf(k > 2, "third-derivative");
    // conditioning of the constrained system
    LMat B(D.size(), std::vector<ld>(n)), G(D.size(), std::vector<ld>(D.size())), Gi; for (size_t i = 0; i < D.size(); i++) for (int j = 0; j < n; j++) { LN_NurbsCurve e = c.c; for (int q = 0; q < n; q++) { e.ControlPoints[q][0] = q == j ? e.ControlPoints[q][3] : 0; e.ControlPoints[q][1] = e.ControlPoints[q][2] = 0; } bool fx = std::find(fix.begin(), fix.end(), j) != fix.end(); B[i][j] = fx ? 0 : refCurveDers(e, par[Dr[i]], Dk[i])(Dk[i]).x; }
    for (size_t i = 0; i < D.size(); i++) for (size_t k = 0; k < D.size(); k++) { ld s = 0; for (int j = 0; j < n; j++) s += B[i][j] * B[k][j]; G[i][k] = s; } if (!refInverse(G, Gi)) pbt::discard("dependent constraints"); ld cond = normInf(G) * normInf(Gi); if (cond > 1e6) pbt::discard("ill-conditioned");
    for (int j = 0; j < n; j++) for (size_t i = 0; i < D.size(); i++) if (B[i][j] != 0 && fabsl(B[i][j]) < 2e-3) pbt::discard("influence below the library's zero tolerance");
    g.note([&](std::ostream& q) { q << "parameters " << par << " constraints " << D << " at " << Dr << " orders " << Dk << " fixed " << fix; }); LN_NurbsCurve r; NurbsCurve::ConstraintBasedModification(c.c, par, D, Dr, Dk, fix, r); sameFrame(c.c, r, true, "constraints");
    for (size_t i = 0; i < D.size(); i++) { V3 got = refCurveDers(r, par[Dr[i]], Dk[i])(Dk[i]) - refCurveDers(c.c, par[Dr[i]], Dk[i])(Dk[i]); NEAR3(got, V3(D[i]), 1e-11L * cond * (10 + c.scale) * c.wr * (1 + normInf(B)) + 1e-7L * (1 + normInf(B)), "change of derivative " << Dk[i] << " at " << par[Dr[i]]); }
    for (int f : fix) NEAR3(cp(r, f), cp(c.c, f), 1e-9L * c.scale, "fixed control point " << f);
    // of all solutions the smallest change: orthogonal to the null space, so dP = B^T y
    LMat y(D.size(), std::vector<ld>(3)); for (size_t i = 0; i < D.size(); i++) for (int q = 0; q < 3; q++) for (size_t k = 0; k < D.size(); k++) y[i][q] += Gi[i][k] * D[k][q]; for (int j = 0; j < n; j++) { V3 dp; for (size_t i = 0; i < D.size(); i++) dp = dp + V3(y[i][0], y[i][1], y[i][2]) * B[i][j]; NEAR3(cp(r, j) - cp(c.c, j), dp, 1e-10L * cond * (10 + c.scale) * c.wr + 1e-8L * (1 + dp.len()), "control point " << j); }
}
// ---- offset
static LN_NurbsCurve convexPlanar(Gen& g, V3& X, V3& Y, ld& kmax, ld& L) {
    LN_NurbsCurve c; X = V3(genPoint(g, 1)); if (X.len() < 0.2) X = V3(1, 0, 0); X = X / X.len(); Y = X.cross(V3(genPoint(g, 1))); if (Y.len() < 0.1) Y = X.cross(fabsl(X.x) < 0.7 ? V3(1, 0, 0) : V3(0, 1, 0)); Y = Y / Y.len(); XYZ o = genPoint(g);
    if (g.boolean()) { double r = g.real(2, 20), s = g.real(0, 6), w = g.real(0.3, 5.5); NurbsCurve::CreateArc(o, X.xyz(), Y.xyz(), s, s + w, r, r, c); kmax = 1 / (ld)r; L = r * w; g.tag("arc"); }
    else { int p = g.integer(2, 4); ld ang = 0; V3 q(o); std::vector<XYZ> P{q.xyz()}; for (int i = 0; i < p; i++) { q = q + (X * cosl(ang) + Y * sinl(ang)) * g.real(3, 6); ang += g.real(0.3, 1.2 * 2 / p); P.push_back(q.xyz()); } c.Degree = p; c.KnotVector.assign(p + 1, 0); c.KnotVector.resize(2 * p + 2, 1); for (auto& x : P) c.ControlPoints.push_back(XYZW(x, 1)); g.tag("convex-bezier"); kmax = 0; for (int i = 0; i <= 200; i++) { RefDers D = refCurveDers(c, i / 200.0L, 2); kmax = std::max(kmax, D(1).cross(D(2)).len() / powl(D(1).len(), 3)); } L = refLength(c, 0, 1); }
    g.nontrivial(); g.note([&](std::ostream& s) { s << c << " "; }); return c;
}
LAW(offset_piegl_tiller, 60, 1500) {
    V3 X, Y; ld kmax, L; LN_NurbsCurve c = convexPlanar(g, X, Y, kmax, L); double d = g.boolean() ? g.real(0.05, 0.6) / (double)kmax : -g.real(0.05, 1) / (double)kmax; if (fabs(d) < 1e-3) pbt::discard("small"); g.tagIf(d > 0, "inwards"); g.note([&](std::ostream& s) { s << "offset " << d; });
    LN_NurbsCurve r; NurbsCurve::Offset(c, d, OffsetType::PieglAndTiller, r); validCurve(r, "offset"); ld lo = c.KnotVector.front(), hi = c.KnotVector.back(), rl = r.KnotVector.front(), rh = r.KnotVector.back();
    auto ideal = [&](ld t) { RefDers D = refCurveDers(c, t, 2); V3 T = D(1) / D(1).len(), N = D(2) - T * D(2).dot(T); N = N / N.len(); return D(0) + N * d; };
    NEAR3(refEval(r, rl), ideal(lo), 1e-5L * (L + 10), "offset start"); NEAR3(refEval(r, rh), ideal(hi), 1e-5L * (L + 10), "offset end");
    std::vector<V3> S; const int N = 600; for (int i = 0; i <= N; i++) S.push_back(refEval(c, lo + (hi - lo) * i / N)); for (int i = 1; i < 40; i++) { V3 q = refEval(r, rl + (rh - rl) * i / 40); ld b = 1e300L; for (auto& s : S) b = std::min(b, (s - q).len()); NEAR1(b, fabsl(d), 5e-3L * fabsl(d) + 1e-3L * L, "distance of the offset from the curve at " << i << "/40"); }
}
LAW(offset_tiller_hanson, 300, 8000) {
    V3 X, Y; ld kmax, L; LN_NurbsCurve c = convexPlanar(g, X, Y, kmax, L); double d = g.boolean() ? g.real(0.05, 0.4) / (double)kmax : -g.real(0.05, 1) / (double)kmax; if (fabs(d) < 1e-3) pbt::discard("small"); g.note([&](std::ostream& s) { s << "offset " << d; });
    LN_NurbsCurve r; NurbsCurve::Offset(c, d, OffsetType::TillerAndHanson, r); validCurve(r, "offset"); ld lo = c.KnotVector.front(), hi = c.KnotVector.back(), rl = r.KnotVector.front(), rh = r.KnotVector.back();
    auto ideal = [&](ld t) { RefDers D = refCurveDers(c, t, 2); V3 T = D(1) / D(1).len(), N = D(2) - T * D(2).dot(T); N = N / N.len(); return D(0) + N * d; };
    NEAR3(refEval(r, rl), ideal(lo), 1e-3L * fabsl(d) + 1e-3, "offset start"); NEAR3(refEval(r, rh), ideal(hi), 1e-3L * fabsl(d) + 1e-3, "offset end");
    std::vector<V3> S; const int N = 600; for (int i = 0; i <= N; i++) S.push_back(refEval(c, lo + (hi - lo) * i / N)); for (int i = 1; i < 40; i++) { V3 q = refEval(r, rl + (rh - rl) * i / 40); ld b = 1e300L; for (auto& s : S) b = std::min(b, (s - q).len()); NEAR1(b, fabsl(d), 0.3L * fabsl(d) + 1e-3L * L, "distance of the offset from the curve at " << i << "/40"); }
}
LAW(no_offset, 500, 20000) { auto c = genCurve(g, opt()); LN_NurbsCurve r; NurbsCurve::Offset(c.c, 0.0, g.boolean() ? OffsetType::PieglAndTiller : OffsetType::TillerAndHanson, r); sameFrame(c.c, r, true, "offset 0"); sameCurve(c.c, c.k.distinct, r, 1e-12L * c.scale, "offset 0"); }
