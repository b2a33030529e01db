// C14: tessellation of curves
#include "gen.h"
const char* pbt::RULE = "the curve has interior knots or unequal weights";
static CurveOpt opt(int minDeg = 1) { CurveOpt o; o.minDegree = minDeg; o.knots.many = false; o.knots.maxInterior = 4; return o; }
static ld paramOfX(const LN_NurbsCurve& c, ld x, ld lo, ld hi) { for (int i = 0; i < 70; i++) { ld m = (lo + hi) / 2; if (refEval(c, m).x < x) lo = m; else hi = m; } return (lo + hi) / 2; }
LAW(tessellation, 160, 6000) {
    auto o = opt(2); auto c = genRegular(g, o, 0.6); if (g.chance(1, 4)) { // point-symmetric pieces (inflection at the parameter middle)
        c.k = genKnots(g, 3, [] { KnotOpt k; k.maxInterior = 0; k.many = false; return k; }()); double y = g.real(0.5, 4), x = g.real(0.5, 2), x0 = g.coord(5); c.c.Degree = 3; c.c.KnotVector = c.k.U; std::vector<XYZ> P{XYZ(x0, 0, 0), XYZ(x0 + x, y, 0), XYZ(x0 + 2 * x, -y, 0), XYZ(x0 + 3 * x, 0, 0)}; finish(c, P, {1, 1, 1, 1}); g.tag("point-symmetric"); g.note([&](std::ostream& s) { s << "point-symmetric " << c.c; }); g.nontrivial(); }
    auto pts = NurbsCurve::Tessellate(c.c); REQUIRE(pts.size() >= 2, "at least two points"); g.tagIf(pts.size() > 100, "more-than-100-points");
    ld tol = 1e-7L * (1 + c.scale) * c.wr; NEAR3(pts.front(), refEval(c.c, c.k.lo()), tol, "first point"); NEAR3(pts.back(), refEval(c.c, c.k.hi()), tol, "last point");
    std::vector<ld> ts; ld prev = c.k.lo(); size_t nk = 0; size_t stride = std::max<size_t>(1, pts.size() / 400);
    // every point lies on the curve, in order of the parameter
    for (size_t i = 0; i < pts.size(); i++) { if (i) REQUIRE(pts[i][0] > pts[i - 1][0] - 1e-9 * (1 + c.scale), "order of points " << i); if (i % stride && i + 1 != pts.size()) { ts.push_back(-1e300L); continue; } ld t = i == 0 ? (ld)c.k.lo() : i + 1 == pts.size() ? (ld)c.k.hi() : paramOfX(c.c, pts[i][0], prev, c.k.hi()); NEAR3(pts[i], refEval(c.c, t), 1e-5L * (1 + c.scale), "point " << i << " off the curve"); ts.push_back(t); prev = t; }
    // every knot is a vertex
    for (double k : c.k.distinct) { V3 q = refEval(c.c, k); while (nk < pts.size() && (V3(pts[nk]) - q).len() > 1e-4L * (1 + c.scale)) nk++; REQUIRE(nk < pts.size(), "knot " << k << " is no vertex"); }
    // chords stay close to the curve
    size_t step = std::max<size_t>(1, pts.size() / 60); for (size_t i = 0; i + 1 < pts.size(); i += step) { ld a = paramOfX(c.c, pts[i][0], c.k.lo(), c.k.hi()), b = paramOfX(c.c, pts[i + 1][0], a, c.k.hi()); for (ld f : {0.2L, 0.35L, 0.5L, 0.7L, 0.85L}) { V3 q = refEval(c.c, a + (b - a) * f), d = V3(pts[i + 1]) - V3(pts[i]), e = q - V3(pts[i]); ld L2 = d.dot(d), s = L2 > 0 ? std::max(0.0L, std::min(1.0L, e.dot(d) / L2)) : 0; ld dev = (e - d * s).len(); REQUIRE(dev < 1e-5L + 1e-9L * c.scale || (b - a < 5e-6L && dev < 1e-4L * (1 + c.scale)), "chord " << i << " of " << pts.size() << " deviates by " << (double)dev); } }
}
LAW(degree_one_tessellation, 1000, 30000) {
    CurveOpt o; o.maxDegree = 1; auto c = genCurve(g, o); auto pts = NurbsCurve::Tessellate(c.c); REQUIRE(pts.size() >= 2, "two points"); size_t k = 0; g.nontrivial();
    for (auto& q : c.c.ControlPoints) { V3 w = V3(XYZ(q[0] / q[3], q[1] / q[3], q[2] / q[3])); while (k < pts.size() && (V3(pts[k]) - w).len() > 1e-7L * (1 + c.scale)) k++; REQUIRE(k < pts.size(), "vertex missing"); }
    REQUIRE(pts.size() == c.c.ControlPoints.size(), "only the vertices");
}
LAW(equal_tessellation, 2500, 80000) {
    auto c = genCurve(g, opt()); std::vector<XYZ> pts; std::vector<double> ks; NurbsCurve::EquallyTessellate(c.c, pts, ks); REQUIRE(pts.size() == ks.size() && pts.size() >= 2, "one parameter per point");
    REQUIRE(fabs(ks.front() - c.k.lo()) < 1e-12 && fabs(ks.back() - c.k.hi()) < 1e-9 * (1 + fabs(c.k.hi())), "covers the domain"); size_t nk = 0; double lastStep = -1;
    for (size_t i = 0; i < ks.size(); i++) { if (i) REQUIRE(ks[i] >= ks[i - 1] - 1e-12, "ordered"); while (nk < c.k.distinct.size() && fabs(ks[i] - c.k.distinct[nk]) < 1e-9 * (1 + fabs(ks[i]))) nk++; }
    REQUIRE(nk == c.k.distinct.size(), "every knot is a sample"); (void)lastStep;
    for (size_t s = 0; s + 1 < c.k.distinct.size(); s++) { double a = c.k.distinct[s], b = c.k.distinct[s + 1]; double h = -1; int cnt = 0; for (size_t i = 0; i + 1 < ks.size(); i++) if (ks[i] >= a - 1e-9 && ks[i + 1] <= b + 1e-9 && ks[i + 1] > ks[i] + 1e-9) { if (h < 0) h = ks[i + 1] - ks[i]; NEAR1(ks[i + 1] - ks[i], h, 1e-6L * (b - a), "equal spacing in the span"); cnt++; } REQUIRE(cnt >= 20, "samples per span: " << cnt); }
    for (size_t i = 0; i < ks.size(); i += 7) NEAR3(pts[i], refEval(c.c, ks[i]), 1e-9L * (1 + c.scale) * c.wr, "point at " << ks[i]);
}
