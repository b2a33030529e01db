#include "gen.h"
const char* pbt::RULE = "random NURBS/B-spline/Bezier curves (degree 1..7, clamped, interior multiplicity up to the degree, weights all 1 or in [0.2,5], several domains) and parameters at ends, exactly at knots and inside spans; non-trivial: the curve has an interior knot or unequal weights (Bezier laws: degree >= 2)";

LAW(nurbs_point_is_the_weighted_basis_combination, 60000, 3000000) {
    auto c = genCurve(g); double t = genParam(g, c.k);
    g.note([&](std::ostream& s) { s << "t=" << t; });
    auto R = refCurveDers(c.c, t, 0);
    ld tol = R.tol(0);
    XYZ got = NurbsCurve::GetPointOnCurve(c.c, t);
    NEAR3(got, R(0), tol, "GetPointOnCurve t=" << t << " " << c.c);
    NEAR3(NurbsCurve::GetPointOnCurveByCornerCut(c.c, t), R(0), tol, "corner cutting t=" << t << " " << c.c);
    // local support and convex hull: within the box of the p+1 control points of the span
    int sp = refSpan(c.c.Degree, c.c.KnotVector, t);
    for (int d = 0; d < 3; d++) {
        double lo = 1e300, hi = -1e300;
        for (int i = sp - c.c.Degree; i <= sp; i++) { double v = c.c.ControlPoints[i][d] / c.c.ControlPoints[i][3]; lo = std::min(lo, v); hi = std::max(hi, v); }
        REQUIRE(got[d] >= lo - tol && got[d] <= hi + tol, "leaves the convex hull of its span: t=" << t << " " << c.c);
    }
    if (t == c.k.lo()) NEAR3(got, c.c.ControlPoints.front().ToXYZ(true), tol, "start point");
    if (t == c.k.hi()) NEAR3(got, c.c.ControlPoints.back().ToXYZ(true), tol, "end point");
}
LAW(bspline_point_in_any_point_type, 30000, 1000000) {
    CurveOpt o; o.weights = WOne; auto c = genCurve(g, o); double t = genParam(g, c.k);
    g.note([&](std::ostream& s) { s << "t=" << t; });
    auto R = refCurveDers(c.c, t, 0);
    LN_BsplineCurve<XYZ> b; b.Degree = c.c.Degree; b.KnotVector = c.c.KnotVector; for (auto& q : c.c.ControlPoints) b.ControlPoints.push_back(q.ToXYZ(true));
    NEAR3(BsplineCurve::GetPointOnCurve(b, t), R(0), R.tol(0), "B-spline curve t=" << t << " " << c.c);
    XYZW h = BsplineCurve::GetPointOnCurve(asBspline(c.c), t);
    NEAR3(h.ToXYZ(false), R(0), R.tol(0), "homogeneous B-spline t=" << t);
    NEAR1(h.GetW(), 1, 1e-12L, "weight");
}
LAW(nurbs_point_commutes_with_affine_maps_of_the_domain, 20000, 600000) {
    // same control points over an affinely mapped knot vector: same points
    auto c = genCurve(g); double t = genParam(g, c.k);
    double a = g.real(0.5, 4), b = g.coord(5);
    g.note([&](std::ostream& s) { s << "t=" << t << " scale=" << a << " shift=" << b; });
    LN_NurbsCurve d = c.c; for (auto& u : d.KnotVector) u = a * u + b;
    double tt = a * t + b; tt = std::min(std::max(tt, d.KnotVector.front()), d.KnotVector.back());
    NEAR3(NurbsCurve::GetPointOnCurve(d, tt), V3(NurbsCurve::GetPointOnCurve(c.c, t)), 1e-8L * c.scale * c.wr, "t=" << t << " " << c.c);
}
LAW(bezier_point, 30000, 1000000) {
    int p = g.integer(1, 9); auto P = genPoints(g, p + 1, 10, true); auto w = genWeights(g, p + 1); double t = g.chance(1, 6) ? (double)g.integer(0, 1) : g.unit();
    g.nontrivial(p >= 2); g.note([&](std::ostream& s) { s << "Bezier degree " << p << " P=" << P << " w=" << w << " t=" << t; });
    LN_BezierCurve<XYZ> b; b.Degree = p; b.ControlPoints = P;
    LN_BezierCurve<XYZW> h; h.Degree = p; V3 s, sw; ld ws = 0;
    for (int i = 0; i <= p; i++) { h.ControlPoints.push_back(XYZW(P[i], w[i])); ld B = refBinom(p, i) * powl(t, i) * powl(1 - (ld)t, p - i); s = s + V3(P[i]) * B; sw = sw + V3(P[i]) * (B * w[i]); ws += B * w[i]; }
    NEAR3(BezierCurve::GetPointOnCurveByBernstein(b, t), s, 1e-10L, "Bernstein form");
    NEAR3(BezierCurve::GetPointOnCurveByDeCasteljau(b, t), s, 1e-10L, "de Casteljau");
    XYZW q1 = BezierCurve::GetPointOnCurveByBernstein(h, t), q2 = BezierCurve::GetPointOnCurveByDeCasteljau(h, t);
    NEAR3(q1.ToXYZ(true), sw / ws, 1e-9L, "rational Bernstein form");
    NEAR3(q2.ToXYZ(true), sw / ws, 1e-9L, "rational de Casteljau");
    NEAR1(q1.GetW(), ws, 1e-10L, "weight function"); NEAR1(q2.GetW(), ws, 1e-10L, "weight function");
}
LAW(quadratic_rational_arc_point, 20000, 600000) {
    auto P = genPoints(g, 3, 10, true); auto w = genWeights(g, 3); double t = g.chance(1, 6) ? (double)g.integer(0, 1) : g.unit();
    g.nontrivial(); g.note([&](std::ostream& s) { s << "P=" << P << " w=" << w << " t=" << t; });
    V3 s; ld ws = 0; for (int i = 0; i < 3; i++) { ld B = refBinom(2, i) * powl(t, i) * powl(1 - (ld)t, 2 - i) * w[i]; s = s + V3(P[i]) * B; ws += B; }
    NEAR3(BezierCurve::GetPointOnQuadraticArc(XYZW(P[0], w[0]), XYZW(P[1], w[1]), XYZW(P[2], w[2]), t), s / ws, 1e-9L, "quadratic arc P=" << P << " w=" << w << " t=" << t);
}
