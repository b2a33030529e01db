// C13: closest-point parameters on curves
#include "gen.h"
const char* pbt::RULE = "the curve has interior knots or unequal weights";
static const bool tame = (extreme() = false);   // the library samples each span at 100 parameters: a span crossed within a fraction of one step is out of its reach
static CurveOpt opt() { CurveOpt o; o.knots.many = false; o.knots.maxInterior = 4; return o; }
struct Near { ld d; ld t; };
static Near nearest(const LN_NurbsCurve& c, const std::vector<double>& distinct, const V3& q) {
    Near b{1e300L, 0}; for (size_t i = 0; i + 1 < distinct.size(); i++) { const int N = 300; ld lo = distinct[i], h = ((ld)distinct[i + 1] - lo) / N; std::vector<ld> d(N + 1); for (int k = 0; k <= N; k++) { d[k] = (refEval(c, lo + h * k) - q).len(); if (d[k] < b.d) b = {d[k], lo + h * k}; } }
    return b;
}
LAW(recovers_points_of_the_curve, 3000, 150000) {
    auto c = g.chance(2, 3) ? genRegular(g, opt(), 1.0) : genCurve(g, opt()); double t = genParam(g, c.k); V3 q = refEval(c.c, t); g.note([&](std::ostream& s) { s << "parameter " << t << " point " << q; });
    double u = NurbsCurve::GetParamOnCurve(c.c, q.xyz()); REQUIRE(u >= c.k.lo() && u <= c.k.hi(), "parameter " << u << " outside the domain");
    NEAR3(refEval(c.c, u), q, 2e-4L * (1 + c.scale), "point at the returned parameter " << u << " for " << t);
}
LAW(newton_accuracy, 3000, 150000) {   // smooth regular curves: points are recovered to the distance tolerance
    auto o = opt(); o.minDegree = 3; o.knots.maxMult = 1; auto c = genRegular(g, o, 0.5); double t = genParam(g, c.k, false); V3 q = refEval(c.c, t); g.note([&](std::ostream& s) { s << "parameter " << t << " point " << q; });
    double u = NurbsCurve::GetParamOnCurve(c.c, q.xyz()); ld d = (refEval(c.c, u) - q).len(); REQUIRE(d < 1.5e-4L, "distance " << (double)d << " at " << u << " for " << t);
    bool hit = false; auto r = NurbsCurve::GetAllParamsOnCurve(c.c, q.xyz()); for (double v : r) hit = hit || (refEval(c.c, v) - q).len() < 1e-4L * (1 + c.scale); REQUIRE(hit, "all parameters " << r << " for " << t);
    // off the curve: the returned point is the foot of a perpendicular (or an end of the domain)
    RefDers D = refCurveDers(c.c, t, 2); V3 n = D(1).cross(V3(genPoint(g, 1))); if (n.len() < 1e-3 * D(1).len()) pbt::discard("no normal"); n = n / n.len(); ld k = D(1).cross(D(2)).len() / powl(D(1).len(), 3); ld off = std::min(0.2L * c.scale, 0.3L / (k + 1e-6L)); V3 q2 = q + n * off;
    double w = NurbsCurve::GetParamOnCurve(c.c, q2.xyz()); if (w > c.k.lo() && w < c.k.hi()) { RefDers E = refCurveDers(c.c, w, 1); ld along = (E(0) - q2).dot(E(1)) / E(1).len(); bool atKnot = false; for (double x : c.k.distinct) atKnot = atKnot || fabs(w - x) < 1e-9; if (!atKnot && fabsl(w - t) * E(1).len() < 0.5L * off) { REQUIRE(fabsl(along) < 5e-4L, "not perpendicular: " << (double)along << " at " << w); g.tag("perpendicular-foot"); } }
}
LAW(closest_point, 1500, 60000) {
    auto c = g.chance(2, 3) ? genRegular(g, opt(), 1.0) : genCurve(g, opt()); V3 q(genPoint(g, c.scale * 1.5)); if (g.chance(1, 4)) q = refEval(c.c, genParam(g, c.k)) + V3(genPoint(g, c.scale * 0.05)); g.note([&](std::ostream& s) { s << "point " << q; });
    double u = NurbsCurve::GetParamOnCurve(c.c, q.xyz()); REQUIRE(u >= c.k.lo() && u <= c.k.hi(), "parameter " << u << " outside the domain");
    Near b = nearest(c.c, c.k.distinct, q); ld d = (refEval(c.c, u) - q).len(); REQUIRE(d <= b.d + 5e-3L * (c.scale), "distance " << (double)d << " at " << u << ", but " << (double)b.d << " at " << (double)b.t);
}
LAW(all_parameters_of_a_point, 1500, 60000) {   // every parameter whose point is the given one
    auto c = genRegular(g, opt(), 1.0); double t = genParam(g, c.k); V3 q = refEval(c.c, t); g.note([&](std::ostream& s) { s << "parameter " << t; });
    LN_ArcInfo ai; auto r = NurbsCurve::GetAllParamsOnCurve(c.c, q.xyz()); bool hit = false; for (double u : r) { REQUIRE(u >= c.k.lo() && u <= c.k.hi(), "parameter " << u << " outside the domain"); if ((refEval(c.c, u) - q).len() < 1e-4L * (1 + c.scale)) hit = true; }
    REQUIRE(hit, "parameter " << t << " missed: " << r);
    for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) REQUIRE(fabs(r[i] - r[j]) > 1e-7, "duplicates " << r);
}
LAW(all_parameters_of_a_crossing, 1500, 60000) {   // a plane curve through one point twice
    int p = g.integer(2, 4), m = g.integer(1, 4); double s = g.real(0.5, 3), h = g.real(0.5, 3); XYZ o = genPoint(g); LN_NurbsCurve c; (void)p;
    // cubic loop through o twice: x = s(t^2-1)... in Bezier form on [-a,a], a > 1
    double a = g.real(1.2, 2.5); auto B = [&](double x0, double x1, double x2, double x3) { return std::array<double, 4>{x0, x1, x2, x3}; }; (void)m;
    // x(t) = s (t^2 - 1), y(t) = h t (t^2 - 1); blossoms over [-a,a]
    auto bx = [&](double u, double v, double w) { return s * ((u * v + u * w + v * w) / 3 - 1); }; auto by = [&](double u, double v, double w) { return h * (u * v * w - (u + v + w) / 3); };
    auto X = B(bx(-a, -a, -a), bx(-a, -a, a), bx(-a, a, a), bx(a, a, a)), Y = B(by(-a, -a, -a), by(-a, -a, a), by(-a, a, a), by(a, a, a));
    c.Degree = 3; c.KnotVector = {-a, -a, -a, -a, a, a, a, a}; for (int i = 0; i < 4; i++) c.ControlPoints.push_back(XYZW(o + XYZ(X[i], Y[i], 0), 1)); g.nontrivial(); g.note([&](std::ostream& q) { q << c; });
    if (g.boolean()) { LN_NurbsCurve e; NurbsCurve::ElevateDegree(c, 1, e); c = e; } if (g.boolean()) { LN_NurbsCurve e; NurbsCurve::InsertKnot(c, g.real(-0.9, 0.9) * a, 1, e); c = e; }
    auto r = NurbsCurve::GetAllParamsOnCurve(c, o); for (double want : {-1.0, 1.0}) { bool hit = false; for (double u : r) hit = hit || fabs(u - want) < 1e-4; REQUIRE(hit, "parameter " << want << " missed: " << r); }
    double u = NurbsCurve::GetParamOnCurve(c, o); REQUIRE(fabs(fabs(u) - 1) < 1e-3, "one parameter " << u);
}
LAW(local_minima_listed, 800, 30000) {   // the closest point of an off-curve point is among all parameters
    CurveOpt o = opt(); o.knots.maxMult = 1; o.minDegree = 3; auto c = genRegular(g, o, 0.7); V3 q(genPoint(g, c.scale)); g.note([&](std::ostream& s) { s << "point " << q; }); Near b = nearest(c.c, c.k.distinct, q);
    LN_ArcInfo ai; auto r = NurbsCurve::GetAllParamsOnCurve(c.c, q.xyz()); ld d = 1e300L; for (double u : r) { REQUIRE(u >= c.k.lo() && u <= c.k.hi(), "parameter " << u << " outside the domain"); d = std::min(d, (refEval(c.c, u) - q).len()); }
    REQUIRE(d <= b.d + 5e-3L * c.scale, "closest listed " << (double)d << ", but " << (double)b.d << " at " << (double)b.t << ": " << r);
}
LAW(parameters_on_a_closed_curve, 1500, 60000) {   // the two ends of a closed curve are one point and one parameter
    double R = g.real(0.5, 8), ry = g.boolean() ? R : R * g.real(0.6, 1.6), ph = g.coord(3); XYZ o = genPoint(g); LN_NurbsCurve c; if (!NurbsCurve::CreateArc(o, XYZ(cos(ph), sin(ph), 0), XYZ(-sin(ph), cos(ph), 0), 0, 2 * Constants::Pi, R, ry, c)) pbt::discard("refused");
    double lo = g.chance(1, 3) ? 0 : g.coord(4), hi = lo + g.real(0.5, 4); { LN_NurbsCurve t; NurbsCurve::Reparametrize(c, lo, hi, t); c = t; } lo = c.KnotVector.front(); hi = c.KnotVector.back(); g.nontrivial();
    bool seam = g.chance(2, 3); double t = seam ? (g.boolean() ? lo : hi) : lo + (hi - lo) * g.real(0.05, 0.95); V3 q = refEval(c, t); g.tagIf(seam, "seam"); g.note([&](std::ostream& s) { s << c << " at " << t; });
    auto r = NurbsCurve::GetAllParamsOnCurve(c, q.xyz()); int n = 0; for (double u : r) { REQUIRE(u >= lo && u <= hi, "parameter " << u << " outside the domain"); if ((refEval(c, u) - q).len() < 1e-4L * R) n++; } REQUIRE(n == 1, n << " parameters for one point of a closed curve: " << r);
    double u = NurbsCurve::GetParamOnCurve(c, q.xyz()); REQUIRE(u >= lo && u <= hi && (refEval(c, u) - q).len() < 1e-4L * R, "one parameter " << u);
    // just beside the seam, and off the curve there: the search may step across the seam and has to come back on the other side
    double e = (hi - lo) * std::pow(10.0, g.real(-7, -1.5)); t = g.boolean() ? lo + e : hi - e; q = refEval(c, t); if (g.boolean()) { g.tag("off the curve at the seam"); q = q + (q - V3(o)) * g.real(-0.3, 1); } u = NurbsCurve::GetParamOnCurve(c, q.xyz()); ld best = (refEval(c, t) - q).len(); REQUIRE(u >= lo && u <= hi && (refEval(c, u) - q).len() < best + 1e-4L * std::max(R, 1.0), "parameter " << u << " of a point beside the seam, at " << t << ", is " << (double)(refEval(c, u) - q).len() << " away, not " << (double)best);
}
