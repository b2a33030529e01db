#include "gen.h"
const char* pbt::RULE = "random NURBS curves of degree 1..6 (interior multiplicity up to the degree) elevated by 1..4; Bezier-shaped curves elevated by one with the reference formula, optionally perturbed, and reduced; non-trivial: interior knots or unequal weights in the input";

LAW(degree_elevation, 40000, 2000000) {
    CurveOpt o; o.maxDegree = 6; auto c = genCurve(g, o); int p = c.c.Degree, t = g.integer(1, 4);
    g.note([&](std::ostream& s) { s << "elevate by " << t; });
    LN_NurbsCurve r; NurbsCurve::ElevateDegree(c.c, t, r);
    REQUIRE(r.Degree == p + t, "degree " << r.Degree);
    validCurve(r, "ElevateDegree");
    std::vector<double> want; for (size_t i = 0; i < c.k.distinct.size(); i++) for (int j = 0; j < c.k.mult[i] + t; j++) want.push_back(c.k.distinct[i]);
    sameKnots(r.KnotVector, want, "ElevateDegree");
    sameCurve(c.c, c.k.distinct, r, 1e-8L * c.scale * c.wr, "ElevateDegree");
}
static GCurve genBezier(Gen& g, int lo, int hi, WeightMode wm) { CurveOpt o; o.minDegree = lo; o.maxDegree = hi; o.knots.maxInterior = 0; o.knots.many = false; o.weights = wm; return genCurve(g, o); }
static LN_NurbsCurve refElevate(const LN_NurbsCurve& c) {   // Bezier degree elevation by one
    LN_NurbsCurve r; int p = c.Degree; r.Degree = p + 1;
    for (int i = 0; i <= p + 1; i++) { double a = (double)i / (p + 1); XYZW q = i == 0 ? c.ControlPoints[0] : i == p + 1 ? c.ControlPoints[p] : a * c.ControlPoints[i - 1] + (1 - a) * c.ControlPoints[i]; r.ControlPoints.push_back(q); }
    for (int i = 0; i < p + 2; i++) r.KnotVector.push_back(c.KnotVector.front()); for (int i = 0; i < p + 2; i++) r.KnotVector.push_back(c.KnotVector.back());
    return r;
}
LAW(reduction_undoes_elevation, 20000, 600000) {
    auto c = genBezier(g, 1, 6, WAny); g.nontrivial(c.c.Degree >= 2); LN_NurbsCurve e = refElevate(c.c), r;
    REQUIRE(NurbsCurve::ReduceDegree(e, r), "reducible curve refused: " << e);
    validCurve(r, "ReduceDegree"); REQUIRE(r.Degree == c.c.Degree, "degree");
    sameKnots(r.KnotVector, c.c.KnotVector, "ReduceDegree");
    sameCurve(e, c.k.distinct, r, 1e-6L * c.scale * c.wr, "ReduceDegree");
    // library elevation followed by reduction
    LN_NurbsCurve e2, r2; NurbsCurve::ElevateDegree(c.c, 1, e2);
    REQUIRE(NurbsCurve::ReduceDegree(e2, r2), "elevated curve refused");
    validCurve(r2, "ReduceDegree"); sameCurve(c.c, c.k.distinct, r2, 1e-6L * c.scale * c.wr, "ReduceDegree(ElevateDegree)");
}
LAW(reduction_stays_within_tolerance, 20000, 600000) {
    auto c = genBezier(g, 1, 6, WAny); LN_NurbsCurve e = refElevate(c.c), r; int p = e.Degree;
    int i = g.integer(1, p - 1 < 1 ? 1 : p - 1); double mag = std::pow(10.0, -g.integer(0, 6)); XYZ d = genPoint(g, mag);
    double w = e.ControlPoints[i][3]; e.ControlPoints[i] = e.ControlPoints[i] + XYZW(d[0] * w, d[1] * w, d[2] * w, 0);
    g.note([&](std::ostream& s) { s << "perturb control point " << i << " by " << d; });
    bool ok = NurbsCurve::ReduceDegree(e, r);
    if (ok) { g.tag("accepted"); validCurve(r, "ReduceDegree"); REQUIRE(r.Degree == p - 1, "degree"); sameCurve(e, c.k.distinct, r, 1.2e-4L + 1e-6L * c.scale * c.wr, "ReduceDegree"); }
    else {
        g.tag("refused");
        // best possible error of a degree p-1 approximation of the homogeneous polynomial; refusing needs more than rounding noise
        ld need = 0; for (int k = 0; k < 3; k++) { ld df = 0; for (int j = 0; j <= p; j++) df += refBinom(p, j) * (((p - j) & 1) ? -1 : 1) * e.ControlPoints[j][k]; need = std::max(need, fabsl(df) / powl(2, 2 * p - 1)); }
        ld wmin = 1e30L, big = 0; for (auto& q : e.ControlPoints) { wmin = std::min(wmin, (ld)q[3]); for (int k = 0; k < 3; k++) big = std::max(big, fabsl(q[k] / q[3])); }
        REQUIRE(need > std::min(1e-9L, 1e-7L * wmin / (1 + big)), "refused although the curve has degree " << p - 1 << ": " << e);
    }
    // a curve far from any lower degree curve must be refused
    if (!c.rational) { ld need = 0; for (int k = 0; k < 3; k++) { ld df = 0; for (int j = 0; j <= p; j++) df += refBinom(p, j) * (((p - j) & 1) ? -1 : 1) * e.ControlPoints[j][k]; need = std::max(need, fabsl(df) / powl(2, 2 * p - 1)); } ld w0 = e.ControlPoints[0][3]; if (need / w0 > 1e-3L) { g.tag("irreducible"); REQUIRE(!ok, "accepted although every lower degree curve deviates by " << (double)(need / w0)); } }
}
LAW(only_bezier_shaped_curves_of_degree_2_or_more_reduce, 5000, 100000) {
    auto c = genCurve(g); LN_NurbsCurve r;
    if (c.k.distinct.size() == 2 && c.c.Degree > 1) pbt::discard("Bezier shaped");
    REQUIRE(!NurbsCurve::ReduceDegree(c.c, r), "reduced " << c.c);
}
