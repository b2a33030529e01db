// C12: arc length and parameters by arc length
#include "gen.h"
static const bool tame = (extreme() = false);
const char* pbt::RULE = "the curve has interior knots or unequal weights";
static const IntegratorType TYPES[] = {IntegratorType::GaussLegendre, IntegratorType::Simpson, IntegratorType::Chebyshev};
static const char* NAMES[] = {"gauss", "simpson", "chebyshev"};
static CurveOpt opt(int minDeg = 2) { CurveOpt o; o.minDegree = minDeg; o.knots.many = false; o.knots.maxInterior = 4; return o; }
// the integrators have fixed numbers of nodes: the more the speed varies, the coarser the result
static const ld TOL[3][3] = {{2e-5L, 3e-3L, 1e-2L}, {3e-3L, 1.5e-2L, 5e-2L}, {1e-3L, 5e-3L, 2e-2L}};
static ld lengthTol(int type, ld L, int cls) { return TOL[type][cls] * (1 + L); }
// Adaptive Simpson halves an interval until two successive estimates agree within its tolerance, wherever the knots are. Its
// error is bounded by the worst total over all ways of stopping: an interval may be left as it is only where the estimates agree.
struct Adaptive {
    const LN_NurbsCurve& c; ld b;
    ld speed(ld t) const { return refCurveDers(c, t, 1, t >= b ? refSpanLeft(c.Degree, c.KnotVector, b) : refSpan(c.Degree, c.KnotVector, t))(1).len(); }
    ld worst(ld lo, ld hi, ld flo, ld fmid, ld fhi, ld tol, int depth, ld& L) const {
        ld m = (lo + hi) / 2, h = hi - lo, f1 = speed(lo + h / 4), f3 = speed(lo + 3 * h / 4), s1 = h / 6 * (flo + 4 * fmid + fhi), s2 = h / 12 * (flo + 4 * f1 + 2 * fmid + 4 * f3 + fhi), Ll, Lr, w = 0;
        if (depth == 0) { L = refLength(c, lo, hi, 1); return 0; }
        w = worst(lo, m, flo, f1, fmid, tol / 2, depth - 1, Ll) + worst(m, hi, fmid, f3, fhi, tol / 2, depth - 1, Lr); L = Ll + Lr;
        if (fabsl(s2 - s1) <= 30 * tol) w = std::max(w, std::max(fabsl(s2 - L), fabsl(s2 + (s2 - s1) / 15 - L)));
        return w;
    }
};
static ld simpsonTol(const LN_NurbsCurve& c, ld a, ld b) { Adaptive A{c, b}; ld L, w = A.worst(a, b, A.speed(a), A.speed((a + b) / 2), A.speed(b), 1e-4L, 7, L); return w + 1e-3L * (1 + L); }
static GCurve genForLength(Gen& g, int cls) { auto o = opt(); if (cls == 0) { o.weights = WOne; o.maxDegree = 4; } return genRegular(g, o, cls == 0 ? 0.15 : cls == 1 ? 0.3 : 1.0); }
LAW(length, 1500, 60000) {
    int mild = g.integer(0, 2); auto c = genForLength(g, mild); ld L = refLength(c.c, c.k.lo(), c.k.hi());
    for (int t = 0; t < 3; t++) { double l = NurbsCurve::ApproximateLength(c.c, TYPES[t]); NEAR1(l, L, t == 1 ? simpsonTol(c.c, c.k.lo(), c.k.hi()) : lengthTol(t, L, mild), NAMES[t]); }
}
LAW(length_between, 1500, 60000) {
    int mild = g.integer(0, 2); auto c = genForLength(g, mild); double a = genParam(g, c.k), b = genParam(g, c.k); if (a > b) std::swap(a, b); if (b - a < 1e-2 * (c.k.hi() - c.k.lo())) pbt::discard("empty interval");
    int t = g.integer(0, 2); ld L = refLength(c.c, a, b); double l = NurbsCurve::ApproximateLength(c.c, a, b, TYPES[t]); NEAR1(l, L, t == 1 ? simpsonTol(c.c, a, b) : lengthTol(t, L, mild), NAMES[t] << " from " << a << " to " << b);
}
LAW(length_of_shapes, 3000, 100000) {
    LN_NurbsCurve c; ld L; int k = g.integer(0, 2); int t = g.integer(0, 2); g.nontrivial();
    if (k == 0) { XYZ a = genPoint(g), b = genPoint(g); if (a.Distance(b) < 0.1) pbt::discard("short"); NurbsCurve::CreateLine(a, b, c); L = (V3(a) - V3(b)).len(); g.tag("line"); }
    else if (k == 1) { double r = g.real(0.5, 50), s = g.real(-7, 7), w = g.real(0.1, 6.28); NurbsCurve::CreateArc(genPoint(g), XYZ(1, 0, 0), XYZ(0, 1, 0), s, s + w, r, r, c); L = (ld)r * w; g.tag("arc"); }
    else { // degree one or higher, all control points on one line, possibly folding back
        int p = g.integer(1, 5); Knots kn = genKnots(g, p); int n = (int)kn.U.size() - p - 1; XYZ d = genPoint(g, 1); if (d.Length() < 0.1) pbt::discard("direction"); XYZ o = genPoint(g); bool fold = g.boolean(); std::vector<XYZ> P; double x = 0; for (int i = 0; i < n; i++) { P.push_back(o + d * x); x += fold ? g.coord(5) : g.real(0.2, 5); }
        GCurve gc; gc.c.Degree = p; gc.c.KnotVector = kn.U; finish(gc, P, genWeights(g, n)); c = gc.c; g.note([&](std::ostream& s) { s << c; });
        if (fold) { g.tag("folding-line"); if (p == 1) { L = 0; for (int i = 0; i + 1 < n; i++) L += (V3(P[i]) - V3(P[i + 1])).len(); } else L = refLength(c, c.KnotVector.front(), c.KnotVector.back(), 400); } else { g.tag("straight-line"); L = (V3(P.front()) - V3(P.back())).len(); }
        if (fold && p > 1) { for (int q = 0; q < 3; q++) { double l = NurbsCurve::ApproximateLength(c, TYPES[q]); NEAR1(l, L, (q == 1 ? simpsonTol(c, c.KnotVector.front(), c.KnotVector.back()) : 0) + 0.05L * (1 + L), NAMES[q] << " folding line"); } return; }
    }
    double l = NurbsCurve::ApproximateLength(c, TYPES[t]); NEAR1(l, L, k == 1 && t == 1 ? simpsonTol(c, c.KnotVector.front(), c.KnotVector.back()) : (t == 0 ? 1e-6L : 1e-3L) * (1 + L), NAMES[t] << " " << k);
}
LAW(parameter_at_length, 500, 20000) {
    auto c = genRegular(g, opt(), 0.5); int t = g.chance(1, 4) ? g.integer(1, 2) : 0; ld L = refLength(c.c, c.k.lo(), c.k.hi()); double want = g.chance(1, 6) ? (g.boolean() ? 1.5 : 1.001) * (double)L + 0.01 : (double)L * g.real(0.02, 0.98);
    g.note([&](std::ostream& s) { s << "length " << want << " of " << (double)L; });
    if (t == 1) t = 2; double u = NurbsCurve::GetParamOnCurve(c.c, want, TYPES[t]); REQUIRE(u >= c.k.lo() && u <= c.k.hi(), "parameter " << u);
    if (want > L * 1.0005 && t != 1) REQUIRE(u == c.k.hi(), "longer than the curve: " << u);
    if (want < L) { ld l = refLength(c.c, c.k.lo(), u); NEAR1(l, want, 3e-4L * (1 + want) + lengthTol(t, L, 1), "length up to the parameter"); }
}
LAW(parameters_at_equal_lengths, 200, 8000) {
    auto c = genRegular(g, opt(), 0.5); ld L = refLength(c.c, c.k.lo(), c.k.hi()); int t = g.chance(1, 4) ? 2 : 0; double want = (double)L / g.real(1.2, 7.7); if (g.chance(1, 8)) want = (double)L * 1.3; g.note([&](std::ostream& s) { s << "length " << want << " of " << (double)L; });
    auto r = NurbsCurve::GetParamsOnCurve(c.c, want, TYPES[t]); double prev = c.k.lo(); ld tol = 3e-4L * (1 + want) + lengthTol(t, L, 1);
    for (double u : r) { REQUIRE(u > prev && u <= c.k.hi(), "increasing parameters"); NEAR1(refLength(c.c, prev, u), want, tol, "piece ending at " << u); prev = u; }
    REQUIRE(refLength(c.c, prev, c.k.hi()) <= want + tol, "rest is longer than a piece");
}
LAW(no_length, 300, 10000) {
    auto c = genRegular(g, opt(), 0.5); double want = -g.real(0.01, 1); g.note([&](std::ostream& s) { s << "length " << want; });
    double u = NurbsCurve::GetParamOnCurve(c.c, g.boolean() ? 0.0 : want); REQUIRE(u >= c.k.lo() && refLength(c.c, c.k.lo(), u) < 1e-3 * (1 + c.scale), "no length gives the start, got " << u);
    auto r = NurbsCurve::GetParamsOnCurve(c.c, want); REQUIRE(r.empty(), "no pieces of negative length");
}
FINDING(simpson_circle) {
    LN_NurbsCurve c; NurbsCurve::CreateArc(XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 2 * Constants::Pi, 10, 10, c);
    NEAR1(NurbsCurve::ApproximateLength(c, IntegratorType::Simpson), 20 * acosl(-1.0L), 1e-2L, "length of a full circle by Simpson");
}
