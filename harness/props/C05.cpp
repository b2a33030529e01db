#include "gen.h"
const char* pbt::RULE = "random NURBS curves; a knot is inserted 1..k times (new or existing, at times one that makes only part of the requested removals possible) and removed again, or an arbitrary interior knot of an arbitrary curve is removed; non-trivial: interior knots or unequal weights in the input";

// deviation allowed by the documented distance tolerance (1e-4), see DESIGN.md
static ld budget(const GCurve& c, int times) {
    ld mw = 1, md = 0; for (auto& q : c.c.ControlPoints) { mw = std::min(mw, (ld)q[3]); md = std::max(md, V3(q.ToXYZ(true)).len()); }
    return times * (1.5e-4L + 4e-6L * (1 + md) / mw);
}
static std::vector<double> without(std::vector<double> U, double u, int t) { for (int k = 0; k < t; k++) { auto it = std::find(U.begin(), U.end(), u); if (it != U.end()) U.erase(it); } return U; }

LAW(removal_undoes_insertion, 40000, 2000000) {
    CurveOpt o; o.knots.many = false; o.knots.maxMult = 2; auto c = genCurve(g, o); int p = c.c.Degree;
    double u; int s = 0;
    if (c.k.distinct.size() > 2 && g.chance(1, 2)) { int i = g.integer(1, (int)c.k.distinct.size() - 2); u = c.k.distinct[i]; s = c.k.mult[i]; g.tag("existing-knot"); }
    else { int i = g.integer(0, (int)c.k.distinct.size() - 2); double f = 0.1 + 0.8 * g.unit(); u = c.k.distinct[i] + f * (c.k.distinct[i + 1] - c.k.distinct[i]); }
    if (s >= p) pbt::discard("no room");
    int ins = g.integer(1, p - s), rem = g.integer(1, ins);
    g.note([&](std::ostream& os) { os << "insert " << u << " x" << ins << " remove x" << rem; });
    g.tagIf(rem > 1, "several-removals");
    LN_NurbsCurve a; if (NurbsCurve::InsertKnot(c.c, u, ins, a) != ins) pbt::fail("InsertKnot did not insert");
    LN_NurbsCurve r; bool ok = NurbsCurve::RemoveKnot(a, u, rem, r);
    REQUIRE(ok, "removal of " << rem << " of " << ins << " inserted knots " << u << " refused; curve " << c.c);
    validCurve(r, "RemoveKnot");
    sameKnots(r.KnotVector, without(a.KnotVector, u, rem), "RemoveKnot");
    sameCurve(a, distinctOf(a.KnotVector, c.k.lo(), c.k.hi()), r, 1e-6L * c.scale * c.wr, "RemoveKnot after InsertKnot");
    if (rem == ins) for (size_t i = 0; i < r.ControlPoints.size(); i++) NEAR3(r.ControlPoints[i].ToXYZ(true), V3(c.c.ControlPoints[i].ToXYZ(true)), 1e-5L * c.scale * c.wr, "control point " << i << " restored");
}
LAW(removal_never_distorts_the_curve, 30000, 1500000) {
    CurveOpt o; o.knots.many = false; auto c = genCurve(g, o); if (c.k.distinct.size() < 3) pbt::discard("no interior knot");
    int i = g.integer(1, (int)c.k.distinct.size() - 2); double u = c.k.distinct[i]; int s = c.k.mult[i], p = c.c.Degree;
    LN_NurbsCurve a = c.c; int extra = 0;
    if (s < p && g.boolean()) { extra = g.integer(1, p - s); LN_NurbsCurve b; NurbsCurve::InsertKnot(c.c, u, extra, b); a = b; g.tag("partly-removable"); }
    int times = g.integer(1, s + extra + 1);
    g.note([&](std::ostream& os) { os << "remove " << u << " x" << times << " (multiplicity " << s << "+" << extra << ")"; });
    LN_NurbsCurve r; bool ok = NurbsCurve::RemoveKnot(a, u, times, r);
    if (!ok) { g.tag("refused"); REQUIRE(extra == 0, "an inserted knot is removable; removal of " << u << " x" << times << " refused in " << c.c << " after inserting it x" << extra); return; }
    g.tag("accepted");
    if (extra > 0) validCurve(r, "RemoveKnot");
    REQUIRE(r.Degree == p && r.KnotVector.size() == r.ControlPoints.size() + p + 1, "sizes of the result: " << r);
    int t = (int)a.ControlPoints.size() - (int)r.ControlPoints.size();
    REQUIRE(t >= 1 && t <= times && t <= s + extra, "removed " << t << " of " << times);
    sameKnots(r.KnotVector, without(a.KnotVector, u, t), "RemoveKnot");
    if (extra == 0) {
        // known finding remove_knot_forced: a knot that is not removable may be forced out, with distortion
        NEAR3(r.ControlPoints.front().ToXYZ(true), V3(a.ControlPoints.front().ToXYZ(true)), 1e-9L * c.scale, "start point kept"); NEAR3(r.ControlPoints.back().ToXYZ(true), V3(a.ControlPoints.back().ToXYZ(true)), 1e-9L * c.scale, "end point kept");
        return;
    }
    REQUIRE(t >= std::min(times, extra), "removed only " << t << " of " << extra << " removable knots (asked " << times << ")");
    sameCurve(a, distinctOf(a.KnotVector, c.k.lo(), c.k.hi()), r, budget(c, t) + 1e-6L * c.scale * c.wr, "RemoveKnot");
}
FINDING(remove_knot_forced) {
    LN_NurbsCurve c, r; c.Degree = 3; c.KnotVector = {0, 0, 0, 0, 0.33, 0.66, 1, 1, 1, 1};
    c.ControlPoints = {XYZW(5, 5, 0, 1), XYZW(10, 10, 0, 1), XYZW(20, 15, 0, 1), XYZW(35, 15, 0, 1), XYZW(45, 10, 0, 1), XYZW(50, 5, 0, 1)};
    if (NurbsCurve::RemoveKnot(c, 0.66, 1, r)) NEAR3(refEval(r, 0.7), refEval(c, 0.7), 1e-3L, "RemoveKnot(0.66) reports success but moves the curve");
}
LAW(end_or_absent_knots_are_not_removed, 5000, 100000) {
    CurveOpt o; o.knots.many = false; auto c = genCurve(g, o);
    int i = g.integer(0, (int)c.k.distinct.size() - 2); double u = c.k.distinct[i] + (0.1 + 0.8 * g.unit()) * (c.k.distinct[i + 1] - c.k.distinct[i]);
    if (g.chance(1, 3)) u = g.boolean() ? c.k.lo() : c.k.hi();
    g.note([&](std::ostream& os) { os << "remove " << u; });
    LN_NurbsCurve r; REQUIRE(!NurbsCurve::RemoveKnot(c.c, u, 1, r), "removal of " << u << " reported from " << c.c);
}
LAW(remove_excessive_knots, 10000, 400000) {
    CurveOpt o; o.knots.many = false; o.knots.maxMult = 1; o.minDegree = 2; o.maxDegree = 7; auto c = genCurve(g, o); int p = c.c.Degree;
    std::vector<double> x; std::set<double> pos;
    int n = g.integer(1, 3);
    for (int j = 0; j < n; j++) {
        double u; int room = p;
        if (c.k.distinct.size() > 2 && g.boolean()) { u = c.k.distinct[g.integer(1, (int)c.k.distinct.size() - 2)]; room = p - 1; }
        else { int i = g.integer(0, (int)c.k.distinct.size() - 2); u = c.k.distinct[i] + (c.k.distinct[i + 1] - c.k.distinct[i]) * g.integer(1, 3) / 4.0; }
        if (!pos.insert(u).second) continue;
        int m = g.integer(1, room); for (int k = 0; k < m; k++) x.push_back(u);
    }
    std::sort(x.begin(), x.end());
    g.note([&](std::ostream& os) { os << "refined with " << x; });
    LN_NurbsCurve a, r; NurbsCurve::RefineKnotVector(c.c, x, a);
    NurbsCurve::RemoveExcessiveKnots(a, r);
    validCurve(r, "RemoveExcessiveKnots");
    // every knot of the refined curve is removable down to multiplicity one
    std::vector<double> want = c.c.KnotVector; for (double u : pos) if (std::find(want.begin(), want.end(), u) == want.end()) want.push_back(u);
    std::sort(want.begin(), want.end());
    sameKnots(r.KnotVector, want, "RemoveExcessiveKnots");
    sameCurve(c.c, distinctOf(r.KnotVector, c.k.lo(), c.k.hi()), r, 1e-5L * c.scale * c.wr, "RemoveExcessiveKnots");
}
LAW(almost_excessive_knots_stay_unless_harmless, 10000, 400000) {   // a repeated knot with a slightly moved control point: removed only within the distance tolerance
    CurveOpt o; o.knots.many = false; o.knots.maxMult = 1; o.minDegree = 2; o.maxDegree = 7; auto c = genCurve(g, o); int p = c.c.Degree; g.nontrivial();
    if (g.boolean()) { double f = std::pow(10.0, -g.real(0, 1.5)); for (auto& q : c.c.ControlPoints) q = q * f; g.tag("small-weights"); }
    int i = g.integer(0, (int)c.k.distinct.size() - 2); double u = c.k.distinct[i] + (c.k.distinct[i + 1] - c.k.distinct[i]) * g.integer(1, 3) / 4.0; int m = g.integer(2, p);
    LN_NurbsCurve a, r; if (NurbsCurve::InsertKnot(c.c, u, m, a) != m) pbt::fail("InsertKnot did not insert");
    int at = g.integer(1, (int)a.ControlPoints.size() - 2); XYZ d = genPoint(g, std::pow(10.0, -g.real(1, 6))); auto& P = a.ControlPoints[at]; double w = P[3]; P = P + XYZW(d[0] * w, d[1] * w, d[2] * w, 0);
    g.note([&](std::ostream& os) { os << "knot " << u << " x" << m << ", control point " << at << " moved by " << d << ": " << a; });
    NurbsCurve::RemoveExcessiveKnots(a, r); validCurve(r, "RemoveExcessiveKnots"); int t = (int)a.ControlPoints.size() - (int)r.ControlPoints.size(); g.tag(t == m - 1 ? "removed" : t ? "partly-removed" : "kept"); REQUIRE(t >= 0 && t <= m - 1, "removed " << t); sameKnots(r.KnotVector, without(a.KnotVector, u, t), "RemoveExcessiveKnots");
    GCurve b = c; b.c = a; sameCurve(a, distinctOf(a.KnotVector, c.k.lo(), c.k.hi()), r, budget(b, t) + 1e-9L * c.scale * c.wr, "RemoveExcessiveKnots of almost removable knots");
}
