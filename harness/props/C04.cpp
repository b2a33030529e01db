#include "gen.h"
const char* pbt::RULE = "random NURBS curves (degree 1..7, interior multiplicity up to the degree, rational or not) and random insertions (new knots, existing knots up to full multiplicity, requests beyond it, refinement lists with repeats); results are compared with the original at degree+2 parameters of every span; non-trivial: interior knots or unequal weights in the input";

static ld tolOf(const GCurve& c) { return 1e-9L * c.scale * c.wr; }
static std::vector<double> sortedPlus(std::vector<double> U, const std::vector<double>& x) { U.insert(U.end(), x.begin(), x.end()); std::sort(U.begin(), U.end()); return U; }

LAW(insert_knot, 40000, 2000000) {
    auto c = genCurve(g); int p = c.c.Degree;
    double u; int s = 0;
    if (c.k.distinct.size() > 2 && g.chance(1, 2)) { int i = g.integer(1, (int)c.k.distinct.size() - 2); u = c.k.distinct[i]; s = c.k.mult[i]; g.tag("existing-knot"); }
    else { int i = g.integer(0, (int)c.k.distinct.size() - 2); double f = 0.05 + 0.9 * g.unit(); u = c.k.distinct[i] + f * (c.k.distinct[i + 1] - c.k.distinct[i]); }
    int times = g.integer(1, p + 3);
    g.tagIf(s + times > p, "beyond-full-multiplicity");
    g.note([&](std::ostream& o) { o << "insert " << u << " x" << times; });
    LN_NurbsCurve r; int got = NurbsCurve::InsertKnot(c.c, u, times, r);
    if (s + times <= p) REQUIRE(got == times, "inserted " << got << " of " << times << " at " << u << " (multiplicity " << s << ") in " << c.c);
    else REQUIRE(got >= 0 && got <= times && s + got >= p && s + got <= p + 1, "inserted " << got << " of " << times << " at " << u << " (multiplicity " << s << ") in " << c.c);
    validCurve(r, "InsertKnot");
    REQUIRE(r.Degree == p, "degree " << r.Degree);
    sameKnots(r.KnotVector, sortedPlus(c.c.KnotVector, std::vector<double>(got, u)), "InsertKnot");
    sameCurve(c.c, distinctOf(r.KnotVector, c.k.lo(), c.k.hi()), r, tolOf(c), "InsertKnot");
}
LAW(insert_at_domain_end, 4000, 100000) {
    auto c = genCurve(g); double u = g.boolean() ? c.k.lo() : c.k.hi(); LN_NurbsCurve r;
    int times = g.integer(1, 3);
    g.note([&](std::ostream& o) { o << "insert " << u << " x" << times; });
    int got = NurbsCurve::InsertKnot(c.c, u, times, r);
    REQUIRE(got == 0, "end knot of a clamped curve already has full multiplicity, inserted " << got);
    validCurve(r, "InsertKnot at end"); sameKnots(r.KnotVector, c.c.KnotVector, "InsertKnot at end");
    sameCurve(c.c, c.k.distinct, r, tolOf(c), "InsertKnot at end");
}
static std::vector<double> genInsertions(Gen& g, const Knots& k, int cap) {
    std::map<double, int> used; for (size_t i = 0; i < k.distinct.size(); i++) used[k.distinct[i]] = k.mult[i];
    std::vector<double> x; int n = g.integer(1, 6);
    for (int j = 0; j < n; j++) {
        double u;
        if (k.distinct.size() > 2 && g.chance(1, 3)) u = k.distinct[g.integer(1, (int)k.distinct.size() - 2)];
        else { int i = g.integer(0, (int)k.distinct.size() - 2); int f = g.integer(1, 9); u = k.distinct[i] + (k.distinct[i + 1] - k.distinct[i]) * f / 10.0; }
        int m = g.integer(1, 2);
        while (m-- > 0 && used[u] < cap) { used[u]++; x.push_back(u); }
    }
    std::sort(x.begin(), x.end()); return x;
}
LAW(refine_knot_vector, 40000, 2000000) {
    auto c = genCurve(g); auto x = genInsertions(g, c.k, c.c.Degree); if (x.empty()) pbt::discard("nothing to insert");
    g.note([&](std::ostream& o) { o << "refine with " << x; });
    LN_NurbsCurve r; NurbsCurve::RefineKnotVector(c.c, x, r);
    validCurve(r, "RefineKnotVector"); REQUIRE(r.Degree == c.c.Degree, "degree");
    sameKnots(r.KnotVector, sortedPlus(c.c.KnotVector, x), "RefineKnotVector");
    sameCurve(c.c, distinctOf(r.KnotVector, c.k.lo(), c.k.hi()), r, tolOf(c), "RefineKnotVector");
}
LAW(refine_equals_repeated_insertion, 10000, 300000) {
    auto c = genCurve(g); auto x = genInsertions(g, c.k, c.c.Degree); if (x.empty()) pbt::discard("nothing to insert");
    g.note([&](std::ostream& o) { o << "refine with " << x; });
    LN_NurbsCurve r, cur = c.c; NurbsCurve::RefineKnotVector(c.c, x, r);
    for (double u : x) { LN_NurbsCurve n; REQUIRE(NurbsCurve::InsertKnot(cur, u, 1, n) == 1, "insert " << u); cur = n; }
    REQUIRE(r.ControlPoints.size() == cur.ControlPoints.size(), "sizes");
    for (size_t i = 0; i < r.ControlPoints.size(); i++) { NEAR3(r.ControlPoints[i].ToXYZ(true), V3(cur.ControlPoints[i].ToXYZ(true)), tolOf(c), "control point " << i << " of " << c.c << " refined with " << x); NEAR1(r.ControlPoints[i].GetW(), cur.ControlPoints[i].GetW(), 1e-9L, "weight " << i); }
}
LAW(bezier_decomposition, 30000, 1000000) {
    auto c = genCurve(g); int p = c.c.Degree;
    auto B = NurbsCurve::DecomposeToBeziers(c.c);
    REQUIRE(B.size() == c.k.distinct.size() - 1, B.size() << " segments for " << c.c);
    for (size_t i = 0; i < B.size(); i++) {
        validCurve(B[i], "Bezier segment");
        REQUIRE(B[i].Degree == p && (int)B[i].ControlPoints.size() == p + 1, "segment " << i << " of " << c.c);
        double a = c.k.distinct[i], b = c.k.distinct[i + 1]; double lo = B[i].KnotVector.front(), hi = B[i].KnotVector.back();
        REQUIRE(B[i].KnotVector[p] == lo && B[i].KnotVector[p + 1] == hi, "segment knots " << B[i].KnotVector);
        for (int j = 0; j <= p + 1; j++) {
            double f = (double)j / (p + 1);
            V3 want = refCurveDers(c.c, a + (b - a) * f, 0, refSpan(p, c.c.KnotVector, a))(0);
            NEAR3(refEval(B[i], lo + (hi - lo) * f), want, tolOf(c), "segment " << i << " at " << f << " of " << c.c);
        }
    }
}
