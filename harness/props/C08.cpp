#include "gen.h"
const char* pbt::RULE = "random NURBS curves split at, extracted between, merged at, clamped and unclamped at random parameters (inside spans, exactly at knots of any multiplicity, near and at the domain ends); results compared with the original at degree+2 parameters of every span; non-trivial: interior knots or unequal weights in the input";

static ld tolOf(const GCurve& c) { return 1e-9L * c.scale * c.wr; }
static std::vector<double> within(const std::vector<double>& d, double a, double b) { std::vector<double> r{a}; for (double x : d) if (x > a + 1e-9 && x < b - 1e-9) r.push_back(x); r.push_back(b); return r; }
static double interior(Gen& g, const Knots& k) {
    if (k.distinct.size() > 2 && g.chance(1, 2)) { g.tag("at-knot"); return k.distinct[g.integer(1, (int)k.distinct.size() - 2)]; }
    int i = g.integer(0, (int)k.distinct.size() - 2); double f = g.chance(1, 6) ? 0.001 : 0.02 + 0.96 * g.unit();
    return k.distinct[i] + f * (k.distinct[i + 1] - k.distinct[i]);
}
LAW(split, 40000, 2000000) {
    auto c = genCurve(g); double u = interior(g, c.k); int p = c.c.Degree;
    g.note([&](std::ostream& o) { o << "split at " << u; });
    LN_NurbsCurve l, r; REQUIRE(NurbsCurve::SplitAt(c.c, u, l, r), "interior parameter refused: " << u << " " << c.c);
    validCurve(l, "left part"); validCurve(r, "right part"); REQUIRE(l.Degree == p && r.Degree == p, "degree");
    for (int i = 0; i <= p; i++) {
        NEAR1(l.KnotVector[i], c.k.lo(), 1e-9L * (1 + fabsl(c.k.lo())), "left start"); NEAR1(l.KnotVector[l.KnotVector.size() - 1 - i], u, 1e-9L * (1 + fabsl(u)), "left end");
        NEAR1(r.KnotVector[i], u, 1e-9L * (1 + fabsl(u)), "right start"); NEAR1(r.KnotVector[r.KnotVector.size() - 1 - i], c.k.hi(), 1e-9L * (1 + fabsl(c.k.hi())), "right end");
    }
    sameCurve(c.c, within(c.k.distinct, c.k.lo(), u), l, tolOf(c), "left part"); sameCurve(c.c, within(c.k.distinct, u, c.k.hi()), r, tolOf(c), "right part");
}
LAW(split_refuses_domain_ends, 2000, 50000) {
    auto c = genCurve(g); LN_NurbsCurve l, r;
    double u = g.weighted({1, 1}) ? c.k.lo() : c.k.hi();
    REQUIRE(!NurbsCurve::SplitAt(c.c, u, l, r), "split at the domain end " << u);
}
LAW(split_beside_knot, 8000, 300000) {   // within the library's tolerance of a knot
    auto c = genCurve(g); int p = c.c.Degree; if (c.k.distinct.size() < 3) pbt::discard("no interior knot"); double k = c.k.distinct[g.integer(1, (int)c.k.distinct.size() - 2)], u = k + g.coord(5e-7);
    g.note([&](std::ostream& o) { o.precision(17); o << "split at " << u << " beside " << k; });
    LN_NurbsCurve l, r; REQUIRE(NurbsCurve::SplitAt(c.c, u, l, r), "interior parameter refused: " << u << " " << c.c);
    validCurve(l, "left part"); validCurve(r, "right part"); REQUIRE(l.Degree == p && r.Degree == p, "degree"); double e = l.KnotVector.back(); NEAR1(e, u, 1e-6L * (1 + fabsl(u)), "split parameter");
    for (int i = 0; i <= p; i++) { REQUIRE(l.KnotVector[l.KnotVector.size() - 1 - i] == e && r.KnotVector[i] == e, "clamped parts: " << l.KnotVector << " " << r.KnotVector); }
    sameCurve(c.c, within(c.k.distinct, c.k.lo(), e), l, tolOf(c), "left part"); sameCurve(c.c, within(c.k.distinct, e, c.k.hi()), r, tolOf(c), "right part");
}
LAW(extract, 40000, 2000000) {
    auto c = genCurve(g); int p = c.c.Degree;
    double a = g.chance(1, 6) ? c.k.lo() : interior(g, c.k), b = g.chance(1, 6) ? c.k.hi() : interior(g, c.k);
    if (a > b) std::swap(a, b);
    if (b - a < 1e-3 * (c.k.hi() - c.k.lo()) * (1 + std::fabs(a))) pbt::discard("empty range");
    g.note([&](std::ostream& o) { o << "extract [" << a << "," << b << "]"; });
    LN_NurbsCurve r; NurbsCurve::Extract(c.c, a, b, r);
    validCurve(r, "Extract"); REQUIRE(r.Degree == p, "degree");
    for (int i = 0; i <= p; i++) { NEAR1(r.KnotVector[i], a, 1e-9L * (1 + fabsl(a)), "start"); NEAR1(r.KnotVector[r.KnotVector.size() - 1 - i], b, 1e-9L * (1 + fabsl(b)), "end"); }
    sameCurve(c.c, within(c.k.distinct, a, b), r, tolOf(c), "Extract");
}
LAW(merge, 30000, 1500000) {
    auto a = genCurve(g); auto b = genCurve(g);
    { double w = g.boolean() ? a.c.ControlPoints.back().GetW() : b.c.ControlPoints.front().GetW(); b.c.ControlPoints.front() = XYZW(a.c.ControlPoints.back().ToXYZ(true), w); g.tagIf(w != a.c.ControlPoints.back().GetW(), "joint-weights-differ"); } double scale = std::max(a.scale, b.scale), wr = 25;
    if (g.chance(1, 8)) { auto& q = g.boolean() ? a : b; if (q.c.ControlPoints.size() > 3) { XYZW& e = (&q == &a) ? q.c.ControlPoints.front() : q.c.ControlPoints.back(); e = XYZW((&q == &a ? q.c.ControlPoints.back() : q.c.ControlPoints.front()).ToXYZ(true), e.GetW()); g.tag("closed-piece"); } }
    g.tagIf(a.c.Degree != b.c.Degree, "degrees-differ");
    LN_NurbsCurve r; REQUIRE(NurbsCurve::Merge(a.c, b.c, r), "connected curves not merged: " << a.c << " and " << b.c);
    validCurve(r, "Merge"); REQUIRE(r.Degree == std::max(a.c.Degree, b.c.Degree), "degree " << r.Degree);
    NEAR1(r.KnotVector.front(), 0, 1e-12L, "domain"); NEAR1(r.KnotVector.back(), 1, 1e-12L, "domain");
    ld tol = 1e-8L * scale * wr;
    sameCurve(a.c, a.k.distinct, r, [&](double t) { ld s = ((ld)t - a.k.lo()) / ((ld)a.k.hi() - a.k.lo()) / 2; return s; }, tol, "left part");
    sameCurve(b.c, b.k.distinct, r, [&](double t) { ld s = ((ld)t - b.k.lo()) / ((ld)b.k.hi() - b.k.lo()) / 2 + 0.5L; return s; }, tol, "right part");
}
LAW(merge_refuses_disconnected, 5000, 100000) {
    auto a = genCurve(g); auto b = genCurve(g);
    V3 e(a.c.ControlPoints.back().ToXYZ(true)), s(b.c.ControlPoints.front().ToXYZ(true));
    if (!((e - s).len() > 1e-2 * std::max(a.scale, b.scale))) pbt::discard("close ends");
    LN_NurbsCurve r; REQUIRE(!NurbsCurve::Merge(a.c, b.c, r), "disconnected curves merged: " << e << " vs " << s);
}
// an unclamped curve: increasing knots around the domain, multiplicities inside and at the ends of the domain
struct Unclamped { LN_NurbsCurve c; Knots k; double scale; };
static Unclamped genUnclamped(Gen& g) {
    Unclamped r; int p = genDegree(g); KnotOpt o; o.many = false; r.k = genKnots(g, p, o);
    std::vector<double> U; double w = (r.k.hi() - r.k.lo()) / 4;
    bool uni = g.chance(1, 3);
    std::vector<double> pre, post; double x = r.k.lo(), y = r.k.hi();
    int rl = g.chance(1, 3) ? g.integer(1, p) : 0, rr = g.chance(1, 3) ? g.integer(1, p) : 0; if (rl == p && rr == p) rl = 0;     // repeated end knots, up to one clamped end
    for (int i = 0; i < p; i++) { if (i >= rl) x -= uni ? w : w * g.real(0.3, 2); if (i >= rr) y += uni ? w : w * g.real(0.3, 2); pre.insert(pre.begin(), x); post.push_back(y); }
    g.tagIf(rl || rr, "repeated-end-knots"); g.tagIf(rl == p || rr == p, "half-clamped");
    U = pre; U.push_back(r.k.lo());
    for (size_t i = 1; i + 1 < r.k.distinct.size(); i++) for (int j = 0; j < r.k.mult[i]; j++) U.push_back(r.k.distinct[i]);
    U.push_back(r.k.hi()); U.insert(U.end(), post.begin(), post.end());
    int n = (int)U.size() - p - 1; double mag = genMag(g); auto P = genPoints(g, n, mag, false); auto W = genWeights(g, n);
    GCurve t; t.c.Degree = p; t.c.KnotVector = U; finish(t, P, W); r.c = t.c; r.scale = t.scale;
    g.tagIf(t.rational, "rational"); g.nontrivial(); g.note([&](std::ostream& s) { s << r.c; });
    return r;
}
LAW(clamp_an_unclamped_curve, 20000, 1000000) {
    auto c = genUnclamped(g); int p = c.c.Degree;
    LN_NurbsCurve r; NurbsCurve::ToClampCurve(c.c, r);
    validCurve(r, "ToClampCurve"); REQUIRE(r.Degree == p, "degree"); REQUIRE(NurbsCurve::IsClamp(r), "result is not clamped: " << r);
    REQUIRE(!NurbsCurve::IsClamp(c.c), "unclamped input reported as clamped");
    for (int i = 0; i <= p; i++) { NEAR1(r.KnotVector[i], c.k.lo(), 1e-9L * (1 + fabsl(c.k.lo())), "start"); NEAR1(r.KnotVector[r.KnotVector.size() - 1 - i], c.k.hi(), 1e-9L * (1 + fabsl(c.k.hi())), "end"); }
    sameCurve(c.c, c.k.distinct, r, 1e-8L * c.scale * 25, "ToClampCurve");
}
LAW(clamp_a_clamped_curve, 5000, 100000) {
    auto c = genCurve(g); LN_NurbsCurve r; NurbsCurve::ToClampCurve(c.c, r); validCurve(r, "ToClampCurve"); sameKnots(r.KnotVector, c.c.KnotVector, "ToClampCurve of a clamped curve"); sameCurve(c.c, c.k.distinct, r, 1e-9L * c.scale * c.wr, "ToClampCurve of a clamped curve");
}
LAW(unclamp_and_clamp_again, 20000, 1000000) {
    CurveOpt o; o.knots.many = false; auto c = genCurve(g, o); int p = c.c.Degree; size_t n = c.c.ControlPoints.size();
    REQUIRE(NurbsCurve::IsClamp(c.c), "clamped input reported as unclamped");
    LN_NurbsCurve u; NurbsCurve::ToUnclampCurve(c.c, u);
    REQUIRE(u.Degree == p && u.ControlPoints.size() == n && u.KnotVector.size() == n + p + 1, "shape");
    for (size_t i = p; i <= n; i++) NEAR1(u.KnotVector[i], c.c.KnotVector[i], 1e-12L * (1 + fabsl(c.c.KnotVector[i])), "domain knots unchanged");
    for (size_t i = 1; i < u.KnotVector.size(); i++) REQUIRE(u.KnotVector[i] >= u.KnotVector[i - 1] - 1e-12, "decreasing knots " << u.KnotVector);
    ld amp = 1; for (auto& q : u.ControlPoints) for (int j = 0; j < 4; j++) { REQUIRE(std::isfinite(q[j]), "non-finite control point"); amp = std::max(amp, fabsl(q[j])); }
    ld tol = 1e-9L * (amp + c.scale * c.wr) * c.wr * 10;
    if (amp > 1e7) pbt::discard("ill-conditioned unclamping");
    sameCurve(c.c, c.k.distinct, u, tol, "ToUnclampCurve");
    for (auto& q : u.ControlPoints) if (q[3] <= 1e-3) return;      // an unclamped curve may have non-positive weights: not a valid NURBS input
    if (u.KnotVector[0] == u.KnotVector[p] || u.KnotVector[p - 1] == u.KnotVector[p] || u.KnotVector[n] == u.KnotVector[n + 1]) return;
    LN_NurbsCurve r; NurbsCurve::ToClampCurve(u, r);
    sameKnots(r.KnotVector, c.c.KnotVector, "clamp of the unclamped curve"); sameCurve(c.c, c.k.distinct, r, tol * 100, "clamp of the unclamped curve");
}
