// S03: knot insertion, refinement, decomposition and removal of surfaces
#include "gen.h"
static const bool nets = degenerateNets() = true;
const char* pbt::RULE = "random NURBS surfaces and knot operations in either direction (new and existing knots, requests beyond full multiplicity, refinement lists, removal of inserted knots); results are compared with the original in every patch; non-trivial: interior knots or unequal weights";
static ld tolOf(const GSurf& s) { return 1e-8L * s.scale * s.wr; }
static std::vector<double> sortedPlus(std::vector<double> U, const std::vector<double>& x) { U.insert(U.end(), x.begin(), x.end()); std::sort(U.begin(), U.end()); return U; }
static std::vector<double> without(std::vector<double> U, double u, int t) { for (int k = 0; k < t; k++) { auto it = std::find(U.begin(), U.end(), u); if (it != U.end()) U.erase(it); } return U; }
static void compare(const GSurf& s, const LN_NurbsSurface& r, ld tol, const char* what) { sameSurface(s.s, distinctOf(r.KnotVectorU, s.ku.lo(), s.ku.hi()), distinctOf(r.KnotVectorV, s.kv.lo(), s.kv.hi()), r, tol, what); }
struct Pick { double u; int mult; };
static Pick pickKnot(Gen& g, const Knots& k) {
    if (k.distinct.size() > 2 && g.chance(1, 2)) { int i = g.integer(1, (int)k.distinct.size() - 2); g.tag("existing-knot"); return {k.distinct[i], k.mult[i]}; }
    int i = g.integer(0, (int)k.distinct.size() - 2); double f = 0.05 + 0.9 * g.unit(); return {k.distinct[i] + f * (k.distinct[i + 1] - k.distinct[i]), 0};
}
static SurfOpt opt() { SurfOpt o; o.maxDegree = 5; return o; }
LAW(insert_knot, 5000, 250000) {
    auto s = genSurface(g, opt()); bool isU = g.boolean(); const Knots& k = isU ? s.ku : s.kv; const Knots& other = isU ? s.kv : s.ku; int p = k.p; auto q = pickKnot(g, k); int times = g.integer(1, p + 2); g.tagIf(q.mult + times > p, "beyond-full-multiplicity");
    g.note([&](std::ostream& o) { o << "insert " << q.u << " x" << times << (isU ? " in u" : " in v"); });
    LN_NurbsSurface r; NurbsSurface::InsertKnot(s.s, q.u, times, isU, r); validSurface(r, "InsertKnot"); int got = std::min(times, p - q.mult);
    REQUIRE(r.DegreeU == s.s.DegreeU && r.DegreeV == s.s.DegreeV, "degrees"); sameKnots(isU ? r.KnotVectorU : r.KnotVectorV, sortedPlus(k.U, std::vector<double>(got, q.u)), "InsertKnot"); sameKnots(isU ? r.KnotVectorV : r.KnotVectorU, other.U, "InsertKnot, other direction"); compare(s, r, tolOf(s), "InsertKnot");
}
LAW(insert_at_domain_end, 2000, 50000) {
    auto s = genSurface(g, opt()); bool isU = g.boolean(); const Knots& k = isU ? s.ku : s.kv; double u = g.boolean() ? k.lo() : k.hi(); int times = g.integer(1, 3); g.note([&](std::ostream& o) { o << "insert " << u << " x" << times << (isU ? " in u" : " in v"); });
    LN_NurbsSurface r; NurbsSurface::InsertKnot(s.s, u, times, isU, r); validSurface(r, "InsertKnot at end"); sameKnots(r.KnotVectorU, s.ku.U, "InsertKnot at end"); sameKnots(r.KnotVectorV, s.kv.U, "InsertKnot at end"); compare(s, r, tolOf(s), "InsertKnot at end");
}
LAW(refine_knot_vector, 5000, 250000) {
    auto s = genSurface(g, opt()); bool isU = g.boolean(); const Knots& k = isU ? s.ku : s.kv; const Knots& other = isU ? s.kv : s.ku; std::map<double, int> used; std::vector<double> x; int n = g.integer(1, 5);
    for (int j = 0; j < n; j++) { auto q = pickKnot(g, k); if (!used.count(q.u)) used[q.u] = q.mult; int m = g.integer(1, 2); while (m-- > 0 && used[q.u] < k.p) { used[q.u]++; x.push_back(q.u); } } if (x.empty()) pbt::discard("nothing to insert"); std::sort(x.begin(), x.end());
    g.note([&](std::ostream& o) { o << "refine with " << x << (isU ? " in u" : " in v"); }); LN_NurbsSurface r; NurbsSurface::RefineKnotVector(s.s, x, isU, r); validSurface(r, "RefineKnotVector");
    REQUIRE(r.DegreeU == s.s.DegreeU && r.DegreeV == s.s.DegreeV, "degrees"); sameKnots(isU ? r.KnotVectorU : r.KnotVectorV, sortedPlus(k.U, x), "RefineKnotVector"); sameKnots(isU ? r.KnotVectorV : r.KnotVectorU, other.U, "RefineKnotVector, other direction"); compare(s, r, tolOf(s), "RefineKnotVector");
}
LAW(bezier_decomposition, 5000, 250000) {
    auto s = genSurface(g, opt()); int p = s.s.DegreeU, q = s.s.DegreeV; auto B = NurbsSurface::DecomposeToBeziers(s.s); size_t nu = s.ku.distinct.size() - 1, nv = s.kv.distinct.size() - 1;
    REQUIRE(B.size() == nu * nv, B.size() << " patches instead of " << nu << "x" << nv);
    for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) {
        auto& b = B[i * nv + j]; validSurface(b, "Bezier patch"); REQUIRE(b.DegreeU == p && b.DegreeV == q && (int)b.ControlPoints.size() == p + 1 && (int)b.ControlPoints[0].size() == q + 1, "patch shape");
        for (int x = 0; x <= p + 1; x++) for (int y = 0; y <= q + 1; y++) {
            double fu = (double)x / (p + 1), fv = (double)y / (q + 1); double u = s.ku.distinct[i] + fu * (s.ku.distinct[i + 1] - s.ku.distinct[i]), v = s.kv.distinct[j] + fv * (s.kv.distinct[j + 1] - s.kv.distinct[j]);
            NEAR3(refEval(b, b.KnotVectorU.front() + fu * (b.KnotVectorU.back() - b.KnotVectorU.front()), b.KnotVectorV.front() + fv * (b.KnotVectorV.back() - b.KnotVectorV.front())), refEval(s.s, u, v), tolOf(s), "patch " << i << "," << j << " at (" << u << "," << v << ")");
        }
    }
}
LAW(removal_undoes_insertion, 4000, 200000) {
    SurfOpt o = opt(); o.knots.maxMult = 2; auto s = genSurface(g, o); bool isU = g.boolean(); const Knots& k = isU ? s.ku : s.kv; const Knots& other = isU ? s.kv : s.ku; auto q = pickKnot(g, k); if (q.mult >= k.p) pbt::discard("no room"); int ins = g.integer(1, k.p - q.mult), rem = g.integer(1, ins); if (g.chance(1, 6)) rem = ins + 1;
    g.note([&](std::ostream& os) { os << "insert " << q.u << " x" << ins << " remove x" << rem << (isU ? " in u" : " in v"); }); LN_NurbsSurface a, r; NurbsSurface::InsertKnot(s.s, q.u, ins, isU, a); NurbsSurface::RemoveKnot(a, q.u, rem, isU, r); validSurface(r, "RemoveKnot");
    auto& R = isU ? r.KnotVectorU : r.KnotVectorV; auto& A = isU ? a.KnotVectorU : a.KnotVectorV; int got = (int)A.size() - (int)R.size(); sameKnots(R, without(A, q.u, got), "RemoveKnot"); sameKnots(isU ? r.KnotVectorV : r.KnotVectorU, other.U, "RemoveKnot, other direction");
    REQUIRE(got >= std::min(rem, ins) && got <= rem, "removed " << got << " of " << ins << " inserted knots (asked for " << rem << ")");
    sameSurface(a, distinctOf(a.KnotVectorU, s.ku.lo(), s.ku.hi()), distinctOf(a.KnotVectorV, s.kv.lo(), s.kv.hi()), r, (got > ins ? 5e-4L * s.wr : 0) + 1e-6L * s.scale * s.wr, "RemoveKnot");
}
LAW(removal_keeps_a_valid_surface, 3000, 100000) {   // whatever the library decides about an arbitrary knot, the result is a surface with the same corners
    auto s = genSurface(g, opt()); bool isU = g.boolean(); const Knots& k = isU ? s.ku : s.kv; auto q = pickKnot(g, k); int times = g.integer(1, 3); if (g.chance(1, 6)) q.u = g.boolean() ? k.lo() : k.hi(); bool interior = q.mult > 0 && q.u != k.lo() && q.u != k.hi(); g.note([&](std::ostream& os) { os << "remove " << q.u << " x" << times << (isU ? " in u" : " in v"); });
    LN_NurbsSurface r; NurbsSurface::RemoveKnot(s.s, q.u, times, isU, r); for (auto& row : r.ControlPoints) for (auto& P : row) REQUIRE(finite4(P), "finite"); REQUIRE(r.KnotVectorU.size() == r.ControlPoints.size() + r.DegreeU + 1, "u sizes"); for (auto& row : r.ControlPoints) REQUIRE(r.KnotVectorV.size() == row.size() + r.DegreeV + 1, "v sizes");
    auto& R = isU ? r.KnotVectorU : r.KnotVectorV; int got = (int)k.U.size() - (int)R.size(); REQUIRE(got >= 0 && got <= std::min(times, q.mult), "removed " << got); sameKnots(R, without(k.U, q.u, got), "RemoveKnot");
    if (!interior) { g.tag("nothing-to-remove"); REQUIRE(got == 0, "removed a knot that is not there"); }
    if (got == 0) { validSurface(r, "RemoveKnot"); compare(s, r, tolOf(s), "nothing removed"); } else g.tag("removed");
    NEAR3(r.ControlPoints.front().front().ToXYZ(true), V3(s.s.ControlPoints.front().front().ToXYZ(true)), tolOf(s), "corner"); NEAR3(r.ControlPoints.back().back().ToXYZ(true), V3(s.s.ControlPoints.back().back().ToXYZ(true)), tolOf(s), "corner");
}
