// S04: degree elevation and reduction of surfaces
#include "gen.h"
static const bool nets = degenerateNets() = true;
const char* pbt::RULE = "random NURBS surfaces elevated by 1..3 in either direction, elevated patches reduced again, perturbed patches reduced; non-trivial: interior knots or unequal weights";
static SurfOpt opt() { SurfOpt o; o.maxDegree = 6; o.knots.maxInterior = 2; return o; }
LAW(degree_elevation, 4000, 200000) {
    auto s = genSurface(g, opt()); bool isU = g.boolean(); const Knots& k = isU ? s.ku : s.kv; const Knots& other = isU ? s.kv : s.ku; int t = g.integer(1, std::min(3, 7 - k.p)); g.note([&](std::ostream& o) { o << "elevate by " << t << (isU ? " in u" : " in v"); });
    LN_NurbsSurface r; NurbsSurface::ElevateDegree(s.s, t, isU, r); validSurface(r, "ElevateDegree"); REQUIRE(r.DegreeU == s.s.DegreeU + (isU ? t : 0) && r.DegreeV == s.s.DegreeV + (isU ? 0 : t), "degrees");
    std::vector<double> want; for (size_t i = 0; i < k.distinct.size(); i++) for (int j = 0; j < k.mult[i] + t; j++) want.push_back(k.distinct[i]);
    sameKnots(isU ? r.KnotVectorU : r.KnotVectorV, want, "ElevateDegree"); sameKnots(isU ? r.KnotVectorV : r.KnotVectorU, other.U, "ElevateDegree, other direction"); sameSurface(s.s, s.ku.distinct, s.kv.distinct, r, 1e-8L * s.scale * s.wr, "ElevateDegree");
}
static GSurf genOne(Gen& g, bool isU) { SurfOpt o = opt(); GSurf s; for (int t = 0; t < 1; t++) { s = genSurface(g, o); } Knots& k = isU ? s.ku : s.kv; if (k.distinct.size() > 2) { // keep one span in the reduced direction
        int p = k.p; auto& U = isU ? s.s.KnotVectorU : s.s.KnotVectorV; std::vector<double> V(p + 1, k.lo()); V.insert(V.end(), p + 1, k.hi()); U = V; k.U = V; k.distinct = {k.lo(), k.hi()}; k.mult = {p + 1, p + 1}; if (isU) s.s.ControlPoints.resize(p + 1); else for (auto& r : s.s.ControlPoints) r.resize(p + 1); g.note([&](std::ostream& os) { os << " cut to one span: " << s.s; }); } return s; }
LAW(reduction_undoes_elevation, 4000, 200000) {
    bool isU = g.boolean(); auto s = genOne(g, isU); g.nontrivial(); LN_NurbsSurface e, r; NurbsSurface::ElevateDegree(s.s, 1, isU, e); REQUIRE(NurbsSurface::ReduceDegree(e, isU, r), "elevated surface refused" << (isU ? " in u" : " in v"));
    validSurface(r, "ReduceDegree"); REQUIRE(r.DegreeU == s.s.DegreeU && r.DegreeV == s.s.DegreeV, "degrees"); sameKnots(r.KnotVectorU, s.s.KnotVectorU, "ReduceDegree"); sameKnots(r.KnotVectorV, s.s.KnotVectorV, "ReduceDegree"); sameSurface(e, s.ku.distinct, s.kv.distinct, r, 1e-6L * s.scale * s.wr, "ReduceDegree");
}
LAW(reduction_stays_within_tolerance, 4000, 200000) {
    bool isU = g.boolean(); auto s = genOne(g, isU); g.nontrivial(); LN_NurbsSurface e, r; NurbsSurface::ElevateDegree(s.s, 1, isU, e); int i = g.integer(0, (int)e.ControlPoints.size() - 1), j = g.integer(0, (int)e.ControlPoints[0].size() - 1); double mag = std::pow(10.0, -g.integer(0, 6)); XYZ d = genPoint(g, mag); auto& P = e.ControlPoints[i][j]; double w = P[3]; P = P + XYZW(d[0] * w, d[1] * w, d[2] * w, 0); g.note([&](std::ostream& o) { o << (isU ? "u" : "v") << " perturb " << i << "," << j << " by " << d; });
    bool ok = NurbsSurface::ReduceDegree(e, isU, r); g.tag(ok ? "accepted" : "refused"); if (!ok) { REQUIRE(V3(d).len() > 1e-9, "refused without perturbation"); return; }
    validSurface(r, "ReduceDegree"); sameSurface(e, s.ku.distinct, s.kv.distinct, r, 1.2e-4L * s.wr + 1e-6L * s.scale * s.wr, "ReduceDegree");
}
LAW(surfaces_with_interior_knots_do_not_reduce, 2000, 50000) {
    auto s = genSurface(g, opt()); bool isU = g.boolean(); const Knots& k = isU ? s.ku : s.kv; if (k.distinct.size() == 2 && k.p > 1) pbt::discard("Bezier shaped"); LN_NurbsSurface r; REQUIRE(!NurbsSurface::ReduceDegree(s.s, isU, r), "reduced" << (isU ? " in u" : " in v"));
}
