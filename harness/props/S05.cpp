// S05: swapping, reversing, reparametrising and closedness of surfaces
#include "gen.h"
static const bool nets = degenerateNets() = true;
const char* pbt::RULE = "random NURBS surfaces (square and non-square nets); non-trivial: interior knots or unequal weights";
static ld tolOf(const GSurf& s) { return 1e-9L * s.scale * s.wr; }
LAW(swap, 4000, 200000) {
    auto s = genSurface(g); LN_NurbsSurface r; NurbsSurface::Swap(s.s, r); validSurface(r, "Swap"); REQUIRE(r.DegreeU == s.s.DegreeV && r.DegreeV == s.s.DegreeU, "degrees"); sameKnots(r.KnotVectorU, s.s.KnotVectorV, "Swap"); sameKnots(r.KnotVectorV, s.s.KnotVectorU, "Swap");
    double u = genParam(g, s.ku), v = genParam(g, s.kv); NEAR3(refEval(r, v, u), refEval(s.s, u, v), tolOf(s), "Swap"); sameSurface(s.s, s.ku.distinct, s.kv.distinct, r, [](double a, double b) { return UV(b, a); }, tolOf(s), "Swap");
}
LAW(reverse, 4000, 200000) {
    auto s = genSurface(g); int d = g.integer(0, 2); auto dir = d == 0 ? SurfaceDirection::UDirection : d == 1 ? SurfaceDirection::VDirection : SurfaceDirection::All; bool ru = d != 1, rv = d != 0; g.note([&](std::ostream& o) { o << "reverse " << (d == 0 ? "u" : d == 1 ? "v" : "both"); });
    LN_NurbsSurface r; NurbsSurface::Reverse(s.s, dir, r); validSurface(r, "Reverse"); REQUIRE(r.DegreeU == s.s.DegreeU && r.DegreeV == s.s.DegreeV, "degrees"); NEAR1(r.KnotVectorU.front(), s.ku.lo(), 1e-9L, "domain"); NEAR1(r.KnotVectorU.back(), s.ku.hi(), 1e-9L * (1 + fabsl(s.ku.hi())), "domain"); NEAR1(r.KnotVectorV.back(), s.kv.hi(), 1e-9L * (1 + fabsl(s.kv.hi())), "domain");
    sameSurface(s.s, s.ku.distinct, s.kv.distinct, r, [&](double a, double b) { return UV(ru ? s.ku.lo() + s.ku.hi() - a : a, rv ? s.kv.lo() + s.kv.hi() - b : b); }, 1e-7L * s.scale * s.wr, "Reverse");
    LN_NurbsSurface b; NurbsSurface::Reverse(r, dir, b); sameKnots(b.KnotVectorU, s.s.KnotVectorU, "Reverse twice"); sameKnots(b.KnotVectorV, s.s.KnotVectorV, "Reverse twice"); REQUIRE(b.ControlPoints.size() == s.s.ControlPoints.size(), "Reverse twice");
    for (size_t i = 0; i < b.ControlPoints.size(); i++) for (size_t j = 0; j < b.ControlPoints[i].size(); j++) NEAR3(b.ControlPoints[i][j].ToXYZ(true), V3(s.s.ControlPoints[i][j].ToXYZ(true)), tolOf(s), "Reverse twice");
}
LAW(reparametrize, 4000, 200000) {
    auto s = genSurface(g); double a = g.coord(5), b = a + g.real(0.3, 9), c = g.coord(5), d = c + g.real(0.3, 9); if (g.chance(1, 3)) { a = s.ku.lo(); b = s.ku.hi(); g.tag("u-domain-kept"); } if (g.chance(1, 3)) { c = s.kv.lo(); d = s.kv.hi(); g.tag("v-domain-kept"); } g.note([&](std::ostream& o) { o << "to [" << a << "," << b << "]x[" << c << "," << d << "]"; });
    LN_NurbsSurface r; NurbsSurface::Reparametrize(s.s, a, b, c, d, r); validSurface(r, "Reparametrize"); NEAR1(r.KnotVectorU.front(), a, 1e-9L * (1 + fabsl(a)), "umin"); NEAR1(r.KnotVectorU.back(), b, 1e-9L * (1 + fabsl(b)), "umax"); NEAR1(r.KnotVectorV.front(), c, 1e-9L * (1 + fabsl(c)), "vmin"); NEAR1(r.KnotVectorV.back(), d, 1e-9L * (1 + fabsl(d)), "vmax");
    sameSurface(s.s, s.ku.distinct, s.kv.distinct, r, [&](double u, double v) { return UV(a + (b - a) * (u - s.ku.lo()) / (s.ku.hi() - s.ku.lo()), c + (d - c) * (v - s.kv.lo()) / (s.kv.hi() - s.kv.lo())); }, 1e-7L * s.scale * s.wr, "Reparametrize");
}
LAW(closedness, 6000, 200000) {
    auto s = genSurface(g); bool isU = g.boolean(), close = g.boolean(); auto& P = s.s.ControlPoints; size_t n = P.size(), m = P[0].size();
    if (close) { g.tag("closed"); if (isU) for (size_t j = 0; j < m; j++) P[n - 1][j] = P[0][j]; else for (auto& r : P) r.back() = r.front(); }
    else { // almost closed: one boundary pair differs
        g.tag("open"); size_t at = g.integer(0, (int)(isU ? m : n) - 1); XYZW D(1, 0.5, 0.25, 0); if (isU) { for (size_t j = 0; j < m; j++) P[n - 1][j] = P[0][j]; P[n - 1][at] = P[0][at] + D; } else { for (auto& r : P) r.back() = r.front(); P[at].back() = P[at].front() + D; } }
    g.note([&](std::ostream& o) { o << " made " << (close ? "closed" : "open") << (isU ? " in u: " : " in v: ") << s.s; });
    REQUIRE(NurbsSurface::IsClosed(s.s, isU) == close, (close ? "closed" : "open") << " surface"); 
    if (close) for (double t : probes((isU ? s.kv : s.ku).distinct, 2)) NEAR3(isU ? refEval(s.s, s.ku.lo(), t) : refEval(s.s, t, s.kv.lo()), isU ? refEval(s.s, s.ku.hi(), t) : refEval(s.s, t, s.kv.hi()), tolOf(s), "ends meet");
}
