// S02: normal and curvatures of surfaces
#include "gen.h"
const char* pbt::RULE = "random graph-like and free surfaces at parameters where Su x Sv is well away from zero, spheres/cylinders/tori/planes as exact cases; non-trivial: interior knots, unequal weights or a shape of known curvature";
struct Pt { GSurf s; UV uv; V3 n; ld E, F, G, L, M, N, K, H, den; };
static Pt genPt(Gen& g) {
    Pt r; SurfOpt o; o.maxDegree = 5; r.s = genSurface(g, o); double u = genParam(g, r.s.ku), v = genParam(g, r.s.kv); r.uv = UV(u, v); g.note([&](std::ostream& os) { os << "uv=" << r.uv; });
    auto R = refSurfDers(r.s.s, u, v, 2, 2); V3 a = R(1, 0), b = R(0, 1), c = a.cross(b); ld al = a.len(), bl = b.len();
    if (al * (r.s.ku.hi() - r.s.ku.lo()) < 0.05 * r.s.scale || bl * (r.s.kv.hi() - r.s.kv.lo()) < 0.05 * r.s.scale || c.len() < 0.1 * al * bl) pbt::discard("parametrisation nearly singular");
    r.n = c / c.len(); r.E = a.dot(a); r.F = a.dot(b); r.G = b.dot(b); r.L = R(2, 0).dot(r.n); r.M = R(1, 1).dot(r.n); r.N = R(0, 2).dot(r.n); r.den = r.E * r.G - r.F * r.F; r.K = (r.L * r.N - r.M * r.M) / r.den; r.H = (r.E * r.N + r.G * r.L - 2 * r.F * r.M) / (2 * r.den);
    return r;
}
LAW(normal, 15000, 500000) { auto p = genPt(g); NEAR3(NurbsSurface::Normal(p.s.s, p.uv), p.n, 1e-7L * p.s.wr, "normal at " << p.uv); }
static void checkAll(const LN_NurbsSurface& s, UV uv, ld K, ld H, ld tolK, ld tolH) {
    ld disc = H * H - K; if (disc < 0) disc = 0; ld r = sqrtl(disc), k1 = H + r, k2 = H - r; ld tr = tolH + sqrtl(2 * fabsl(H) * tolH + tolK + tolH * tolH); if (r > 0) tr = std::min(tr, tolH + (2 * fabsl(H) * tolH + tolK) / r);
    NEAR1(NurbsSurface::Curvature(s, SurfaceCurvature::Gauss, uv), K, tolK, "Gauss curvature at " << uv); NEAR1(NurbsSurface::Curvature(s, SurfaceCurvature::Mean, uv), H, tolH, "mean curvature at " << uv);
    NEAR1(NurbsSurface::Curvature(s, SurfaceCurvature::Maximum, uv), k1, tolH + tr, "maximum curvature at " << uv); NEAR1(NurbsSurface::Curvature(s, SurfaceCurvature::Minimum, uv), k2, tolH + tr, "minimum curvature at " << uv);
    NEAR1(NurbsSurface::Curvature(s, SurfaceCurvature::Abs, uv), fabsl(k1) + fabsl(k2), 2 * (tolH + tr), "absolute curvature at " << uv); NEAR1(NurbsSurface::Curvature(s, SurfaceCurvature::Rms, uv), sqrtl(k1 * k1 + k2 * k2), 2 * (tolH + tr), "rms curvature at " << uv);
}
LAW(curvatures, 10000, 400000) {
    auto p = genPt(g); ld b2 = (fabsl(p.L) * p.G + 2 * fabsl(p.M * p.F) + fabsl(p.N) * p.E) / p.den + 1e-3L; ld amp = p.E * p.G / p.den * p.s.wr;
    checkAll(p.s.s, p.uv, p.K, p.H, 1e-7L * b2 * b2 * amp + 1e-9L, 1e-7L * b2 * amp + 1e-9L);
}
LAW(shapes_of_known_curvature, 4000, 150000) {
    g.nontrivial(); int k = g.integer(0, 2); LN_NurbsSurface s; double R = g.real(0.5, 20), off = g.coord(20);
    if (k == 0) { g.tag("plane"); NurbsSurface::CreateBilinearSurface(XYZ(off, 0, 1), XYZ(off, R, 1), XYZ(off + R, 0, 1), XYZ(off + R, R, 1), s); checkAll(s, UV(g.unit(), g.unit()), 0, 0, 1e-9L, 1e-9L); return; }
    if (k == 1) { g.tag("cylinder"); double a = g.real(-6, 6); if (!NurbsSurface::CreateCylindricalSurface(XYZ(off, 1, 2), XYZ(1, 0, 0), XYZ(0, 1, 0), a, a + g.real(0.3, 6.28), R, g.real(1, 10), s)) pbt::fail("cylinder not made"); double u = g.unit(), v = g.unit(); UV uv(u, v); g.note([&](std::ostream& o) { o << "cylinder R=" << R << " uv=" << uv; });
        ld K = NurbsSurface::Curvature(s, SurfaceCurvature::Gauss, uv), H = NurbsSurface::Curvature(s, SurfaceCurvature::Mean, uv); NEAR1(K, 0, 1e-7L, "Gauss curvature of a cylinder"); NEAR1(fabsl(H), 0.5L / R, 1e-7L / R, "mean curvature of a cylinder"); return; }
    g.tag("sphere"); LN_NurbsCurve arc; NurbsCurve::CreateArc(XYZ(0, 0, off), XYZ(1, 0, 0), XYZ(0, 0, 1), -1.4, 1.4, R, R, arc); if (!NurbsSurface::CreateRevolvedSurface(XYZ(0, 0, 0), XYZ(0, 0, 1), g.real(0.5, 6.28), arc, s)) pbt::fail("sphere not made");
    double u = g.unit(), v = g.unit(); UV uv(u, v); g.note([&](std::ostream& o) { o << "sphere R=" << R << " uv=" << uv; }); ld K = NurbsSurface::Curvature(s, SurfaceCurvature::Gauss, uv), H = NurbsSurface::Curvature(s, SurfaceCurvature::Mean, uv); NEAR1(K, 1 / ((ld)R * R), 1e-6L / (R * R), "Gauss curvature of a sphere"); NEAR1(fabsl(H), 1.0L / R, 1e-6L / R, "mean curvature of a sphere");
    XYZ P = NurbsSurface::GetPointOnSurface(s, uv), N = NurbsSurface::Normal(s, uv); NEAR1(fabsl(V3(N).dot(V3(P) - V3(0, 0, off))), R, 1e-6L * R, "normal of a sphere is radial");
}
