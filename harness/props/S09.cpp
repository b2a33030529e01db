// S09: surface area
#include "gen.h"
static const bool tame = (extreme() = false);
const char* pbt::RULE = "random height-field-like surfaces (three classes of roughness, rational or not, multiple knots), closed-form shapes (parallelograms, triangles with a collapsed edge, cylinders, cones, spherical zones) and surfaces after a change that keeps the area; non-trivial: the area is compared with an independent value";
static const IntegratorType TYPES[] = {IntegratorType::GaussLegendre, IntegratorType::Simpson, IntegratorType::Chebyshev};
static const char* NAMES[] = {"gauss", "simpson", "chebyshev"};
static ld refArea(const LN_NurbsSurface& s, int sub) {
    static const ld X[] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L};
    static const ld W[] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L};
    auto cells = [&](const std::vector<double>& U) { auto d = distinctOf(U, U.front(), U.back()); std::vector<ld> r; for (size_t i = 0; i + 1 < d.size(); i++) for (int k = 0; k < sub; k++) r.push_back(d[i] + ((ld)d[i + 1] - d[i]) * k / sub); r.push_back(d.back()); return r; }; auto cu = cells(s.KnotVectorU), cv = cells(s.KnotVectorV); ld A = 0;
    for (size_t i = 0; i + 1 < cu.size(); i++) for (size_t j = 0; j + 1 < cv.size(); j++) { ld hu = (cu[i + 1] - cu[i]) / 2, mu = (cu[i + 1] + cu[i]) / 2, hv = (cv[j + 1] - cv[j]) / 2, mv = (cv[j + 1] + cv[j]) / 2, a = 0; for (int p = -5; p <= 5; p++) for (int q = -5; q <= 5; q++) if (p && q) { int ip = std::abs(p) - 1, iq = std::abs(q) - 1; auto d = refSurfDers(s, mu + (p < 0 ? -hu : hu) * X[ip], mv + (q < 0 ? -hv : hv) * X[iq], 1, 1); a += W[ip] * W[iq] * d(1, 0).cross(d(0, 1)).len(); } A += a * hu * hv; }
    return A;
}
static GSurf genSheet(Gen& g, int cls) { SurfOpt o; o.maxDegree = 4; o.knots.maxInterior = 2; o.knots.many = false; o.graph = true; o.weights = cls == 0 ? WOne : WAny; GSurf s = genSurface(g, o); ld f = cls == 0 ? 0.1L : cls == 1 ? 0.4L : 1.0L; for (auto& r : s.s.ControlPoints) for (auto& p : r) { p[2] *= (double)f; if (cls < 2) { double w = 1 + (p[3] - 1) * (cls ? 0.2 : 0); XYZ e = p.ToXYZ(true); p = XYZW(e, w); } } return s; }
static const ld TOL[3][3] = {{1e-6L, 1e-4L, 5e-3L}, {6e-3L, 1.5e-2L, 5e-2L}, {3e-3L, 1e-2L, 5e-2L}};
LAW(sheets, 300, 15000) {
    int cls = g.integer(0, 2); auto s = genSheet(g, cls); g.nontrivial(); g.tagIf(cls == 0, "mild"); g.tagIf(cls == 2, "rough"); ld A = refArea(s.s, cls == 2 ? 3 : 2); g.note([&](std::ostream& o) { o << "class " << cls << " area " << (double)A; });
    for (int t = 0; t < 3; t++) { if (t == 1 && A > 150) continue; double a = NurbsSurface::ApproximateArea(s.s, TYPES[t]); NEAR1(a, A, TOL[t][cls] * (1 + A), NAMES[t]); }
}
static V3 unit(const V3& a) { return a / a.len(); }
static void genFrame(Gen& g, V3& x, V3& y, V3& z) { V3 a(genPoint(g, 1)), b(genPoint(g, 1)); if (g.chance(1, 4)) { a = V3(1, 0, 0); b = V3(0, 1, 0); } if (a.len() < 0.2 || b.len() < 0.2 || a.cross(b).len() < 0.1 * b.len()) pbt::discard("frame"); x = unit(a); z = unit(a.cross(b)); y = z.cross(x); }
LAW(shapes, 1500, 60000) {
    V3 x, y, z; genFrame(g, x, y, z); XYZ o = genPoint(g, 5); int k = g.integer(0, 5), t = g.integer(0, 2); LN_NurbsSurface s; ld A = 0; ld tol = t == 0 ? 1e-5L : t == 1 ? 5e-3L : 1e-3L; const ld pi = acosl(-1.0L);
    if (k == 0) { double a = g.real(0.2, 20), b = g.real(0.2, 20), c = g.real(-1, 1); V3 e = x * a, f = (y + x * c) * b; NurbsSurface::CreateBilinearSurface(o, (V3(o) + f).xyz(), (V3(o) + e).xyz(), (V3(o) + e + f).xyz(), s); A = e.cross(f).len(); g.tag("parallelogram"); }
    else if (k == 1) { double a = g.real(0.2, 20), b = g.real(0.2, 20), c = g.real(-1, 1); V3 e = x * a, f = (y + x * c) * b; int side = g.integer(0, 3); XYZ P = (V3(o) + e).xyz(), Q = (V3(o) + f).xyz(); XYZ q[4] = {o, P, Q, side & 1 ? P : Q}; if (side & 2) { q[0] = P; q[1] = o; q[2] = Q; q[3] = side & 1 ? o : Q; } NurbsSurface::CreateBilinearSurface(q[0], q[1], q[2], q[3], s); A = e.cross(f).len() / 2; g.tag("collapsed-edge"); }
    else if (k == 2) { double r = g.real(0.3, 10), h = g.real(0.3, 10), w = g.chance(1, 4) ? 2 * Constants::Pi : g.real(0.2, 6.2); NurbsSurface::CreateCylindricalSurface(o, x.xyz(), y.xyz(), 0, w, r, h, s); A = (ld)r * w * h; g.tag("cylinder"); }
    else if (k == 3) { double r = g.real(0.3, 10), h = g.real(0.3, 10), w = g.chance(1, 4) ? 2 * Constants::Pi : g.real(0.2, 6.2); LN_NurbsCurve l; NurbsCurve::CreateLine(o, (V3(o) + z * h + x * r).xyz(), l); REQUIRE(NurbsSurface::CreateRevolvedSurface(o, z.xyz(), w, l, s), "cone"); A = w / 2 * r * sqrtl((ld)r * r + (ld)h * h); g.tag("cone"); }
    else if (k == 5) { double a = g.real(0.2, 20), b = g.real(0.2, 20), c = g.real(-1, 1), f = g.real(0.2, 0.8); V3 A0(o), B = A0 + x * a, C = A0 + (y + x * c) * b, M = A0 + x * (a * f); int rot = g.integer(0, 3); XYZ q[4] = {o, M.xyz(), B.xyz(), C.xyz()}; std::rotate(q, q + rot, q + 4); NurbsSurface::CreateBilinearSurface(q[0], q[1], q[3], q[2], s); A = (B - A0).cross(C - A0).len() / 2; g.tag("flat-corner"); }
    else { double r = g.real(0.3, 8), w = g.chance(1, 3) ? 2 * Constants::Pi : g.real(0.2, 6.2), b = g.chance(1, 3) ? Constants::Pi : g.real(0.3, 3.1); LN_NurbsCurve arc; NurbsCurve::CreateArc(o, z.xyz(), x.xyz(), 0, b, r, r, arc); REQUIRE(NurbsSurface::CreateRevolvedSurface(o, z.xyz(), w, arc, s), "sphere"); A = (ld)w * r * r * (1 - cosl(b)); g.tag("sphere"); }
    g.nontrivial(); g.note([&](std::ostream& os) { os << s << " by " << NAMES[t] << " area " << (double)A; }); (void)pi; double a = NurbsSurface::ApproximateArea(s, TYPES[t]); NEAR1(a, A, tol * (1 + A), NAMES[t]);
}
// the area does not depend on the parametrisation, the position or redundant knots and scales with the square of the size
LAW(invariance, 600, 25000) {
    auto s = genSheet(g, 1); int t = g.chance(1, 4) ? 2 : 0, k = g.integer(0, 5); LN_NurbsSurface r; ld f = 1; g.nontrivial(); g.note([&](std::ostream& o) { o << "change " << k << " " << NAMES[t]; });
    if (k == 0) NurbsSurface::Swap(s.s, r); else if (k == 1) { NurbsSurface::Reverse(s.s, SurfaceDirection::All, r); } else if (k == 2) { double a = g.coord(5), b = g.coord(5); NurbsSurface::Reparametrize(s.s, a, a + g.real(0.3, 9), b, b + g.real(0.3, 9), r); }
    else if (k == 3) { double u = genParam(g, s.ku, false, false); NurbsSurface::InsertKnot(s.s, u, 1, true, r); } else if (k == 4) { NurbsSurface::ElevateDegree(s.s, 1, g.boolean(), r); } else { double q = g.real(0.3, 3); f = (ld)q * q; r = s.s; for (auto& row : r.ControlPoints) for (auto& p : row) p = XYZW(p.ToXYZ(true) * q, p[3]); }
    ld a = NurbsSurface::ApproximateArea(s.s, TYPES[t]), b = NurbsSurface::ApproximateArea(r, TYPES[t]); NEAR1(b, a * f, (t == 0 ? 2e-4L : 1e-2L) * (1 + a * f), "area after the change");
}
