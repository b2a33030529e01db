// S06: basic surface constructors
#include "gen.h"
const char* pbt::RULE = "random corner points, frames, radii, angles, pairs of curves with different degrees and knots, profiles and axes; every case is non-trivial";
static V3 unit(const V3& a) { return a / a.len(); }
// a random right-handed orthonormal frame
static void genFrame(Gen& g, V3& x, V3& y, V3& z) { V3 a(genPoint(g, 1)), b(genPoint(g, 1)); if (g.chance(1, 4)) { a = V3(1, 0, 0); b = V3(0, 1, 0); } if (a.len() < 0.2 || a.cross(b).len() < 0.1 * b.len() || b.len() < 0.2) pbt::discard("frame"); x = unit(a); z = unit(a.cross(b)); y = z.cross(x); }
LAW(bilinear, 5000, 200000) {
    XYZ a = genPoint(g), b = genPoint(g), c = genPoint(g), d = genPoint(g); g.nontrivial(); g.note([&](std::ostream& o) { o << "corners " << a << b << c << d; }); LN_NurbsSurface s; NurbsSurface::CreateBilinearSurface(a, b, c, d, s); validSurface(s, "bilinear");
    REQUIRE(s.KnotVectorU.front() == 0 && s.KnotVectorU.back() == 1 && s.KnotVectorV.front() == 0 && s.KnotVectorV.back() == 1, "domain");
    for (int i = 0; i <= 5; i++) for (int j = 0; j <= 5; j++) { ld u = i / 5.0L, v = j / 5.0L; NEAR3(refEval(s, u, v), (V3(a) * (1 - v) + V3(b) * v) * (1 - u) + (V3(c) * (1 - v) + V3(d) * v) * u, 1e-8L, "bilinear at " << (double)u << "," << (double)v); }
}
LAW(cylinder, 6000, 200000) {
    V3 x, y, z; genFrame(g, x, y, z); g.nontrivial(); XYZ o = genPoint(g); double a = g.real(-7, 7), w = g.chance(1, 6) ? 2 * Constants::Pi : g.real(0.05, 6.2), r = g.real(0.1, 30), h = g.real(0.1, 30), k = g.real(0.3, 3); g.note([&](std::ostream& os) { os << "origin " << o << " x " << x << " y " << y << " from " << a << " sweep " << w << " radius " << r << " height " << h; });
    LN_NurbsSurface s; REQUIRE(NurbsSurface::CreateCylindricalSurface(o, (x * k).xyz(), (y * k).xyz(), a, a + w, r, h, s), "not created"); validSurface(s, "cylinder"); ld tol = 1e-8L * (10 + r + h);
    double u0 = s.KnotVectorU.front(), u1 = s.KnotVectorU.back(), v0 = s.KnotVectorV.front(), v1 = s.KnotVectorV.back(); ld prev = 0;
    for (int j = 0; j <= 24; j++) { ld f = j / 24.0L, ang = 0; for (int i = 0; i <= 3; i++) { ld e = i / 3.0L; V3 p = refEval(s, u0 + (u1 - u0) * e, v0 + (v1 - v0) * f) - V3(o); ld hz = p.dot(z), px = p.dot(x), py = p.dot(y); NEAR1(hz, h * (1 - e), tol, "height at " << (double)e << "," << (double)f); NEAR1(hypotl(px, py), r, tol, "radius at " << (double)e << "," << (double)f); ang = atan2l(py, px) - a; if (i == 0) { while (ang < prev - 1e-6L) ang += 2 * acosl(-1.0L); while (ang > prev + 2 * acosl(-1.0L) - 1e-3L) ang -= 2 * acosl(-1.0L); REQUIRE(ang >= prev - 1e-6L && ang <= w + 1e-6L, "angle " << (double)ang << " after " << (double)prev); prev = ang; } else NEAR1(cosl(ang - prev), 1, 1e-9L, "rulings are parallel to the axis"); } if (j == 0) NEAR1(prev, 0, 1e-7L, "start angle"); if (j == 24) NEAR1(prev, w, 1e-7L, "end angle"); }
}
static GCurve genOn(Gen& g, double lo, double hi, int maxDeg, WeightMode wm) { CurveOpt o; o.maxDegree = maxDeg; o.weights = wm; o.knots.many = false; o.knots.maxInterior = 4; o.knots.unitDomain = true; auto c = genCurve(g, o); for (auto& u : c.c.KnotVector) u = lo + (hi - lo) * u; for (auto& u : c.k.U) u = lo + (hi - lo) * u; for (auto& u : c.k.distinct) u = lo + (hi - lo) * u; return c; }
LAW(ruled, 6000, 250000) {
    double lo = g.chance(1, 2) ? 0 : g.coord(5), hi = lo + (g.chance(1, 2) ? 1 : g.real(0.5, 6)); bool rat = g.boolean(); auto a = genOn(g, lo, hi, 6, rat ? WAny : WOne), b = genOn(g, lo, hi, 6, rat ? WAny : WOne); g.nontrivial();
    if (g.chance(1, 3) && a.k.distinct.size() > 2) { // share an interior knot, possibly with another multiplicity
        double u = a.k.distinct[1]; LN_NurbsCurve t; int n = g.integer(1, b.c.Degree); bool clash = false; for (double x : b.k.distinct) clash |= std::fabs(x - u) < 1e-3 * (hi - lo); if (!clash && NurbsCurve::InsertKnot(b.c, u, n, t) == n) { b.c = t; b.k.distinct = distinctOf(t.KnotVector, lo, hi); g.tag("shared-knot"); } }
    for (double x : a.k.distinct) for (double y : b.k.distinct) if (x != y && std::fabs(x - y) < 1e-4 * (hi - lo)) pbt::discard("knots closer than the tolerance");
    g.note([&](std::ostream& o) { o << "on [" << lo << "," << hi << "] " << a.c << " and " << b.c; }); g.tagIf(a.c.Degree != b.c.Degree, "degrees-differ");
    LN_NurbsSurface s; NurbsSurface::CreateRuledSurface(a.c, b.c, s); validSurface(s, "ruled"); REQUIRE(s.DegreeU == std::max(a.c.Degree, b.c.Degree), "degree"); NEAR1(s.KnotVectorU.front(), lo, 1e-9L, "domain"); NEAR1(s.KnotVectorU.back(), hi, 1e-9L * (1 + fabsl(hi)), "domain"); ld sc = std::max(a.scale, b.scale), tol = 1e-8L * sc * a.wr * b.wr;
    std::vector<double> ds = distinctOf(s.KnotVectorU, lo, hi); double v0 = s.KnotVectorV.front(), v1 = s.KnotVectorV.back();
    for (double t : probes(ds, 3)) { V3 p = refEval(a.c, t), q = refEval(b.c, t); NEAR3(refEval(s, t, v0), p, tol, "first curve at " << t); NEAR3(refEval(s, t, v1), q, tol, "second curve at " << t); for (double f : {0.25, 0.5, 0.8}) { V3 m = refEval(s, t, v0 + f * (v1 - v0)); if (!rat) NEAR3(m, p * (1 - f) + q * f, tol, "between the curves at " << t); else { ld l = (q - p).len(); if (l > 1e-3 * sc) { NEAR1((m - p).cross(q - p).len() / l, 0, tol, "on the ruling at " << t); ld w = (m - p).dot(q - p) / (l * l); REQUIRE(w > -1e-9 && w < 1 + 1e-9, "between the curves at " << t); } } } }
}
static V3 rotate(const V3& p, const V3& o, const V3& k, ld th) { V3 d = p - o; return o + d * cosl(th) + k.cross(d) * sinl(th) + k * (k.dot(d) * (1 - cosl(th))); }
LAW(revolved, 6000, 250000) {
    V3 x, y, z; genFrame(g, x, y, z); XYZ o = genPoint(g); double rad = g.chance(1, 6) ? 2 * Constants::Pi : g.chance(1, 5) ? Constants::Pi / 2 * g.integer(1, 4) : g.real(0.02, 6.28), len = g.chance(1, 2) ? 1.0 : g.real(0.2, 5); CurveOpt co; co.maxDegree = 5; co.knots.many = false; auto c = genCurve(g, co); g.nontrivial();
    if (g.chance(1, 3)) { g.tag("touches-the-axis"); c.c.ControlPoints.front() = XYZW((V3(o) + z * g.coord(5)).xyz(), c.c.ControlPoints.front()[3]); if (g.boolean()) c.c.ControlPoints.back() = XYZW((V3(o) + z * g.coord(5) + x * g.real(0, 0.01)).xyz(), c.c.ControlPoints.back()[3]); }
    XYZ axis = (z * len).xyz(); g.note([&](std::ostream& os) { os << "about " << o << " axis " << axis << " by " << rad << " profile " << c.c; }); g.tagIf(len != 1.0, "axis-not-unit");
    LN_NurbsSurface s; REQUIRE(NurbsSurface::CreateRevolvedSurface(o, axis, rad, c.c, s), "not created"); validSurface(s, "revolved"); ld tol = 1e-7L * (c.scale + 10) * c.wr; REQUIRE(s.DegreeV == c.c.Degree, "profile degree"); sameKnots(s.KnotVectorV, c.c.KnotVector, "profile knots"); double u0 = s.KnotVectorU.front(), u1 = s.KnotVectorU.back();
    // find the angle of every u at the farthest profile point, then compare all profile points with their rotations
    auto pv = probes(c.k.distinct, 2); double far = pv[0]; ld fr = -1; for (double t : pv) { V3 d = refEval(c.c, t) - V3(o); ld q = (d - z * z.dot(d)).len(); if (q > fr) { fr = q; far = t; } } if (fr < 1e-2) pbt::discard("profile on the axis");
    V3 pf = refEval(c.c, far), df = pf - V3(o), ex = unit(df - z * z.dot(df)), ey = z.cross(ex); ld prev = 0;
    for (int i = 0; i <= 16; i++) { ld u = u0 + (u1 - u0) * i / 16.0L; V3 d = refEval(s, u, far) - V3(o); ld th = atan2l(d.dot(ey), d.dot(ex)); while (th < prev - 1e-5L) th += 2 * acosl(-1.0L); REQUIRE(th <= rad + 1e-5, "angle " << (double)th << " at u=" << (double)u); prev = th; if (i == 0) NEAR1(th, 0, 1e-6L, "start angle"); if (i == 16) NEAR1(th, rad, 1e-6L, "end angle"); for (double t : pv) NEAR3(refEval(s, u, t), rotate(refEval(c.c, t), V3(o), z, th), tol, "profile at " << t << " turned by " << (double)th); }
}
LAW(nonuniform_scaling, 5000, 200000) {
    auto s = genSurface(g); XYZ ref = g.chance(1, 2) ? XYZ(0, 0, 0) : genPoint(g); double f[3] = {g.real(0.2, 4), g.real(0.2, 4), g.real(-3, 3)}; g.note([&](std::ostream& o) { o << "factors " << f[0] << " " << f[1] << " " << f[2] << " about " << ref; });
    LN_NurbsSurface r = s.s; r.ControlPoints = NurbsSurface::NonUniformScaling(s.s.ControlPoints, f[0], f[1], f[2], ref); validSurface(r, "scaled"); for (int k = 0; k < 5; k++) { double u = genParam(g, s.ku), v = genParam(g, s.kv); V3 p = refEval(s.s, u, v), q(ref), w(q.x + f[0] * (p.x - q.x), q.y + f[1] * (p.y - q.y), q.z + f[2] * (p.z - q.z)); NEAR3(refEval(r, u, v), w, 1e-8L * (s.scale + 10) * s.wr, "scaled point at " << u << "," << v); }
}
FINDING(corner_fillet) {
    LN_NurbsCurve arc; NurbsCurve::CreateArc(XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, Constants::Pi / 2, 1, 1, arc); LN_NurbsSurface s; NurbsSurface::MakeCornerFilletSurface(arc, s); validSurface(s, "corner fillet surface");
}
