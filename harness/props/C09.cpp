#include "gen.h"
const char* pbt::RULE = "random lines, circular and elliptic arcs in random planes (any start angle, sweep from 0.01 to a full turn, sweeps at the quadrant boundaries), conic arcs with known middle point and weight, Hermite data (open and cyclic), and curves of known kind for the predicates (possibly refined, elevated, reversed or reparametrised); non-trivial: the arc has more than one segment, the conic weight differs from one, or the predicate case is a modified curve";

static void genFrame(Gen& g, V3& x, V3& y) {
    double a = g.real(-3, 3), b = g.real(-3, 3), c = g.real(-3, 3);
    if (g.chance(1, 3)) a = b = c = 0;
    auto rot = [](const V3& v, int ax, double t) { ld s = sinl(t), k = cosl(t); if (ax == 0) return V3(v.x, k * v.y - s * v.z, s * v.y + k * v.z); if (ax == 1) return V3(k * v.x + s * v.z, v.y, -s * v.x + k * v.z); return V3(k * v.x - s * v.y, s * v.x + k * v.y, v.z); };
    x = rot(rot(rot(V3(1, 0, 0), 2, a), 0, b), 1, c); y = rot(rot(rot(V3(0, 1, 0), 2, a), 0, b), 1, c);
}
struct ArcCase { V3 x, y, c; double a0, a1, rx, ry; LN_NurbsCurve n; };
static ArcCase genArc(Gen& g, bool circle) {
    ArcCase r; genFrame(g, r.x, r.y); r.c = V3(genPoint(g)); const double PI = 3.14159265358979323846;
    r.a0 = g.chance(1, 3) ? g.integer(-4, 4) * PI / 2 : g.real(-7, 7);
    double sweep = g.chance(1, 3) ? g.integer(1, 4) * PI / 2 : g.chance(1, 8) ? g.integer(1, 4) * PI / 2 - 0.001 : 0.01 + (2 * PI - 0.01) * g.unit();
    r.a1 = r.a0 + sweep; r.rx = g.real(0.2, 20); r.ry = circle ? r.rx : g.real(0.2, 20);
    g.tagIf(sweep > PI / 2 + 1e-6, "multi-segment"); g.tagIf(std::fabs(sweep - 2 * PI) < 1e-9, "full-turn"); g.tagIf(!circle, "ellipse"); g.nontrivial(sweep > PI / 2 + 1e-6);
    double sx = g.chance(1, 4) ? g.real(0.3, 4) : 1, sy = g.chance(1, 4) ? g.real(0.3, 4) : 1;
    g.note([&](std::ostream& o) { o << "arc centre " << r.c << " x " << r.x << " y " << r.y << " angles " << r.a0 << ".." << r.a1 << " radii " << r.rx << "," << r.ry; });
    REQUIRE(NurbsCurve::CreateArc(r.c.xyz(), (r.x * sx).xyz(), (r.y * sy).xyz(), r.a0, r.a1, r.rx, r.ry, r.n), "CreateArc failed");
    validCurve(r.n, "CreateArc");
    return r;
}
static void arcLaw(Gen& g, bool circle) {
    auto a = genArc(g, circle); V3 z = a.x.cross(a.y); ld R = std::max(a.rx, a.ry), tol = 1e-5L * (R + 1), prev = a.a0;
    REQUIRE(a.n.Degree == 2, "degree"); NEAR1(a.n.KnotVector.front(), 0, 0, "domain"); NEAR1(a.n.KnotVector.back(), 1, 0, "domain");
    auto at = [&](ld th) { return a.c + a.x * (a.rx * cosl(th)) + a.y * (a.ry * sinl(th)); };
    NEAR3(refEval(a.n, 0), at(a.a0), tol, "start point"); NEAR3(refEval(a.n, 1), at(a.a1), tol, "end point");
    for (int i = 1; i < 64; i++) {
        V3 d = refEval(a.n, i / 64.0L) - a.c; ld u = d.dot(a.x) / a.rx, v = d.dot(a.y) / a.ry;
        NEAR1(d.dot(z), 0, tol, "off the plane"); NEAR1(u * u + v * v, 1, 1e-5L, "off the ellipse at t=" << i / 64.0);
        ld th = atan2l(v, u); const ld T = 2 * 3.14159265358979323846264L; while (th < prev - 1e-4L) th += T; while (th >= prev - 1e-4L + T) th -= T;
        REQUIRE(th >= prev - 1e-4L && th <= a.a1 + 1e-4L, "angle " << (double)th << " after " << (double)prev << " end " << a.a1); prev = th;
    }
}
LAW(circular_arc, 10000, 500000) { arcLaw(g, true); }
LAW(elliptic_arc, 10000, 500000) { arcLaw(g, false); }
LAW(line, 5000, 100000) {
    V3 a(genPoint(g)), b(genPoint(g)); if ((a - b).len() < 1e-3) pbt::discard("coincident"); LN_NurbsCurve c; NurbsCurve::CreateLine(a.xyz(), b.xyz(), c);
    validCurve(c, "CreateLine"); for (int i = 0; i <= 8; i++) NEAR3(refEval(c, i / 8.0L), a + (b - a) * (i / 8.0L), 1e-12L * 20, "line"); REQUIRE(NurbsCurve::IsLinear(c), "line not linear");
    g.nontrivial();
}
static V3 conicAt(const V3& a, const V3& b, const V3& c, ld w, ld u) { ld k0 = (1 - u) * (1 - u), k1 = 2 * u * (1 - u) * w, k2 = u * u; return (a * k0 + b * k1 + c * k2) / (k0 + k1 + k2); }
struct Conic { V3 a, b, c; double w, u; };
static Conic genConic(Gen& g) {
    Conic r; V3 x, y; genFrame(g, x, y); V3 o(genPoint(g));
    double L = g.real(0.5, 10), h = g.real(0.3, 10), s = g.real(-0.5, 1.5);
    r.a = o; r.c = o + x * L; r.b = o + x * (s * L) + y * h; r.w = g.chance(1, 4) ? 1 : g.chance(1, 4) ? -g.real(0.15, 0.8) : g.real(0.15, 4); r.u = g.real(0.15, 0.85);
    g.nontrivial(r.w != 1); g.tagIf(r.w < 1, "elliptic"); g.tagIf(r.w < 0, "complementary-arc"); g.tagIf(r.w > 1, "hyperbolic");
    g.note([&](std::ostream& q) { q << "conic " << r.a << r.b << r.c << " w=" << r.w << " u=" << r.u; });
    return r;
}
LAW(one_conic_arc_recovers_middle_point_and_weight, 10000, 500000) {
    auto k = genConic(g); V3 m = conicAt(k.a, k.b, k.c, k.w, k.u); double f0 = g.real(0.2, 3), f1 = g.real(0.2, 3);
    XYZ P; double w; bool ok = NurbsCurve::CreateOneConicArc(k.a.xyz(), ((k.b - k.a) * f0).xyz(), k.c.xyz(), ((k.c - k.b) * f1).xyz(), m.xyz(), P, w);
    REQUIRE(ok, "conic refused"); NEAR3(P, k.b, 1e-5L * 20, "middle control point"); NEAR1(w, k.w, 1e-4L * (1 + fabsl(k.w)), "weight");
}
LAW(open_conic_is_the_conic, 10000, 500000) {
    auto k = genConic(g); V3 m = conicAt(k.a, k.b, k.c, k.w, k.u); LN_NurbsCurve n;
    bool ok = NurbsCurve::CreateOpenConic(k.a.xyz(), (k.b - k.a).xyz(), k.c.xyz(), (k.c - k.b).xyz(), m.xyz(), n);
    REQUIRE(ok, "conic refused"); validCurve(n, "CreateOpenConic"); REQUIRE(n.Degree == 2, "degree"); g.tagIf(n.ControlPoints.size() > 3, "multi-segment");
    NEAR3(refEval(n, 0), k.a, 1e-9L * 20, "start"); NEAR3(refEval(n, 1), k.c, 1e-9L * 20, "end");
    // implicit conic through its Bezier points: in coordinates p = a*l0 + b*l1 + c*l2 (l0+l1+l2=1): l1^2 = 4 w^2 l0 l2
    V3 e1 = k.b - k.a, e2 = k.c - k.a, nn = e1.cross(e2); ld den = nn.dot(nn);
    for (int i = 1; i < 32; i++) {
        V3 d = refEval(n, i / 32.0L) - k.a; ld l1 = d.cross(e2).dot(nn) / den, l2 = e1.cross(d).dot(nn) / den, l0 = 1 - l1 - l2;
        NEAR1(d.dot(nn) / nn.len(), 0, 1e-4L, "off the plane"); NEAR1(l1 * l1, 4 * k.w * k.w * l0 * l2, 1e-4L * (1 + k.w * k.w), "off the conic at t=" << i / 32.0);
        if (k.w > 0) REQUIRE(l0 > -1e-6L && l1 > -1e-6L && l2 > -1e-6L, "outside the control triangle"); else REQUIRE(l0 > -1e-6L && l1 < 1e-6L && l2 > -1e-6L, "not on the complementary arc");
    }
}
LAW(half_ellipse_with_parallel_tangents, 3000, 100000) {
    V3 x, y; genFrame(g, x, y); V3 o(genPoint(g)); double rx = g.real(0.5, 8), ry = g.real(0.5, 8), th = g.real(0.4, 2.7);
    V3 a = o + x * rx, c = o - x * rx, m = o + x * (rx * cosl(th)) + y * (ry * sinl(th)); LN_NurbsCurve n; g.nontrivial();
    g.note([&](std::ostream& q) { q << "half ellipse centre " << o << " x " << x << " y " << y << " radii " << rx << " " << ry << " through " << m; });
    REQUIRE(NurbsCurve::CreateOpenConic(a.xyz(), y.xyz(), c.xyz(), (y * -1).xyz(), m.xyz(), n), "half ellipse refused"); validCurve(n, "CreateOpenConic");
    NEAR3(refEval(n, 0), a, 1e-8L * 20, "start"); NEAR3(refEval(n, 1), c, 1e-8L * 20, "end");
    for (int i = 1; i < 32; i++) { V3 d = refEval(n, i / 32.0L) - o; ld u = d.dot(x) / rx, v = d.dot(y) / ry; NEAR1(u * u + v * v, 1, 1e-4L, "off the ellipse"); REQUIRE(v > 0, "wrong half"); }
}
LAW(hermite_interpolates_points_and_tangents, 10000, 500000) {
    int n = g.integer(4, 12); std::vector<XYZ> P, T; double mag = genMag(g);
    for (int i = 0; i < n; i++) { double dx = 0.5 * g.unit(); P.push_back(XYZ(mag * (i + dx), g.coord(mag), g.coord(mag))); T.push_back(genPoint(g, 5 * mag)); }
    if (g.chance(1, 4)) { P.back() = P.front(); g.tag("cyclic-points"); if (g.boolean()) { T.back() = T.front(); g.tag("cyclic-tangents"); } }
    g.nontrivial(); g.note([&](std::ostream& o) { o << "points " << P << " tangents " << T; });
    LN_NurbsCurve c; NurbsCurve::CreateCubicHermite(P, T, c);
    REQUIRE(c.Degree == 3 && c.KnotVector.size() == c.ControlPoints.size() + 4, "shape");
    std::vector<ld> u{0}; ld tot = 0; for (int i = 1; i < n; i++) { tot += (V3(P[i]) - V3(P[i - 1])).len(); u.push_back(tot); }
    for (int i = 0; i < n; i++) { auto d = refCurveDers(c, u[i] / tot, 1); NEAR3(d(0), V3(P[i]), 1e-8L * mag * n * 10, "point " << i << " of " << c); NEAR3(d(1), V3(T[i]), 1e-5L * mag * n, "tangent " << i << " of " << c); }
}
static LN_NurbsCurve modify(Gen& g, LN_NurbsCurve c) {
    int k = g.integer(0, 3);
    for (int i = 0; i < k; i++) {
        LN_NurbsCurve r; double lo = c.KnotVector.front(), hi = c.KnotVector.back();
        switch (g.integer(0, 3)) {
        case 0: NurbsCurve::Reverse(c, r); break;
        case 1: if (c.Degree > 4) continue; NurbsCurve::ElevateDegree(c, 1, r); break;
        case 2: { double t = lo + (hi - lo) * g.integer(1, 30) / 31.0; int m = 0; for (double x : c.KnotVector) m += std::fabs(x - t) < 1e-5 * (1 + std::fabs(t)); if (m >= c.Degree) continue; NurbsCurve::InsertKnot(c, t, 1, r); break; }
        default: NurbsCurve::Reparametrize(c, lo - 1, hi + 3, r); break;
        }
        c = r; g.tag("modified");
    }
    return c;
}
LAW(arc_predicate_accepts_arcs, 5000, 200000) {
    auto a = genArc(g, true); auto c = modify(g, a.n); LN_ArcInfo info; g.nontrivial();
    REQUIRE(NurbsCurve::IsArc(c, info), "circular arc not recognised: " << c);
    NEAR1(info.Radius, a.rx, 1e-3L * (1 + a.rx), "radius"); NEAR3(info.Center, a.c, 1e-3L * (1 + a.rx), "centre");
    REQUIRE(info.IsCircle == (a.a1 - a.a0 > 6.2831853), "full circle flag, sweep " << a.a1 - a.a0);
}
LAW(arc_predicate_rejects_others, 5000, 200000) {
    LN_NurbsCurve c; LN_ArcInfo info;
    if (g.boolean()) { auto a = genArc(g, false); if (std::fabs(a.rx - a.ry) < 0.1 * a.rx || a.a1 - a.a0 < 1.5) pbt::discard("nearly circular"); c = modify(g, a.n); g.tag("ellipse"); }
    else { CurveOpt o; o.degenerate = false; o.minDegree = 2; auto k = genCurve(g, o); c = k.c;
        // not equidistant from any point in the plane of three of its points: check by fitting a sphere through the end/middle points
        V3 A = refEval(c, k.k.lo()), B = refEval(c, (k.k.lo() + k.k.hi()) / 2), C = refEval(c, k.k.hi()), u = B - A, v = C - A; ld d = 2 * u.cross(v).dot(u.cross(v)); if (d < 1e-6) pbt::discard("collinear");
        V3 ctr = A + (u.cross(v).cross(u) * v.dot(v) + v.cross(u.cross(v)) * u.dot(u)) / d; ld R = (A - ctr).len(), dev = 0;
        for (int i = 0; i <= 40; i++) dev = std::max(dev, fabsl((refEval(c, k.k.lo() + (k.k.hi() - k.k.lo()) * i / 40.0L) - ctr).len() - R));
        if (dev < 1e-2 * (1 + R)) pbt::discard("nearly circular"); g.tag("free-form"); }
    g.nontrivial(); REQUIRE(!NurbsCurve::IsArc(c, info), "not an arc: " << c);
}
LAW(linear_predicate, 10000, 300000) {
    auto k = genCurve(g); auto c = modify(g, k.c); bool straight = g.boolean(); g.nontrivial();
    if (straight) { V3 o(genPoint(g)), d(genPoint(g)); if (d.len() < 0.1) pbt::discard("zero direction"); for (auto& q : c.ControlPoints) { double w = q.GetW(); q = XYZW((o + d * g.coord(1)).xyz(), w); } REQUIRE(NurbsCurve::IsLinear(c), "collinear control points not linear: " << c); g.tag("collinear"); }
    else { ld best = 0; std::vector<V3> P; for (auto& q : c.ControlPoints) P.push_back(V3(q.ToXYZ(true))); for (size_t i = 1; i < P.size(); i++) for (size_t j = i + 1; j < P.size(); j++) { ld l = std::max({(P[i] - P[0]).len(), (P[j] - P[0]).len(), 1.0L}); best = std::max(best, (P[i] - P[0]).cross(P[j] - P[0]).len() / l / l); }
        if (best < 1e-2) pbt::discard("nearly collinear"); REQUIRE(!NurbsCurve::IsLinear(c), "not linear: " << c); }
}
LAW(closed_predicate, 10000, 300000) {
    auto k = genCurve(g); bool close = g.boolean(); auto c = k.c; g.nontrivial(c.ControlPoints.size() > 2);
    if (close) { c.ControlPoints.back() = XYZW(c.ControlPoints.front().ToXYZ(true), c.ControlPoints.back().GetW()); g.tag("closed"); REQUIRE(NurbsCurve::IsClosed(c), "closed curve reported open " << c); }
    else {
        if (g.chance(1, 3) && c.ControlPoints.size() > 3) { int n = c.ControlPoints.size(); for (int i = 2; i < n; i++) c.ControlPoints[i] = c.ControlPoints[i - 2]; if (n % 2) pbt::discard("closed"); g.tag("alternating"); }
        V3 a(c.ControlPoints.front().ToXYZ(true)), b(c.ControlPoints.back().ToXYZ(true)); if ((a - b).len() < 1e-3 * k.scale) pbt::discard("nearly closed"); REQUIRE(!NurbsCurve::IsClosed(c), "open curve reported closed " << c); }
}
LAW(periodic_predicate, 5000, 200000) {
    int p = g.integer(1, 5), m = g.integer(p + 1, p + 6), n = m + p; LN_NurbsCurve c; c.Degree = p; double h = g.real(0.1, 2), u0 = g.coord(3); auto P = genPoints(g, m, 10, false); auto W = genWeights(g, m);
    for (int i = 0; i < n + p + 1; i++) c.KnotVector.push_back(u0 + h * i);
    for (int i = 0; i < n; i++) c.ControlPoints.push_back(XYZW(P[i % m], W[i % m])); g.nontrivial();
    g.note([&](std::ostream& s) { s << c; });
    REQUIRE(!NurbsCurve::IsClamp(c), "clamped?"); REQUIRE(NurbsCurve::IsPeriodic(c), "wrapped uniform curve not periodic: " << c); REQUIRE(NurbsCurve::IsClosed(c), "periodic curve not closed: " << c);
    auto k = genCurve(g); REQUIRE(!NurbsCurve::IsPeriodic(k.c), "clamped curve reported periodic");
    LN_NurbsCurve d = c; int at = g.integer(0, p - 1); V3 off(genPoint(g, 5)); if (off.len() < 0.5) pbt::discard("small"); d.ControlPoints[n - 1 - at] = XYZW((V3(d.ControlPoints[n - 1 - at].ToXYZ(true)) + off).xyz(), d.ControlPoints[n - 1 - at].GetW()); REQUIRE(!NurbsCurve::IsPeriodic(d), "curve whose control points do not wrap reported periodic: " << d);
    d = c; d.KnotVector[n] += 0.3 * h; REQUIRE(!NurbsCurve::IsPeriodic(d), "curve with uneven knots reported periodic: " << d);
}
