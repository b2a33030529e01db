// U08: intersections of lines and planes, projections of points
#include "gen.h"
const char* pbt::RULE = "lines of direction length 0.2 to 10 that meet, are skew by at least 0.01, parallel or coincident, angles of at least 0.05; planes and lines that cross, are parallel or contained; a case is non-trivial when neither line is an axis";
static XYZ dir(Gen& g) { XYZ d = g.chance(1, 4) ? XYZ(g.integer(-1, 1), g.integer(-1, 1), g.integer(-1, 1)) : genPoint(g, 1); if (V3(d).len() < 0.2L) d = XYZ(1, 0, 0); return d * g.real(0.5, 5); }
LAW(lines, 30000, 1000000) {
    XYZ u = dir(g), v = dir(g); XYZ P = genPoint(g); double s = g.coord(5), t = g.coord(5); int kind = g.weighted({4, 3, 2, 1}); if (kind < 2 && g.chance(1, 3)) { V3 e = V3(u).cross(V3(v)); if (e.len() < 1e-3L) pbt::discard("nearly parallel"); v = (V3(u) * (g.real(0.3, 2) * (g.boolean() ? 1 : -1)) + e * (V3(u).len() / e.len() * std::pow(10.0L, g.real(-2.2, -0.5)))).xyz(); g.tag("small-angle"); } V3 n = V3(u).cross(V3(v)); ld sn = n.len() / V3(u).len() / V3(v).len(); if (kind < 2 && (sn < 4e-3L || n.dot(n) < 1e-4L)) pbt::discard("nearly parallel"); XYZ p0 = P - u * s, p1 = P - v * t; double gap = g.real(0.01, 5); if (kind == 1) p1 = p1 + (n * (gap / n.len())).xyz(); if (kind >= 2) { v = u * (g.real(0.3, 3) * (g.boolean() ? 1 : -1)); p1 = p0 + u * t; if (kind == 2) p1 = p1 + (V3(u).cross(V3(0.3L, 0.5L, -0.7L)) * (gap / 5 + 0.2)).xyz(); }
    static const char* T[] = {"intersecting", "skew", "parallel", "coincident"}; g.tag(T[kind]); g.nontrivial(u[0] != 0 && u[1] != 0); g.note([&](std::ostream& o) { o << T[kind] << " " << p0 << "+" << u << " " << p1 << "+" << v; }); double a = 1e300, b = 1e300; XYZ X; auto r = Intersection::ComputeRays(p0, u, p1, v, a, b, X); 
    if (kind == 0) { REQUIRE(r == CurveCurveIntersectionType::Intersecting, "type " << (int)r); NEAR3(X, P, 1e-7L, "point"); NEAR1(a, s, 1e-7L, "first parameter"); NEAR1(b, t, 1e-7L, "second parameter"); } else if (kind == 1) { REQUIRE(r == CurveCurveIntersectionType::Skew, "type " << (int)r); NEAR1(a, s, 1e-7L, "first parameter"); NEAR1(b, t, 1e-7L, "second parameter"); NEAR3(X, P, 1e-7L, "foot on the first line"); } else if (kind == 2) { if (V3(u).cross(V3(p1) - V3(p0)).len() < 1e-3L) return; REQUIRE(r == CurveCurveIntersectionType::Parallel, "type " << (int)r); } else { REQUIRE(r == CurveCurveIntersectionType::Coincident || (r == CurveCurveIntersectionType::Intersecting && (V3(p0) - V3(p1)).len() < 1e-4L), "type " << (int)r); NEAR1((V3(X) - V3(p0)).cross(V3(u)).len(), 0, 1e-8L, "point on the line"); }
}
LAW(line_and_plane, 30000, 1000000) {
    XYZ n = dir(g), o = genPoint(g), d = dir(g), q = genPoint(g); int kind = g.weighted({3, 1, 1}); V3 N(n), D(d); if (kind) { V3 e = D - N * (D.dot(N) / N.dot(N)); if (e.len() < 0.05L) pbt::discard("direction along the normal"); d = e.xyz(); ld h = (V3(q) - V3(o)).dot(N) / N.dot(N); V3 f = V3(q) - N * h; if (kind == 1) { ld off = g.real(0.01, 3); f = f + N * off; } q = f.xyz(); } else { if (g.chance(1, 4)) { V3 e = D - N * (D.dot(N) / N.dot(N)); if (e.len() < 0.05L) pbt::discard("direction along the normal"); D = e + N * (e.len() / N.len() * std::pow(10.0L, g.real(-2.5, -0.5)) * (g.boolean() ? 1 : -1)); d = D.xyz(); D = V3(d); g.tag("small-angle"); } if (fabsl(D.dot(N)) < 1e-3L * D.len() * N.len() || fabsl(D.dot(N)) < 1e-4L) pbt::discard("nearly parallel"); } static const char* T[] = {"crossing", "parallel", "contained"}; g.tag(T[kind]); g.nontrivial(n[0] != 0 && n[1] != 0); g.note([&](std::ostream& s) { s << T[kind] << " plane " << o << " normal " << n << " line " << q << "+" << d; });
    XYZ X; auto r = Intersection::ComputeLineAndPlane(n, o, q, d, X); if (kind == 1) { REQUIRE(r == LinePlaneIntersectionType::Parallel, "type " << (int)r); return; } if (kind == 2) REQUIRE(r == LinePlaneIntersectionType::On, "type " << (int)r); else REQUIRE(r == LinePlaneIntersectionType::Intersecting, "type " << (int)r); ld far = 1 + (V3(X) - V3(q)).len(); NEAR1((V3(X) - V3(o)).dot(N) / N.len(), 0, 1e-8L * far, "distance from the plane"); NEAR1((V3(X) - V3(q)).cross(V3(d)).len() / V3(d).len(), 0, 1e-8L * far, "distance from the line");
}
LAW(point_to_line, 30000, 1000000) {
    XYZ a = genPoint(g), d = dir(g), b = a + d; double t = g.chance(1, 5) ? (double)g.integer(0, 1) : g.real(-1, 2); V3 e = V3(d).cross(V3(dir(g))); double h = g.coord(3); XYZ f = (V3(a) + V3(d) * t).xyz(), p = (V3(f) + e * h).xyz(); g.nontrivial(h != 0); g.tagIf(t < 0 || t > 1, "outside"); g.note([&](std::ostream& o) { o << a << " to " << b << " point " << p << " t=" << t; }); NEAR3(Projection::PointToRay(a, d, p), f, 1e-8L, "PointToRay"); if (fabsl(t) < 1e-5L && t != 0) return; if (fabsl(t - 1) < 1e-5L && t != 1) return; XYZ X; bool in = Projection::PointToLine(a, b, p, X); REQUIRE(in == (t >= 0 && t <= 1), "PointToLine says " << in << " at " << t); if (in) NEAR3(X, f, 1e-8L, "PointToLine"); if (g.chance(1, 20)) REQUIRE(!Projection::PointToLine(a, a, p, X), "empty segment");
}
LAW(stereographic, 20000, 500000) {   // from the pole (0,0,2r) of the sphere around (0,0,r) to the plane z = 0
    double r = g.real(0.1, 10), th = g.real(0, 6.28), ph = g.real(0.05, 3.14); V3 P(r * sinl(ph) * cosl(th), r * sinl(ph) * sinl(th), r + r * cosl(ph)); XYZ p = P.xyz(); P = V3(p); g.nontrivial(); g.note([&](std::ostream& o) { o << "r=" << r << " " << p; }); XYZ q = Projection::Stereographic(p, r); V3 N(0, 0, 2 * (ld)r), Q(q); NEAR1(q[2], 0, 0, "z"); NEAR1((Q - N).cross(P - N).len() / (Q - N).len() / (P - N).len(), 0, 1e-9L, "collinear with the pole"); REQUIRE((Q - N).dot(P - N) > 0, "wrong side of the pole"); NEAR1(Q.len(), 2 * r * sinl(ph) / (1 - cosl(ph)), 1e-8L * (1 + Q.len()) * 1000, "distance");
}
