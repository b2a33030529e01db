// S10: point inversion on surfaces, tangent inversion and signed distance
#include "gen.h"
static const bool tame = (extreme() = false);
const char* pbt::RULE = "random graph-like and free surfaces (at most two spans per direction), points on the surface (interior, knots, edges, corners), beside it and anywhere; every case is non-trivial";
static SurfOpt opt(Gen& g, bool graph) { SurfOpt o; o.maxDegree = 4; o.knots.maxInterior = g.chance(1, 5) ? 3 : 1; o.knots.many = false; o.graph = graph; return o; }
// distance from p to the surface: best of a grid, refined by halving pattern search in the reference model
static ld refDistance(const GSurf& s, const V3& p, int n = 28) {
    ld lo[2] = {s.ku.lo(), s.kv.lo()}, w[2] = {s.ku.hi() - lo[0], s.kv.hi() - lo[1]}; std::vector<std::array<ld, 3>> c;
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) { ld u = lo[0] + w[0] * i / n, v = lo[1] + w[1] * j / n; c.push_back({(refEval(s.s, u, v) - p).len(), u, v}); }
    std::sort(c.begin(), c.end()); ld best = 1e300; for (int k = 0; k < 5; k++) { auto b = c[k]; ld h[2] = {w[0] / n, w[1] / n}; for (int it = 0; it < 500 && h[0] > 1e-9L * w[0]; it++) { bool moved = false; for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) { ld u = std::min(lo[0] + w[0], std::max(lo[0], b[1] + dx * h[0])), v = std::min(lo[1] + w[1], std::max(lo[1], b[2] + dy * h[1])); ld d = (refEval(s.s, u, v) - p).len(); if (d < b[0] - 1e-15L) { b = {d, u, v}; moved = true; } } if (!moved) { h[0] /= 2; h[1] /= 2; } } best = std::min(best, b[0]); }
    return best;
}
// Newton steps stop at a crease, and sampling is coarse where weights differ much: there the result is near the best, not at it
static ld slack(const GSurf& s, ld best) { bool smooth = s.ku.maxInteriorMult() < s.ku.p && s.kv.maxInteriorMult() < s.kv.p; return best * 1e-3L + (smooth && s.wr < 50 ? 1e-3L : 6e-2L) * s.scale; }
static void inDomain(const GSurf& s, const UV& q) { REQUIRE(q[0] >= s.ku.lo() && q[0] <= s.ku.hi() && q[1] >= s.kv.lo() && q[1] <= s.kv.hi(), "parameter " << q << " outside the domain"); }
LAW(recover_surface_points, 160, 6000) {
    bool graph = g.chance(2, 3); auto s = genSurface(g, opt(g, graph)); g.nontrivial(); double u = genParam(g, s.ku), v = genParam(g, s.kv); V3 p = refEval(s.s, u, v); g.note([&](std::ostream& o) { o << "point of " << u << "," << v; });
    UV q = NurbsSurface::GetParamOnSurface(s.s, p.xyz()); inDomain(s, q); ld d = (refEval(s.s, q[0], q[1]) - p).len(); g.tag(graph ? "regular" : "possibly-folded"); REQUIRE(d <= (graph ? 2e-5L : 2e-2L) * (1 + s.scale), "distance " << (double)d << " at " << q);
}
LAW(nearest_point, 120, 4000) {
    auto s = genSurface(g, opt(g, g.chance(2, 3))); g.nontrivial(); V3 p; if (g.boolean()) { p = V3(genPoint(g, 1.5 * s.scale)); g.tag("anywhere"); } else { double u = genParam(g, s.ku), v = genParam(g, s.kv); auto R = refSurfDers(s.s, u, v, 1, 1); V3 n = R(1, 0).cross(R(0, 1)); if (n.len() < 1e-6) pbt::discard("singular"); p = R(0, 0) + n * (g.coord(0.3 * s.scale) / n.len()); g.tag("beside"); } p = V3(p.xyz()); g.note([&](std::ostream& o) { o << "point " << p; });
    UV q = NurbsSurface::GetParamOnSurface(s.s, p.xyz()); inDomain(s, q); ld d = (refEval(s.s, q[0], q[1]) - p).len(), best = refDistance(s, p); REQUIRE(d <= best + slack(s, best), "distance " << (double)d << " at " << q << " but the surface comes as close as " << (double)best);
}
LAW(all_params, 100, 3000) {
    auto s = genSurface(g, opt(g, g.chance(2, 3))); g.nontrivial(); bool on = g.chance(3, 4); double u = genParam(g, s.ku), v = genParam(g, s.kv); V3 p = on ? refEval(s.s, u, v) : V3(genPoint(g, 1.5 * s.scale)); p = V3(p.xyz()); g.tag(on ? "on-surface" : "anywhere"); g.note([&](std::ostream& o) { o << "point " << p << " of " << u << "," << v; });
    auto all = NurbsSurface::GetAllParamsOnSurface(s.s, p.xyz()); REQUIRE(!all.empty(), "no parameter"); ld d = 1e300; for (auto& q : all) { inDomain(s, q); d = std::min(d, (refEval(s.s, q[0], q[1]) - p).len()); } for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) REQUIRE(std::fabs(all[i][0] - all[j][0]) > 1e-9 || std::fabs(all[i][1] - all[j][1]) > 1e-9, "duplicate " << all[i]);
    ld best = on ? 0 : refDistance(s, p); REQUIRE(d <= best + slack(s, best), "nearest of " << all.size() << " parameters has distance " << (double)d << ", the surface comes as close as " << (double)best);
}
LAW(both_params_of_a_self_intersection, 60, 2000) {   // a ruled surface over a planar loop: the crossing line has two known parameters
    g.nontrivial(); double a = g.real(0.3, 0.8), h = g.real(1, 8), k = g.real(1, 10); LN_NurbsSurface s; s.DegreeU = 3; s.DegreeV = 1; s.KnotVectorU = {0, 0, 0, 0, 1, 1, 1, 1}; s.KnotVectorV = {0, 0, 1, 1}; double X[4] = {-1, 1 + a, -1 - a, 1}, Y[4] = {0, 2, 2, 0}; bool sw = g.boolean();   // symmetric cubic with a loop: x(t) = -x(1-t), y(t) = y(1-t)
    for (int i = 0; i < 4; i++) s.ControlPoints.push_back({XYZW(XYZ(k * X[i], k * Y[i], 0), 1), XYZW(XYZ(k * X[i], k * Y[i], h), 1)});
    // roots of x(t)=0 besides 1/2: x = -(1-t)^3+3(1+a)t(1-t)^2-3(1+a)t^2(1-t)+t^3; with m=t(1-t): (2t-1)(1-m) ... solve numerically
    auto x = [&](ld t) { return -(1 - t) * (1 - t) * (1 - t) + 3 * (1 + a) * t * (1 - t) * (1 - t) - 3 * (1 + a) * t * t * (1 - t) + t * t * t; }; ld lo = 0, hi = 0.49L; if (!(x(lo) < 0 && x(hi) > 0)) pbt::discard("no loop"); for (int i = 0; i < 90; i++) { ld m = (lo + hi) / 2; (x(m) < 0 ? lo : hi) = m; } ld t1 = lo, t2 = 1 - lo, w = 0.1L + 0.8L * g.unit(); V3 p = refEval(s, t1, w); NEAR3(refEval(s, t2, w), p, 1e-9L * k, "harness: crossing");
    if (sw) { LN_NurbsSurface r; NurbsSurface::Swap(s, r); s = r; } g.note([&](std::ostream& o) { o << s << " crossing at t=" << (double)t1 << " and " << (double)t2 << " height " << (double)w; }); auto all = NurbsSurface::GetAllParamsOnSurface(s, p.xyz());
    for (ld t : {t1, t2}) { ld e = 1e300; for (auto& q : all) e = std::min(e, hypotl((sw ? q[1] : q[0]) - t, (sw ? q[0] : q[1]) - w)); REQUIRE(e < 1e-4L, "parameter " << (double)t << " not among the " << all.size() << " found"); }
}
LAW(second_order_inversion, 300, 20000) {   // gently curved single patches, points near them
    SurfOpt o; o.minDegree = 2; o.maxDegree = 3; o.knots.maxInterior = 0; o.weights = WOne; extreme() = true; auto s = genSurface(g, o); extreme() = false; g.nontrivial(); double amp = g.real(0, 0.25); int n = (int)s.s.ControlPoints.size(), m = (int)s.s.ControlPoints[0].size(); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) s.s.ControlPoints[i][j] = XYZW(XYZ(5.0 * i / (n - 1), 5.0 * j / (m - 1), g.chance(1, 3) ? 0 : g.coord(amp)), 1);
    double fu = g.real(0.25, 0.75), fv = g.real(0.25, 0.75), u = s.ku.lo() + fu * (s.ku.hi() - s.ku.lo()), v = s.kv.lo() + fv * (s.kv.hi() - s.kv.lo()); auto R = refSurfDers(s.s, u, v, 1, 1); V3 nn = R(1, 0).cross(R(0, 1)); V3 p = R(0, 0) + nn * (g.coord(0.3) / nn.len()); g.note([&](std::ostream& os) { os << s.s << " point " << p << " over " << u << "," << v; });
    UV q = NurbsSurface::GetParamOnSurfaceByGSA(s.s, p.xyz()); inDomain(s, q); NEAR1(q[0], u, 1e-3L * (s.ku.hi() - s.ku.lo()), "u"); NEAR1(q[1], v, 1e-3L * (s.kv.hi() - s.kv.lo()), "v");
}
LAW(tangent_inversion, 8000, 300000) {
    extreme() = true; auto s = genSurface(g); extreme() = false; g.nontrivial(); double u = genParam(g, s.ku), v = genParam(g, s.kv); auto R = refSurfDers(s.s, u, v, 1, 1); V3 a = R(1, 0), b = R(0, 1); if (a.len() * (s.ku.hi() - s.ku.lo()) < 1e-2 * s.scale || b.len() * (s.kv.hi() - s.kv.lo()) < 1e-2 * s.scale || a.cross(b).len() < 0.05 * a.len() * b.len()) pbt::discard("nearly singular"); double x = g.coord(3), y = g.coord(3); V3 t = a * x + b * y, n = a.cross(b); if (g.chance(1, 3)) { t = t + n * (g.coord(2) / n.len()); g.tag("tilted"); } g.note([&](std::ostream& o) { o << "at " << u << "," << v << " tangent " << t; });
    UV q(0, 0); REQUIRE(NurbsSurface::GetUVTangent(s.s, UV(u, v), t.xyz(), q), "refused at a regular point"); NEAR1(q[0], x, 1e-6L * (10 + s.wr), "u component"); NEAR1(q[1], y, 1e-6L * (10 + s.wr), "v component");
}
LAW(signed_distance, 120, 4000) {
    SurfOpt o = opt(g, true); auto s = genSurface(g, o); g.nontrivial(); double u = s.ku.lo() + (0.1 + 0.8 * g.unit()) * (s.ku.hi() - s.ku.lo()), v = s.kv.lo() + (0.1 + 0.8 * g.unit()) * (s.kv.hi() - s.kv.lo()); auto R = refSurfDers(s.s, u, v, 1, 1); V3 n = R(1, 0).cross(R(0, 1)); if (n.len() < 1e-3) pbt::discard("singular"); double h = g.coord(0.05 * s.scale); V3 p(V3(R(0, 0) + n * (h / n.len())).xyz()); g.note([&](std::ostream& os) { os << "point at height " << h << " over " << u << "," << v; });
    if (std::fabs(h) < 1e-3 * s.scale) pbt::discard("on the surface"); ld best = refDistance(s, p); ld d = NurbsSurface::ComputeSignedDistanceFunction(s.s, p.xyz()); REQUIRE(fabsl(d) <= best + slack(s, best), "distance " << (double)d << " but the surface comes as close as " << (double)best); UV q = NurbsSurface::GetParamOnSurface(s.s, p.xyz()); best = std::min(best, (refEval(s.s, q[0], q[1]) - p).len()); REQUIRE(fabsl(d) >= best - 1e-6L * (1 + s.scale), "distance " << (double)d << " smaller than the nearest point's " << (double)best); if (best > 0.999L * fabs(h)) { g.tag("foot-known"); REQUIRE((d > 0) == (h > 0), "sign of " << (double)d << " on the side " << h); }
}
LAW(signed_distance_of_a_plane_patch, 150, 5000) {   // exact at any height, on both sides, for any orientation
    V3 o(genPoint(g)), a(genPoint(g)), b(genPoint(g)); if (a.len() < 1 || b.len() < 1 || a.cross(b).len() < 0.3 * a.len() * b.len()) pbt::discard("frame"); int p = g.integer(1, 3), q = g.integer(1, 3); LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU.assign(p + 1, 0.0); s.KnotVectorU.resize(2 * p + 2, 1.0); s.KnotVectorV.assign(q + 1, 0.0); s.KnotVectorV.resize(2 * q + 2, 1.0); s.ControlPoints.resize(p + 1); for (int i = 0; i <= p; i++) for (int j = 0; j <= q; j++) s.ControlPoints[i].push_back(XYZW((o + a * ((ld)i / p) + b * ((ld)j / q)).xyz(), 1)); g.nontrivial();
    V3 n = a.cross(b); n = n / n.len(); ld h = g.real(0.1, 60) * (g.boolean() ? 1 : -1), x = g.real(0.05, 0.95), y = g.real(0.05, 0.95); V3 pt = o + a * x + b * y + n * h; g.note([&](std::ostream& os) { os << s << " height " << (double)h << " over " << (double)x << "," << (double)y; });
    NEAR1(NurbsSurface::ComputeSignedDistanceFunction(s, pt.xyz()), h, 1e-3L * (1 + fabsl(h)), "signed distance");
}
