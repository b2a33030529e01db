// V01: volume evaluation, derivatives, iso curves, closedness, inversion and the Jacobian check
#include "gen.h"
const char* pbt::RULE = "random trivariate volumes (degrees 1-4 per direction, unequal net sizes, multiple knots, any domain, weights) at interior, knot and end parameters; non-trivial: interior knots or unequal weights";
static std::array<double, 3> genUVW(Gen& g, const GVol& v) { std::array<double, 3> t; for (int d = 0; d < 3; d++) t[d] = genParam(g, v.k[d]); g.note([&](std::ostream& o) { o << "uvw=(" << t[0] << "," << t[1] << "," << t[2] << ") "; }); return t; }
static UVW uvw(const std::array<double, 3>& t) { return UVW(t[0], t[1], t[2]); }
LAW(point, 8000, 300000) {
    auto v = genVolume(g); for (int i = 0; i < 3; i++) { auto t = genUVW(g, v); auto R = refVolDers(v.v, t[0], t[1], t[2], 0); NEAR3(NurbsVolume::GetPointOnVolume(v.v, uvw(t)), R(0), R.tol(0), "point"); }
}
LAW(derivatives, 8000, 300000) {
    auto v = genVolume(g); int K = g.integer(0, 4); auto t = genUVW(g, v); auto R = refVolDers(v.v, t[0], t[1], t[2], K); g.tagIf(K > std::min({v.v.DegreeU, v.v.DegreeV, v.v.DegreeW}), "order-above-degree");
    auto D = NurbsVolume::ComputeVolumeRationalDerivatives(v.v, K, uvw(t)); REQUIRE((int)D.size() == K + 1, "size");
    for (int a = 0; a <= K; a++) for (int b = 0; a + b <= K; b++) for (int c = 0; a + b + c <= K; c++) NEAR3(D[a][b][c], R(a, b, c), R.tol(a, b, c, 1e-9L), "derivative " << a << "," << b << "," << c);
}
LAW(iso_curves, 6000, 200000) {
    auto v = genVolume(g); auto t = genUVW(g, v); int free = g.integer(0, 2); for (int d = 0; d < 3; d++) if (d != free && std::fabs(t[d] + 1) < 1e-5) pbt::discard("fixed parameter equal to the marker of the free one");
    auto q = t; q[free] = -1; g.note([&](std::ostream& o) { o << "free " << free; }); LN_NurbsCurve c = NurbsVolume::GetIsoCurve(v.v, uvw(q)); validCurve(c, "GetIsoCurve"); REQUIRE(c.Degree == v.k[free].p, "degree"); sameKnots(c.KnotVector, v.k[free].U, "GetIsoCurve");
    for (double x : probes(v.k[free].distinct, c.Degree + 1)) { auto s = t; s[free] = x; NEAR3(refEval(c, x), refEval(v.v, s[0], s[1], s[2]), 1e-9L * v.scale * v.wr, "iso curve at " << x); }
}
static XYZW& at(LN_NurbsVolume& v, int d, int i, int a, int b) { return d == 0 ? v.ControlPoints[i][a][b] : d == 1 ? v.ControlPoints[a][i][b] : v.ControlPoints[a][b][i]; }
static const VolumeDirection DIR[3] = {VolumeDirection::U, VolumeDirection::V, VolumeDirection::W};
LAW(closedness, 4000, 100000) {
    auto v = genVolume(g); int d = g.integer(0, 2); int n[3] = {(int)v.v.ControlPoints.size(), (int)v.v.ControlPoints[0].size(), (int)v.v.ControlPoints[0][0].size()}; int A = d == 0 ? n[1] : n[0], B = d == 2 ? n[1] : n[2]; bool close = g.boolean();
    for (int a = 0; a < A; a++) for (int b = 0; b < B; b++) at(v.v, d, n[d] - 1, a, b) = at(v.v, d, 0, a, b);
    if (!close) { int a = g.integer(0, A - 1), b = g.integer(0, B - 1); at(v.v, d, n[d] - 1, a, b) = at(v.v, d, 0, a, b) + XYZW(1, -0.5, 0.25, 0); g.note([&](std::ostream& o) { o << "differs at " << a << "," << b; }); }
    g.tag(close ? "closed" : "open"); REQUIRE(NurbsVolume::IsClosed(v.v, DIR[d]) == close, (close ? "closed" : "open") << " in direction " << d);
}
static GVol genBox(Gen& g) { VolOpt o; o.maxDegree = 3; o.box = true; o.knots.maxInterior = 1; return genVolume(g, o); }
static std::array<double, 3> invert(const GVol& v, const V3& p) { UVW r = NurbsVolume::GetParamOnVolume(v.v, p.xyz()); std::array<double, 3> q = {r.GetU(), r.GetV(), r.GetW()}; for (int d = 0; d < 3; d++) REQUIRE(q[d] >= v.k[d].lo() && q[d] <= v.k[d].hi(), "parameter " << q[d] << " of direction " << d << " outside the domain"); return q; }
LAW(inversion_of_volume_points, 32, 1500) {
    auto v = genBox(g); auto t = genUVW(g, v); V3 p = refEval(v.v, t[0], t[1], t[2]); g.note([&](std::ostream& os) { os << "point " << p; });
    auto q = invert(v, p); ld dist = (refEval(v.v, q[0], q[1], q[2]) - p).len(); REQUIRE(dist <= 2e-4L * (1 + v.scale), "distance " << (double)dist);
}
LAW(inversion_of_free_points, 32, 1500) {   // no farther than the best of a grid, up to the resolution of the library's own search
    auto v = genBox(g); V3 p(genPoint(g, 2 * v.scale)); g.note([&](std::ostream& os) { os << "point " << p; }); auto q = invert(v, p); ld dist = (refEval(v.v, q[0], q[1], q[2]) - p).len();
    ld best = 1e300; for (int i = 0; i <= 6; i++) for (int j = 0; j <= 6; j++) for (int k = 0; k <= 6; k++) { auto f = [&](int d, int x) { return v.k[d].lo() + (v.k[d].hi() - v.k[d].lo()) * x / 6.0L; }; best = std::min(best, (refEval(v.v, f(0, i), f(1, j), f(2, k)) - p).len()); }
    REQUIRE(dist <= best + 0.05L * v.scale * v.wr, "distance " << (double)dist << " but a grid point lies at " << (double)best);
}
LAW(jacobian_check, 16, 400) {   // right-handed boxes pass, mirrored or folded ones do not
    VolOpt o; o.maxDegree = 3; o.box = true; o.knots.maxInterior = 1; o.weights = WOne; auto v = genVolume(g, o); int mode = g.integer(0, 2); g.tag(mode == 0 ? "right-handed" : mode == 1 ? "mirrored" : "folded");
    int n[3] = {(int)v.v.ControlPoints.size(), (int)v.v.ControlPoints[0].size(), (int)v.v.ControlPoints[0][0].size()}; int d = g.integer(0, 2);
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { double c[3] = {(double)i / (n[0] - 1), (double)j / (n[1] - 1), (double)k / (n[2] - 1)}; for (int q = 0; q < 3; q++) c[q] += 0.02 * std::sin(3.1 * i + 1.7 * j * q + k) / std::max({n[0], n[1], n[2]}); if (mode == 1) c[d] = -c[d]; if (mode == 2) c[d] = std::fabs(c[d] - 0.4); v.v.ControlPoints[i][j][k] = XYZW(XYZ(c[0] * 5, c[1] * 5, c[2] * 5), 1); }
    if (mode == 2 && n[d] == 2) { g.tag("two-points"); pbt::discard("cannot fold"); } if (mode == 2) { bool folds = false; for (int i = 0; i <= 200 && !folds; i++) { ld t[3]; for (int q = 0; q < 3; q++) t[q] = (v.k[q].lo() + v.k[q].hi()) / 2; t[d] = v.k[d].lo() + (v.k[d].hi() - v.k[d].lo()) * i / 400.0L; auto R = refVolDers(v.v, t[0], t[1], t[2], 1); folds = R(1, 0, 0).cross(R(0, 1, 0)).dot(R(0, 0, 1)) < -1e-3L; if (folds && i < 16) break; folds = folds && i < 16; } if (!folds) pbt::discard("no clear fold"); }
    REQUIRE(NurbsVolume::Check(v.v) == (mode == 0), "Jacobian check of a " << (mode == 0 ? "right-handed" : mode == 1 ? "mirrored" : "folded") << " volume");
}
