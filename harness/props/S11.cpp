// S11: bounding boxes, tessellation and triangulation of surfaces
#include "gen.h"
const char* pbt::RULE = "random surfaces (unequal degrees and nets, weights, any domain) and, for meshes, height fields whose x and y are affine in u and v; every case is non-trivial";
static void inBox(const LN_BoundingBox3d& b, const V3& p, ld tol, const char* what) { REQUIRE(p.x >= b.MinPoint[0] - tol && p.x <= b.MaxPoint[0] + tol && p.y >= b.MinPoint[1] - tol && p.y <= b.MaxPoint[1] + tol && p.z >= b.MinPoint[2] - tol && p.z <= b.MaxPoint[2] + tol, what << " " << p << " outside " << b.MinPoint << " - " << b.MaxPoint); }
LAW(axis_aligned_box, 4000, 200000) {
    auto s = genSurface(g); g.nontrivial(); if (g.boolean()) { XYZ d = genPoint(g, 3 * s.scale); for (auto& r : s.s.ControlPoints) for (auto& q : r) { double w = q.GetW(); XYZ p = q.ToXYZ(true) + d; q = XYZW(p, w); } s.scale *= 4; g.tag("moved"); g.note([&](std::ostream& o) { o << "moved by " << d; }); }
    auto b = NurbsSurface::GetBoundingBox(s.s); ld tol = 1e-9L * (1 + s.scale); LN_BoundingBox3d c; for (int k = 0; k < 3; k++) { c.MinPoint[k] = 1e300; c.MaxPoint[k] = -1e300; } for (auto& r : s.s.ControlPoints) for (auto& q : r) { XYZ p = q.ToXYZ(true); for (int k = 0; k < 3; k++) { c.MinPoint[k] = std::min(c.MinPoint[k], p[k]); c.MaxPoint[k] = std::max(c.MaxPoint[k], p[k]); } }
    inBox(c, b.MinPoint, tol, "corner beyond the control points:"); inBox(c, b.MaxPoint, tol, "corner beyond the control points:");
    for (double u : s.ku.distinct) for (double v : s.kv.distinct) inBox(b, refEval(s.s, u, v), tol, "surface point at a knot pair");
}
FINDING(bounding_box) {   // a bump over [0,1]^2: the box only knows the corners
    LN_NurbsSurface s; s.DegreeU = s.DegreeV = 2; s.KnotVectorU = s.KnotVectorV = {0, 0, 0, 1, 1, 1}; for (int i = 0; i < 3; i++) { s.ControlPoints.push_back({}); for (int j = 0; j < 3; j++) s.ControlPoints[i].push_back(XYZW(XYZ(i / 2.0, j / 2.0, i == 1 && j == 1 ? 4 : 0), 1)); } inBox(NurbsSurface::GetBoundingBox(s), refEval(s, 0.5L, 0.5L), 1e-9L, "surface point");
}
LAW(oriented_box, 4000, 200000) {
    auto s = genSurface(g); g.nontrivial(); if (g.boolean()) { XYZ d = genPoint(g, 3 * s.scale); for (auto& r : s.s.ControlPoints) for (auto& q : r) { double w = q.GetW(); XYZ p = q.ToXYZ(true) + d; q = XYZW(p, w); } s.scale *= 4; }
    auto b = NurbsSurface::GetOrientedBoundingBox(s.s); ld tol = 1e-9L * (1 + s.scale); for (int i = 0; i < 3; i++) { REQUIRE(b.HalfExtents[i] >= 0, "extent " << b.HalfExtents[i]); for (int j = 0; j <= i; j++) NEAR1(V3(b.Axes[i]).dot(b.Axes[j]), i == j, 1e-9L, "axes not orthonormal"); }
    ld mx[3] = {-1e300L, -1e300L, -1e300L}, mn[3] = {1e300L, 1e300L, 1e300L}; for (auto& r : s.s.ControlPoints) for (auto& q : r) { V3 p = V3(q.ToXYZ(true)) - V3(b.Center); for (int i = 0; i < 3; i++) { ld t = p.dot(b.Axes[i]); mx[i] = std::max(mx[i], t); mn[i] = std::min(mn[i], t); } }
    for (int i = 0; i < 3; i++) { NEAR1(mx[i], b.HalfExtents[i], tol, "box not tight or not containing the control points on axis " << i); NEAR1(-mn[i], b.HalfExtents[i], tol, "box not tight or not containing the control points on axis " << i); }
    for (int k = 0; k < 12; k++) { double u = genParam(g, s.ku), v = genParam(g, s.kv); V3 p = refEval(s.s, u, v) - V3(b.Center); for (int i = 0; i < 3; i++) REQUIRE(fabsl(p.dot(b.Axes[i])) <= b.HalfExtents[i] + tol, "surface point at " << u << "," << v << " outside"); }
}
LAW(oriented_box_of_a_box, 3000, 100000) {   // a flat rectangle in any pose: the box has its sides as axes
    g.nontrivial(); double a = g.real(2, 9), b = a * g.real(0.1, 0.7); V3 X = V3(genPoint(g, 5)), Y = V3(genPoint(g, 5)), O = V3(genPoint(g, 20)); V3 Z = X.cross(Y); if (Z.len() < 0.5) pbt::discard("collinear"); X = X / X.len(); Z = Z / Z.len(); Y = Z.cross(X); LN_NurbsSurface s; s.DegreeU = s.DegreeV = 1; s.KnotVectorU = s.KnotVectorV = {0, 0, 1, 1}; for (int i = 0; i < 2; i++) { s.ControlPoints.push_back({}); for (int j = 0; j < 2; j++) s.ControlPoints[i].push_back(XYZW((O + X * (a * i) + Y * (b * j)).xyz(), 1)); } g.note([&](std::ostream& o) { o << s; });
    auto r = NurbsSurface::GetOrientedBoundingBox(s); NEAR3(V3(r.Center), O + X * (a / 2) + Y * (b / 2), 1e-8L * 30, "center"); double h[3] = {r.HalfExtents[0], r.HalfExtents[1], r.HalfExtents[2]}; std::sort(h, h + 3); NEAR1(h[0], 0, 1e-6L, "thickness"); NEAR1(h[1], b / 2, 1e-6L * 10, "short side"); NEAR1(h[2], a / 2, 1e-6L * 10, "long side");
}
LAW(equal_tessellation, 60, 1500) {
    SurfOpt o; o.knots.maxInterior = g.chance(1, 4) ? 3 : 1; o.knots.many = false; auto s = genSurface(g, o); g.nontrivial(); std::vector<XYZ> P; std::vector<UV> K; NurbsSurface::EquallyTessellate(s.s, P, K); auto line = [](const Knots& k) { std::vector<double> r; for (size_t i = 0; i + 1 < k.distinct.size(); i++) for (int j = 0; j < 100; j++) r.push_back(k.distinct[i] + (k.distinct[i + 1] - k.distinct[i]) * j / 100); r.push_back(k.hi()); return r; };
    auto U = line(s.ku), V = line(s.kv); REQUIRE(P.size() == K.size(), "points " << P.size() << " parameters " << K.size()); REQUIRE(K.size() == U.size() * V.size(), "parameters " << K.size() << " for " << U.size() << "x" << V.size());
    for (size_t i = 0; i < K.size(); i++) { REQUIRE(std::fabs(K[i][0] - U[i / V.size()]) < 1e-9 * 100 && std::fabs(K[i][1] - V[i % V.size()]) < 1e-9 * 100, "parameter " << i << " is " << K[i]); if (i % 37 == 0 || i + 1 == K.size()) NEAR3(V3(P[i]), refEval(s.s, K[i][0], K[i][1]), 1e-8L * (1 + s.scale) * s.wr, "point " << i); }
}
LAW(grid_triangulation, 600, 20000) {
    auto s = genSurface(g); g.nontrivial(); int nu = g.integer(2, 12), nv = g.integer(2, 12); if (g.chance(1, 20)) nu += g.integer(5, 60); if (g.chance(1, 20)) nv += g.integer(5, 60); if (nu != nv) g.tag("unequal-resolution"); g.note([&](std::ostream& o) { o << "resolution " << nu << "x" << nv; }); auto m = NurbsSurface::Triangulate(s.s, nu, nv, false);
    REQUIRE(m.Vertices.size() == (size_t)nu * nv && m.UVs.size() == m.Vertices.size(), "vertices " << m.Vertices.size() << " uvs " << m.UVs.size()); REQUIRE(m.Faces.size() == (size_t)2 * (nu - 1) * (nv - 1), "faces " << m.Faces.size()); REQUIRE(m.UVIndices.size() == 3 * m.Faces.size(), "uv indices " << m.UVIndices.size());
    for (size_t i = 0; i < m.Vertices.size(); i++) { double u = s.ku.lo() + (s.ku.hi() - s.ku.lo()) * (double)(i / nv) / (nu - 1), v = s.kv.lo() + (s.kv.hi() - s.kv.lo()) * (double)(i % nv) / (nv - 1); REQUIRE(std::fabs(m.UVs[i][0] - u) < 1e-9 * 100 && std::fabs(m.UVs[i][1] - v) < 1e-9 * 100, "uv " << i << " is " << m.UVs[i] << " expected " << UV(u, v)); NEAR3(V3(m.Vertices[i]), refEval(s.s, m.UVs[i][0], m.UVs[i][1]), 1e-8L * (1 + s.scale) * s.wr, "vertex " << i); }
    ld area = 0; int sign = 0; std::map<std::pair<int, int>, int> edges; for (size_t f = 0; f < m.Faces.size(); f++) { auto& F = m.Faces[f]; REQUIRE(F.size() == 3, "face size"); for (int k = 0; k < 3; k++) { REQUIRE(F[k] >= 0 && F[k] < (int)m.Vertices.size(), "index " << F[k]); REQUIRE(m.UVIndices[3 * f + k] == F[k], "uv index of face " << f); REQUIRE((++edges[{F[k], F[(k + 1) % 3]}]) == 1, "edge used twice in one direction"); } UV a = m.UVs[F[0]], b = m.UVs[F[1]], c = m.UVs[F[2]]; ld A = ((ld)(b[0] - a[0]) * (c[1] - a[1]) - (ld)(b[1] - a[1]) * (c[0] - a[0])) / 2; int sg = A > 0 ? 1 : -1; if (!sign) sign = sg; REQUIRE(sg == sign, "face " << f << " turned over"); area += fabsl(A); }
    ld D = (ld)(s.ku.hi() - s.ku.lo()) * (s.kv.hi() - s.kv.lo()); NEAR1(area, D, 1e-9L * D, "covered parameter area");
}
// a height field: x and y are affine in u and v
static GSurf heightField(Gen& g, double& ax, double& ay) {
    SurfOpt o; o.weights = WOne; o.maxDegree = 4; auto s = genSurface(g, o); double mag = g.real(1, 20); ax = mag / (s.ku.hi() - s.ku.lo()); ay = mag * g.real(0.3, 3) / (s.kv.hi() - s.kv.lo()); bool flat = g.chance(1, 4); double amp = mag * g.real(0, 0.5); int n = (int)s.s.ControlPoints.size(), m = (int)s.s.ControlPoints[0].size(); s.scale = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double gu = 0, gv = 0; for (int k = 1; k <= s.s.DegreeU; k++) gu += s.s.KnotVectorU[i + k] / s.s.DegreeU; for (int k = 1; k <= s.s.DegreeV; k++) gv += s.s.KnotVectorV[j + k] / s.s.DegreeV; s.s.ControlPoints[i][j] = XYZW(XYZ(ax * gu, ay * gv, flat ? 1 : g.coord(amp)), 1); for (int k = 0; k < 3; k++) s.scale = std::max(s.scale, std::fabs(s.s.ControlPoints[i][j][k])); } g.tagIf(flat, "flat"); g.note([&](std::ostream& os) { os << s.s; }); return s;
}
static void checkDelaunayMesh(Gen& g, const LN_NurbsSurface& s, const LN_Mesh& m, const std::vector<UV>& K, double u0, double u1, double v0, double v1) {
    for (auto& F : m.Faces) { REQUIRE(F.size() == 3, "face size"); for (int k = 0; k < 3; k++) REQUIRE(F[k] >= 0 && F[k] < (int)m.Vertices.size() && F[k] != F[(k + 1) % 3], "face " << F[0] << " " << F[1] << " " << F[2]); }
    ld W = u1 - u0, H = v1 - v0, sum = 0; auto x = [&](int i) { return (K[i][0] - u0) / W; }; auto y = [&](int i) { return (K[i][1] - v0) / H; };
    for (auto& F : m.Faces) sum += fabsl((x(F[1]) - x(F[0])) * (y(F[2]) - y(F[0])) - (y(F[1]) - y(F[0])) * (x(F[2]) - x(F[0]))) / 2; NEAR1(sum, 1, 2e-3L, "the triangles cover this share of the parameter rectangle");
    for (int k = 0; k < 40; k++) { ld px = g.unit(), py = g.unit(); int in = 0, near = 0; for (auto& F : m.Faces) { ld mn = 1e300L, mxv = -1e300L; ld A = (x(F[1]) - x(F[0])) * (y(F[2]) - y(F[0])) - (y(F[1]) - y(F[0])) * (x(F[2]) - x(F[0])); for (int e = 0; e < 3; e++) { int a = F[e], b = F[(e + 1) % 3]; ld d = ((x(b) - x(a)) * (py - y(a)) - (y(b) - y(a)) * (px - x(a))); d /= hypotl(x(b) - x(a), y(b) - y(a)) + 1e-30L; if (A < 0) d = -d; mn = std::min(mn, d); mxv = std::max(mxv, d); } if (mn > 1e-4L) in++; else if (mn > -1e-4L) near++; } REQUIRE(in <= 1, "point " << (double)px << "," << (double)py << " of the unit square lies in " << in << " triangles"); REQUIRE(in + near >= 1, "point " << (double)px << "," << (double)py << " of the unit square lies in no triangle"); }
}
LAW(delaunay_triangulation, 150, 5000) {
    double ax, ay; auto s = heightField(g, ax, ay); g.nontrivial(); int nu = g.integer(2, 9), nv = g.integer(2, 9); g.note([&](std::ostream& o) { o << "resolution " << nu << "x" << nv; }); auto m = NurbsSurface::Triangulate(s.s, nu, nv, true); REQUIRE(m.Vertices.size() >= (size_t)nu * nv, "vertices " << m.Vertices.size());
    std::vector<UV> K; for (size_t i = 0; i < m.Vertices.size(); i++) { double u = m.Vertices[i][0] / ax, v = m.Vertices[i][1] / ay; REQUIRE(u >= s.ku.lo() - 1e-8 * 100 && u <= s.ku.hi() + 1e-8 * 100 && v >= s.kv.lo() - 1e-8 * 100 && v <= s.kv.hi() + 1e-8 * 100, "vertex " << i << " off the surface"); u = std::min(std::max(u, s.ku.lo()), s.ku.hi()); v = std::min(std::max(v, s.kv.lo()), s.kv.hi()); NEAR1(refEval(s.s, u, v).z, m.Vertices[i][2], 1e-6L * (1 + s.scale), "vertex " << i << " off the surface"); K.push_back(UV(u, v)); }
    for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) { double u = s.ku.lo() + (s.ku.hi() - s.ku.lo()) * i / (nu - 1), v = s.kv.lo() + (s.kv.hi() - s.kv.lo()) * j / (nv - 1); bool f = false; for (auto& k : K) f = f || (std::fabs(k[0] - u) < 1e-6 * (s.ku.hi() - s.ku.lo() + 1) && std::fabs(k[1] - v) < 1e-6 * (s.kv.hi() - s.kv.lo() + 1)); REQUIRE(f, "grid vertex " << u << "," << v << " missing"); }
    checkDelaunayMesh(g, s.s, m, K, s.ku.lo(), s.ku.hi(), s.kv.lo(), s.kv.hi());
}
LAW(delaunay_closed, 60, 2000) {   // cylinders: first and last rows (or columns) coincide
    g.nontrivial(); double r = g.real(0.5, 5), h = g.real(1, 10); LN_NurbsSurface s; if (!NurbsSurface::CreateCylindricalSurface(XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 2 * Constants::Pi, r, h, s)) pbt::fail("no cylinder"); if (g.boolean()) { LN_NurbsSurface t; NurbsSurface::Swap(s, t); s = t; g.tag("swapped"); } int nu = g.integer(4, 9), nv = g.integer(4, 9); g.note([&](std::ostream& o) { o << s << " resolution " << nu << "x" << nv; });
    auto m = NurbsSurface::Triangulate(s, nu, nv, true); ld A = 0; for (auto& v : m.Vertices) NEAR1(hypot(v[0], v[1]), r, 1e-6L * (1 + r), "vertex off the cylinder"); for (auto& F : m.Faces) { for (int k : F) REQUIRE(k >= 0 && k < (int)m.Vertices.size(), "index"); A += V3(m.Vertices[F[1]] - m.Vertices[F[0]]).cross(V3(m.Vertices[F[2]] - m.Vertices[F[0]])).len() / 2; }
    ld full = 2 * M_PIl * r * h; REQUIRE(A > 0.6L * full, "mesh area " << (double)A << " of a cylinder with area " << (double)full);
}
