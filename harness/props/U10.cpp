// U10: control nets convert and multiply like matrices, boxes overlap, conic arcs split and join smoothly
#include "gen.h"
#include "BezierCurve.h"
#include "ControlPointsUtils.h"
const char* pbt::RULE = "a net of more than one point, or boxes and arcs of positive size";
static std::vector<std::vector<XYZW>> net(Gen& g, int r, int c) { std::vector<std::vector<XYZW>> P(r, std::vector<XYZW>(c)); for (auto& x : P) for (auto& y : x) { XYZ p = genPoint(g, 10); y = XYZW(p, std::pow(2.0, g.integer(-3, 3)) * (1 + g.unit())); } return P; }
LAW(nets, 8000, 300000) {
    int r = g.integer(1, 5), c = g.integer(1, 5), k = g.integer(1, 5); auto P = net(g, r, c); if (r * c > 1) g.nontrivial();
    auto E = ControlPointsUtils::ToXYZ(P); REQUIRE((int)E.size() == r, "rows"); std::vector<std::vector<XYZ>> X(r, std::vector<XYZ>(c)); for (int i = 0; i < r; i++) { auto row = ControlPointsUtils::ToXYZ(P[i]); REQUIRE((int)row.size() == c && (int)E[i].size() == c, "columns"); for (int j = 0; j < c; j++) { ld w = P[i][j][3]; V3 e(0, 0, 0); e.x = P[i][j][0] / w; e.y = P[i][j][1] / w; e.z = P[i][j][2] / w; NEAR3(E[i][j], e, 1e-13L * (1 + e.len()), "point " << i << "," << j); NEAR3(row[j], e, 1e-13L * (1 + e.len()), "point " << j); X[i][j] = genPoint(g, 10); } }
    auto H = ControlPointsUtils::ToXYZW(X); REQUIRE((int)H.size() == r, "rows"); for (int i = 0; i < r; i++) { REQUIRE((int)H[i].size() == c, "columns"); for (int j = 0; j < c; j++) for (int a = 0; a < 4; a++) REQUIRE(H[i][j][a] == (a < 3 ? X[i][j][a] : 1.0), "weighted point " << i << "," << j); }
    std::vector<std::vector<double>> R(c, std::vector<double>(k)), L(k, std::vector<double>(r)); for (auto* M : {&R, &L}) for (auto& x : *M) for (auto& y : x) y = g.coord(3);
    auto A = ControlPointsUtils::Multiply(P, R), B = ControlPointsUtils::Multiply(L, P); REQUIRE((int)A.size() == r && (int)A[0].size() == k && (int)B.size() == k && (int)B[0].size() == c, "shape of the product");
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) for (int a = 0; a < 4; a++) { ld s = 0, m = 0; for (int q = 0; q < c; q++) { s += (ld)P[i][q][a] * R[q][j]; m += fabsl((ld)P[i][q][a] * R[q][j]); } NEAR1(A[i][j][a], s, 1e-13L * m, "points times matrix " << i << "," << j); }
    for (int i = 0; i < k; i++) for (int j = 0; j < c; j++) for (int a = 0; a < 4; a++) { ld s = 0, m = 0; for (int q = 0; q < r; q++) { s += L[i][q] * (ld)P[q][j][a]; m += fabsl((ld)P[q][j][a] * L[i][q]); } NEAR1(B[i][j][a], s, 1e-13L * m, "matrix times points " << i << "," << j); }
}
LAW(boxes, 8000, 300000) {
    LN_BoundingBox3d a, b; double lo[2][3], hi[2][3]; for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) { lo[i][k] = g.integer(-4, 4) * 0.5; hi[i][k] = lo[i][k] + g.integer(0, 5) * 0.5; } a.MinPoint = XYZ(lo[0][0], lo[0][1], lo[0][2]); a.MaxPoint = XYZ(hi[0][0], hi[0][1], hi[0][2]); b.MinPoint = XYZ(lo[1][0], lo[1][1], lo[1][2]); b.MaxPoint = XYZ(hi[1][0], hi[1][1], hi[1][2]); g.nontrivial();
    bool want = true; for (int k = 0; k < 3; k++) want = want && std::max(lo[0][k], lo[1][k]) <= std::min(hi[0][k], hi[1][k]); g.tagIf(want, "overlap"); g.note([&](std::ostream& o) { o << a.MinPoint << a.MaxPoint << " " << b.MinPoint << b.MaxPoint; });
    REQUIRE(a.Intersects(b) == want && b.Intersects(a) == want, "boxes " << (want ? "share" : "do not share") << " a point"); REQUIRE(a.Intersects(a), "box and itself");
}
// barycentric coordinates in the triangle a, b, c
static bool bary(const V3& a, const V3& b, const V3& c, const V3& p, ld& x, ld& y, ld& z) { V3 n = (b - a).cross(c - a); ld d = n.dot(n); if (d < 1e-12L) return false; x = (b - p).cross(c - p).dot(n) / d; y = (c - p).cross(a - p).dot(n) / d; z = (a - p).cross(b - p).dot(n) / d; return true; }
LAW(split_arc, 8000, 300000) {   // a conic arc with end weights 1 splits at its shoulder into two arcs of the same form
    V3 a(genPoint(g, 10)), b(genPoint(g, 10)), c(genPoint(g, 10)); if ((b - a).cross(c - a).len() < 0.2L) pbt::discard("flat"); double w = g.chance(1, 2) ? g.real(0.05, 0.95) : g.real(0.05, 6); if (g.chance(1, 6)) w = 1; g.nontrivial(); g.note([&](std::ostream& o) { o << a << b << c << " weight " << w; });
    XYZ Q, S, R; double iw; NurbsCurve::SplitArc(a.xyz(), b.xyz(), w, c.xyz(), Q, S, R, iw); ld M = a.len() + b.len() + c.len() + 1, area = (b - a).cross(c - a).len();
    V3 sh = (a + b * (2 * (ld)w) + c) / (2 + 2 * (ld)w); NEAR3(S, sh, 1e-12L * M, "split point"); REQUIRE(iw > 0, "weight " << iw);
    for (int half = 0; half < 2; half++) for (int k = 0; k <= 8; k++) { ld t = k / 8.0L, B0 = (1 - t) * (1 - t), B1 = 2 * t * (1 - t) * iw, B2 = t * t; V3 p = half ? (V3(S) * B0 + V3(R) * B1 + c * B2) / (B0 + B1 + B2) : (a * B0 + V3(Q) * B1 + V3(S) * B2) / (B0 + B1 + B2); ld x, y, z; if (!bary(a, b, c, p, x, y, z)) return; NEAR1(y * y, 4 * (ld)w * w * x * z, 1e-10L * (1 + w * w) * (1 + M * M / area), "point " << k << " of half " << half << " leaves the conic"); REQUIRE(half ? z >= x - 1e-9L : x >= z - 1e-9L, "half " << half << " runs over the other half"); }
}
LAW(quadratic_pieces, 8000, 300000) {   // conic pieces for local interpolation leave and arrive along the given tangents
    XYZ ex, ey; { double th = g.coord(3), ph = g.coord(3); ex = XYZ(cos(th), sin(th), 0); ey = XYZ(-sin(th) * cos(ph), cos(th) * cos(ph), sin(ph)); } XYZ o = genPoint(g, 5); double L = g.real(0.5, 8); int mode = g.weighted({4, 3, 2, 1}); double al, be;
    if (mode == 0) { al = g.real(0.15, 1.3); be = -g.real(0.15, 1.3); if (g.boolean()) { al = -al; be = -be; } } else if (mode == 1) { al = g.real(0.15, 1.2); be = g.real(0.15, 1.2); if (fabs(al - be) < 0.1) be = al + 0.3; if (g.boolean()) { al = -al; be = -be; } } else if (mode == 2) { al = g.real(0.2, 1.3) * (g.boolean() ? 1 : -1); be = al; } else al = be = 0;
    XYZ t0 = ex * cos(al) + ey * sin(al), t1 = ex * cos(be) + ey * sin(be), P = o, Q = o + ex * L; g.nontrivial(); g.note([&](std::ostream& s) { s << P << t0 << Q << t1; }); std::vector<XYZW> r; if (!BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(P, t0, Q, t1, r)) { REQUIRE(mode == 1, "refused"); pbt::discard("an arc of the pair is nearly straight"); }
    REQUIRE(r.size() == (mode == 0 || mode == 3 ? 1u : 3u), r.size() << " middle points"); for (auto& x : r) REQUIRE(std::isfinite(x[3]) && x[3] > 0, "weight " << x[3]); ld tol = 1e-4L * L; V3 A = V3(r.front().ToXYZ(true)) - V3(P), B = V3(Q) - V3(r.back().ToXYZ(true)); g.tag(mode == 0 ? "one arc" : mode == 3 ? "line" : mode == 2 ? "parallel" : "inflection");
    REQUIRE(A.cross(V3(t0)).len() < tol && A.dot(V3(t0)) > 0, "start does not leave along its tangent"); REQUIRE(B.cross(V3(t1)).len() < tol && B.dot(V3(t1)) > 0, "end does not arrive along its tangent");
    if (r.size() == 3) { V3 u = V3(r[1].ToXYZ(true)) - V3(r[0].ToXYZ(true)), v = V3(r[2].ToXYZ(true)) - V3(r[1].ToXYZ(true)); REQUIRE(u.cross(v).len() < tol * L && u.dot(v) > 0, "the two arcs do not join smoothly"); REQUIRE(r[1][3] == 1.0, "weight of the joint " << r[1][3]); }
}
