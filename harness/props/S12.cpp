// S12: surfaces swept along a trajectory: translational sweep, sweeps with sections, swung surface, and the normals along a curve they use
#include "gen.h"
const char* pbt::RULE = "random profiles (plane where the operation asks for one) and random regular trajectories, open, straight and smoothly closed, rational or not; every case is non-trivial";
static GCurve line(Gen& g) { GCurve c; XYZ a = genPoint(g, 10), b = genPoint(g, 10); if ((b - a).Length() < 1) pbt::discard("short line"); NurbsCurve::CreateLine(a, b, c.c); c.k.U = c.c.KnotVector; c.k.p = 1; c.k.distinct = {c.k.U.front(), c.k.U.back()}; c.scale = 10; c.wr = 1; c.rational = false; return c; }
static XYZ turn(const XYZ& p, int how) { return how == 0 ? p : how == 1 ? XYZ(p[1], p[2], p[0]) : how == 2 ? XYZ(p[2], p[0], p[1]) : XYZ(-p[1], p[0], p[2]); }
// a closed curve whose start and end tangents agree: points around a loop with the two ends of the polygon on a line through the seam
static GCurve loop(Gen& g, bool smooth) {
    GCurve c; int p = g.integer(2, 5); KnotOpt ko; ko.many = false; ko.maxInterior = 4; ko.maxMult = 1; c.k = genKnots(g, p, ko); int n = (int)c.k.U.size() - p - 1; int need = 7; (void)need; if (n < 6) { std::vector<double> U(p + 1, 0.0); int in = 7 - p - 1 + g.integer(0, 3); for (int i = 1; i <= in; i++) U.push_back((double)i / (in + 1)); U.insert(U.end(), p + 1, 1.0); c.k.U = U; c.k.p = p; c.k.distinct = distinctOf(U, 0, 1); n = (int)U.size() - p - 1; }
    c.c.Degree = p; c.c.KnotVector = c.k.U; double r = g.real(5, 15), e = g.real(0.6, 1.4); std::vector<XYZ> P; for (int i = 0; i < n; i++) { ld a = 2 * M_PIl * (i - 0.5L) / (n - 2); P.push_back(XYZ(r * cosl(a), r * e * sinl(a), r * 0.3 * (2 * g.unit() - 1))); } XYZ seam = 0.5 * (P[1] + P[n - 2]); if (!smooth) { seam = seam + 0.4 * (P[2] - P[1]) + 0.2 * (P[1] - P[n - 2]); } P[0] = P[n - 1] = seam; std::vector<double> w(n, 1.0); if (g.chance(1, 3)) for (int i = 1; i + 1 < n; i++) w[i] = g.real(0.7, 1.4); int how = g.integer(0, 3); for (auto& q : P) q = turn(q, how); finish(c, P, w); return c;
}
static GCurve trajectory(Gen& g, int& kind) {
    kind = g.weighted({4, 2, 3, 1}); if (kind == 1) return line(g); if (kind >= 2) return loop(g, kind == 2);
    CurveOpt o; o.maxDegree = 5; o.knots.many = false; o.knots.maxInterior = 4; o.knots.maxMult = 1; auto c = genRegular(g, o, 0.7); int how = g.integer(0, 3); std::vector<XYZ> P; std::vector<double> w; for (auto& q : c.c.ControlPoints) { P.push_back(turn(q.ToXYZ(true), how)); w.push_back(q[3]); } finish(c, P, w); return c;
}
static GCurve profileXY(Gen& g) { CurveOpt o; o.maxDegree = 4; o.knots.many = false; o.knots.maxInterior = 3; GCurve c = genCurve(g, o); std::vector<XYZ> P; std::vector<double> w; for (auto& q : c.c.ControlPoints) { P.push_back(XYZ(g.coord(3), g.coord(3), 0)); w.push_back(0.5 + g.unit()); } if (!c.rational) w.assign(P.size(), 1.0); finish(c, P, w); return c; }
static V3 unit(const V3& v) { return v * (1 / v.len()); }
static V3 cross(const V3& a, const V3& b) { V3 r; r.x = a.y * b.z - a.z * b.y; r.y = a.z * b.x - a.x * b.z; r.z = a.x * b.y - a.y * b.x; return r; }
static void regular(const GCurve& c, ld least) { for (double t : probes(c.k.distinct, 5)) if (refCurveDers(c.c, t, 1)(1).len() * (c.k.hi() - c.k.lo()) < least) pbt::discard("nearly singular"); }
LAW(translational, 6000, 250000) {
    CurveOpt o; o.knots.many = false; auto a = genCurve(g, o), b = genCurve(g, o); g.nontrivial(); g.tagIf(a.rational && b.rational, "both-rational"); g.note([&](std::ostream& s) { s << "profile " << a.c << " trajectory " << b.c; });
    LN_NurbsSurface s; NurbsSurface::CreateGeneralizedTranslationalSweepSurface(a.c, b.c, s); validSurface(s, "translational sweep"); REQUIRE(s.DegreeU == a.c.Degree && s.DegreeV == b.c.Degree, "degrees"); sameKnots(s.KnotVectorU, a.c.KnotVector, "knots along the profile"); sameKnots(s.KnotVectorV, b.c.KnotVector, "knots along the trajectory");
    for (int i = 0; i < 24; i++) { double u = genParam(g, a.k), v = genParam(g, b.k); NEAR3(refEval(s, u, v), refEval(a.c, u) + refEval(b.c, v), 1e-9L * (1 + a.scale + b.scale) * a.wr * b.wr, "at " << u << "," << v); }
}
LAW(projected_normals, 3000, 100000) {
    int kind; GCurve c = trajectory(g, kind); regular(c, 1e-2L * (1 + c.scale)); g.nontrivial(); g.tag(kind == 0 ? "open" : kind == 1 ? "line" : kind == 2 ? "closed" : "closed-with-corner"); g.note([&](std::ostream& o) { o << c.c; });
    auto B = NurbsCurve::ProjectNormal(c.c); REQUIRE(B.size() == c.c.KnotVector.size(), "one normal per knot, got " << B.size()); ld tol = 1e-7L * c.wr;
    std::vector<V3> T; for (double t : c.c.KnotVector) T.push_back(unit(refCurveDers(c.c, t, 1)(1)));
    for (size_t i = 0; i < B.size(); i++) { NEAR1(V3(B[i]).len(), 1, 1e-9L, "unit length at knot " << i); NEAR1(V3(B[i]).dot(T[i]), 0, tol, "perpendicular to the tangent at knot " << i); }
    if (kind == 2) NEAR3(B.front(), B.back(), tol, "the normals of a closed curve close");
    else for (size_t i = 1; i < B.size(); i++) { V3 b = V3(B[i - 1]) - T[i] * V3(B[i - 1]).dot(T[i]); if (b.len() < 1e-3L) continue; NEAR3(B[i], unit(b), tol / b.len(), "normal " << i << " is the projection of the one before"); }
}
// the iso curve at v is the profile, moved rigidly so that its plane is perpendicular to the trajectory at t and its origin lies there
static ld defect(const LN_NurbsSurface& s, const GCurve& p, const LN_NurbsCurve& T, ld t, ld v, int n, ld* worst) {
    RefDers d = refCurveDers(T, t, 1); V3 o = d(0), z = unit(d(1)); ld lo = p.k.lo(), hi = p.k.hi(), e = 0; std::vector<V3> A, B; ld L = 0, big = 1; for (int i = 0; i <= n; i++) { ld u = lo + (hi - lo) * i / n; V3 a = refEval(s, u, v) - o, b = refEval(p.c, u); A.push_back(a); B.push_back(b); big = std::max(big, b.len()); }
    for (int i = 0; i <= n; i++) { ld h = A[i].dot(z); e += h * h; L = std::max(L, fabsl(h)); for (int j = 0; j <= i; j++) { ld x = (A[i].dot(A[j]) - B[i].dot(B[j])) / big, y = (z.dot(cross(A[j], A[i])) - (B[j].x * B[i].y - B[j].y * B[i].x)) / big; e += x * x + y * y; L = std::max(L, std::max(fabsl(x), fabsl(y))); } }
    if (worst) *worst = L; return e;
}
static ld section(const LN_NurbsSurface& s, const GCurve& p, const LN_NurbsCurve& T, ld t, ld guess) { // parameter of the section
    auto f = [&](ld v) { return defect(s, p, T, t, v, 3, nullptr); }; std::vector<std::pair<ld, ld>> c; const int N = 160; std::vector<ld> F; for (int i = 0; i <= N; i++) F.push_back(f((ld)i / N)); for (int i = 0; i <= N; i++) if ((i == 0 || F[i] <= F[i - 1]) && (i == N || F[i] <= F[i + 1])) c.push_back({F[i], (ld)i / N}); std::sort(c.begin(), c.end()); (void)guess; ld best = 0, be = 1e300L; for (size_t k = 0; k < c.size() && k < 6; k++) { ld a = std::max(0.0L, c[k].second - 1.0L / N), b = std::min(1.0L, c[k].second + 1.0L / N); for (int i = 0; i < 100; i++) { ld x = a + (b - a) * 0.38196601L, y = a + (b - a) * 0.61803399L; if (f(x) < f(y)) b = y; else a = x; } ld v = (a + b) / 2, e = f(v); if (e < be) { be = e; best = v; } } return best;
}
#define SECTION(v, t, tol, what) do { ld w_; defect(s, p, c.c, t, v, 10, &w_); REQUIRE(w_ <= (tol), what << ": off by " << (double)w_); } while (0)
LAW(sweep_through_sections, 700, 25000) {
    int kind; GCurve c = trajectory(g, kind); regular(c, 1e-2L * (1 + c.scale)); GCurve p = profileXY(g); if (p.scale < 0.5) pbt::discard("tiny profile"); int K = g.integer(1, 9), n = (int)c.c.ControlPoints.size(); g.nontrivial(); g.tag(kind == 0 ? "open" : kind == 1 ? "line" : kind == 2 ? "closed" : "closed-with-corner"); g.note([&](std::ostream& o) { o << "profile " << p.c << " along " << c.c << " profiles " << K; });
    LN_NurbsSurface s; NurbsSurface::CreateSweepSurface(p.c, c.c, K, s); validSurface(s, "sweep"); REQUIRE(s.DegreeU == p.c.Degree, "degree along the profile"); sameKnots(s.KnotVectorU, p.c.KnotVector, "knots along the profile"); int rows = (int)s.ControlPoints[0].size(); REQUIRE(rows >= K + 1 && rows >= n, "at least " << K + 1 << " sections and as many as the trajectory has control points, got " << rows);
    ld tol = 1e-6L * (1 + c.scale + p.scale) * c.wr; SECTION(0, c.k.lo(), tol, "first section"); SECTION(1, c.k.hi(), tol, "last section");
    if (kind == 1) { V3 dir = refEval(c.c, c.k.hi()) - refEval(c.c, c.k.lo()); for (int i = 0; i < 12; i++) { ld v = g.unit(), u = genParam(g, p.k); V3 d = refEval(s, u, v) - refEval(s, u, 0); NEAR3(cross(d, unit(dir)), V3(XYZ(0, 0, 0)), tol, "sweep along a line"); REQUIRE(d.dot(unit(dir)) > -tol && d.dot(unit(dir)) < dir.len() + tol, "within the line"); } }
    else if (rows == n && n > 2) for (int k = 1; k + 1 < n; k++) { if (n > 5 && !g.chance(1, 3)) continue; ld t = 0; for (int i = 1; i <= c.c.Degree; i++) t += c.c.KnotVector[k + i]; t /= c.c.Degree; ld v = section(s, p, c.c, t, 0); SECTION(v, t, tol * 10, "section " << k << " at " << (double)t); g.tag("inner-section"); }
}
LAW(sweep_with_degree, 250, 9000) {
    int kind; GCurve c = trajectory(g, kind); if (c.c.Degree == 1 && kind != 1) pbt::discard("polyline"); regular(c, 1e-2L * (1 + c.scale)); GCurve p = profileXY(g); if (p.scale < 0.5) pbt::discard("tiny profile"); int K = g.integer(1, 7), q = g.integer(1, std::min(K, 4)); g.nontrivial(); g.tag(kind == 0 ? "open" : kind == 1 ? "line" : kind == 2 ? "closed" : "closed-with-corner"); g.note([&](std::ostream& o) { o << "profile " << p.c << " along " << c.c << " profiles " << K << " degree " << q; });
    LN_NurbsSurface s; NurbsSurface::CreateSweepSurface(p.c, c.c, K, q, s); validSurface(s, "sweep"); REQUIRE(s.DegreeU == p.c.Degree && s.DegreeV == q, "degrees"); sameKnots(s.KnotVectorU, p.c.KnotVector, "knots along the profile"); REQUIRE((int)s.ControlPoints[0].size() == K + 1, "sections " << s.ControlPoints[0].size());
    ld tol = 1e-6L * (1 + c.scale + p.scale) * c.wr, lo = c.k.lo(), hi = c.k.hi(), L; SECTION(0, lo, tol, "first section"); SECTION(1, hi, tol, "last section");
    const int M = 32; std::vector<ld> cum{0}; for (int i = 0; i < M; i++) cum.push_back(cum.back() + refLength(c.c, lo + (hi - lo) * i / M, lo + (hi - lo) * (i + 1) / M, 3)); L = cum.back();
    for (int k = 1; k < K; k++) { int j = 0; while (j + 1 < M && cum[j + 1] < L * k / K) j++; ld a0 = lo + (hi - lo) * j / M, a = a0, b = lo + (hi - lo) * (j + 1) / M; for (int i = 0; i < 22; i++) { ld m = (a + b) / 2; if (cum[j] + refLength(c.c, a0, m, 1) < L * k / K) a = m; else b = m; } ld t = (a + b) / 2; // equal lengths; the position the library chose is close to it
        ld v = (t - lo) / (hi - lo), win = std::min(0.02L, 5e-4L * (1 + L) * (k + 1) / (refCurveDers(c.c, t, 1)(1).len() * (hi - lo))); auto f = [&](ld x) { return defect(s, p, c.c, lo + (hi - lo) * x, x, 4, nullptr); };
        ld best = 1e300L, bv = v; for (int i = -10; i <= 10; i++) { ld x = std::min(1.0L, std::max(0.0L, v + i * win / 10)), e = f(x); if (e < best) { best = e; bv = x; } }
        ld a2 = std::max(0.0L, bv - win / 10), b2 = std::min(1.0L, bv + win / 10); for (int i = 0; i < 80; i++) { ld x = a2 + (b2 - a2) * 0.38196601L, y = a2 + (b2 - a2) * 0.61803399L; if (f(x) < f(y)) b2 = y; else a2 = x; } bv = (a2 + b2) / 2;
        ld w; defect(s, p, c.c, lo + (hi - lo) * bv, bv, 10, &w); REQUIRE(w <= tol * 10, "section " << k << " near " << (double)v << " (equal lengths): off by " << (double)w); g.tag("inner-section"); }
}
LAW(swung, 5000, 200000) {
    CurveOpt o; o.knots.many = false; auto a = genCurve(g, o), b = genCurve(g, o); double al = g.chance(1, 3) ? 1.0 : g.real(0.2, 3); if (g.chance(1, 4)) al = -al; auto flat = [&](GCurve& c, int zero) { std::vector<XYZ> P; std::vector<double> w; for (auto& q : c.c.ControlPoints) { XYZ x = q.ToXYZ(true); x[zero] = 0; P.push_back(x); w.push_back(q[3]); } finish(c, P, w); }; flat(a, 1); flat(b, 2); g.nontrivial(); g.note([&](std::ostream& s) { s << "profile " << a.c << " trajectory " << b.c << " scale " << al; });
    LN_NurbsSurface s; REQUIRE(NurbsSurface::CreateSwungSurface(a.c, b.c, al, s), "refused"); validSurface(s, "swung surface");
    for (int i = 0; i < 24; i++) { double u = genParam(g, a.k), v = genParam(g, b.k); V3 p = refEval(a.c, u), t = refEval(b.c, v); NEAR3(refEval(s, u, v), (V3(XYZ(al * p.x * t.x, al * p.x * t.y, p.z))), 1e-9L * (1 + a.scale) * (1 + b.scale) * (1 + fabsl(al)) * a.wr * b.wr, "at " << u << "," << v); }
}
