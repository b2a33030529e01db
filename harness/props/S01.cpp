// S01: evaluation, derivatives and iso curves of surfaces
#include "gen.h"
static const bool nets = degenerateNets() = true;
const char* pbt::RULE = "random NURBS/B-spline/Bezier surfaces (degrees 1..7 per direction, clamped, interior multiplicity up to the degree, weights all 1 or in [0.2,5], several domains, square and non-square nets) and parameters at corners, at knots and inside spans; non-trivial: interior knots or unequal weights (Bezier: a degree of at least 2)";
static UV genUV(Gen& g, const GSurf& s) { double u = genParam(g, s.ku), v = genParam(g, s.kv); g.note([&](std::ostream& o) { o << "uv=(" << u << "," << v << ") "; }); return UV(u, v); }
LAW(point, 30000, 1500000) {
    auto s = genSurface(g); UV uv = genUV(g, s); auto R = refSurfDers(s.s, uv[0], uv[1], 0, 0); ld tol = R.tol(0);
    XYZ got = NurbsSurface::GetPointOnSurface(s.s, uv);
    NEAR3(got, R(0), tol, "GetPointOnSurface at " << uv);
    int su = refSpan(s.s.DegreeU, s.s.KnotVectorU, uv[0]), sv = refSpan(s.s.DegreeV, s.s.KnotVectorV, uv[1]);
    for (int d = 0; d < 3; d++) {
        double lo = 1e300, hi = -1e300;
        for (int i = su - s.s.DegreeU; i <= su; i++) for (int j = sv - s.s.DegreeV; j <= sv; j++) { double x = s.s.ControlPoints[i][j][d] / s.s.ControlPoints[i][j][3]; lo = std::min(lo, x); hi = std::max(hi, x); }
        REQUIRE(got[d] >= lo - tol && got[d] <= hi + tol, "leaves the convex hull of its span at " << uv);
    }
    bool cu = uv[0] == s.ku.lo() || uv[0] == s.ku.hi(), cv = uv[1] == s.kv.lo() || uv[1] == s.kv.hi();
    if (cu && cv) { g.tag("corner"); auto& row = uv[0] == s.ku.lo() ? s.s.ControlPoints.front() : s.s.ControlPoints.back(); NEAR3(got, (uv[1] == s.kv.lo() ? row.front() : row.back()).ToXYZ(true), tol, "corner"); }
}
LAW(bspline_point_in_any_point_type, 15000, 500000) {
    auto s = genSurface(g); UV uv = genUV(g, s); LN_NurbsSurface a = s.s, w = s.s; for (auto& r : a.ControlPoints) for (auto& q : r) q = XYZW(q[0], q[1], q[2], 1.0); for (auto& r : w.ControlPoints) for (auto& q : r) q = XYZW(q[3], 0, 0, 1.0);
    auto Ra = refSurfDers(a, uv[0], uv[1], 0, 0), Rw = refSurfDers(w, uv[0], uv[1], 0, 0);
    LN_BsplineSurface<XYZ> b; b.DegreeU = s.s.DegreeU; b.DegreeV = s.s.DegreeV; b.KnotVectorU = s.s.KnotVectorU; b.KnotVectorV = s.s.KnotVectorV; for (auto& r : s.s.ControlPoints) { std::vector<XYZ> t; for (auto& q : r) t.push_back(q.ToXYZ(false)); b.ControlPoints.push_back(t); }
    NEAR3(BsplineSurface::GetPointOnSurface(b, uv), Ra(0), Ra.tol(0), "3D point at " << uv);
    XYZW h = BsplineSurface::GetPointOnSurface(s.s, uv); NEAR3(h.ToXYZ(false), Ra(0), Ra.tol(0), "homogeneous point at " << uv); NEAR1(h.GetW(), Rw(0).x, Rw.tol(0), "weight at " << uv);
}
LAW(rational_derivatives, 15000, 600000) {
    auto s = genSurface(g); UV uv = genUV(g, s); int K = g.integer(1, g.chance(1, 4) ? 4 : 3); g.note([&](std::ostream& o) { o << "order " << K; });
    auto R = refSurfDers(s.s, uv[0], uv[1], K, K); auto D = NurbsSurface::ComputeRationalSurfaceDerivatives(s.s, K, uv);
    REQUIRE((int)D.size() == K + 1, "size " << D.size());
    for (int k = 0; k <= K; k++) { REQUIRE((int)D[k].size() >= K + 1 - k, "size"); for (int l = 0; k + l <= K; l++) NEAR3(D[k][l], R(k, l), R.tol(k, l, 0, 1e-9L), "derivative " << k << "," << l << " at " << uv); }
    g.tagIf(K > std::min(s.s.DegreeU, s.s.DegreeV), "order>degree");
}
LAW(first_derivatives, 20000, 800000) {
    auto s = genSurface(g); UV uv = genUV(g, s); auto R = refSurfDers(s.s, uv[0], uv[1], 1, 1); XYZ S, Su, Sv;
    NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s.s, uv, S, Su, Sv);
    NEAR3(S, R(0), R.tol(0), "point at " << uv); NEAR3(Su, R(1, 0), R.tol(1, 0, 0, 1e-9L), "Su at " << uv); NEAR3(Sv, R(0, 1), R.tol(0, 1, 0, 1e-9L), "Sv at " << uv);
}
LAW(homogeneous_derivatives, 10000, 400000) {
    auto s = genSurface(g); UV uv = genUV(g, s); int K = g.integer(1, 3); g.note([&](std::ostream& o) { o << "order " << K; });
    LN_NurbsSurface a = s.s, w = s.s; for (auto& r : a.ControlPoints) for (auto& q : r) q = XYZW(q[0], q[1], q[2], 1.0); for (auto& r : w.ControlPoints) for (auto& q : r) q = XYZW(q[3], 0, 0, 1.0);
    auto Ra = refSurfDers(a, uv[0], uv[1], K, K), Rw = refSurfDers(w, uv[0], uv[1], K, K);
    auto D = BsplineSurface::ComputeDerivatives(s.s, K, uv), E = BsplineSurface::ComputeDerivativesByAllBasisFunctions(s.s, K, uv);
    for (int k = 0; k <= K; k++) for (int l = 0; k + l <= K; l++) {
        ld t = Ra.tol(k, l, 0, 1e-9L), tw = Rw.tol(k, l, 0, 1e-9L);
        NEAR3(D[k][l].ToXYZ(false), Ra(k, l), t, "derivative " << k << "," << l); NEAR1(D[k][l].GetW(), Rw(k, l).x, tw, "weight derivative " << k << "," << l);
        NEAR3(E[k][l].ToXYZ(false), Ra(k, l), t, "by all basis functions " << k << "," << l); NEAR1(E[k][l].GetW(), Rw(k, l).x, tw, "weight by all basis functions " << k << "," << l);
    }
    XYZW F[2][2]; BsplineSurface::ComputeFirstOrderDerivative(s.s, uv, F);
    for (int k = 0; k < 2; k++) for (int l = 0; k + l < 2; l++) { NEAR3(F[k][l].ToXYZ(false), Ra(k, l), Ra.tol(k, l, 0, 1e-9L), "first order " << k << l); NEAR1(F[k][l].GetW(), Rw(k, l).x, Rw.tol(k, l, 0, 1e-9L), "first order weight"); }
}
LAW(derivative_control_points, 5000, 200000) {   // the derivative nets over the whole index range define the derivative surfaces
    SurfOpt o; o.weights = WOne; o.knots.maxMult = 1; auto s = genSurface(g, o); UV uv = genUV(g, s); int p = s.s.DegreeU, q = s.s.DegreeV, n = (int)s.s.ControlPoints.size() - 1, m = (int)s.s.ControlPoints[0].size() - 1, K = g.integer(1, std::min(3, std::min(p, q)));
    auto N = BsplineSurface::ComputeControlPointsOfDerivatives(s.s, K, 0, n, 0, m, uv); auto R = refSurfDers(s.s, uv[0], uv[1], K, K);
    for (int k = 0; k <= K && k < p; k++) for (int l = 0; k + l <= K && l < q; l++) {
        LN_NurbsSurface d; d.DegreeU = p - k; d.DegreeV = q - l; d.KnotVectorU.assign(s.s.KnotVectorU.begin() + k, s.s.KnotVectorU.end() - k); d.KnotVectorV.assign(s.s.KnotVectorV.begin() + l, s.s.KnotVectorV.end() - l);
        for (int i = 0; i <= n - k; i++) { std::vector<XYZW> r; for (int j = 0; j <= m - l; j++) { auto& P = N[k][l][i][j]; r.push_back(XYZW(P[0], P[1], P[2], 1.0)); } d.ControlPoints.push_back(r); }
        NEAR3(refEval(d, uv[0], uv[1]), R(k, l), R.tol(k, l, 0, 1e-9L), "derivative surface " << k << "," << l << " at " << uv);
    }
}
LAW(iso_curves, 15000, 500000) {
    auto s = genSurface(g); bool isU = g.boolean(); const Knots& f = isU ? s.kv : s.ku; const Knots& r = isU ? s.ku : s.kv; double fix = genParam(g, f), t = genParam(g, r); double ask = fix;
    if (g.chance(1, 8)) { g.tag("clamped"); bool low = g.boolean(); fix = low ? f.lo() : f.hi(); ask = low ? fix - g.real(0.01, 2) : fix + g.real(0.01, 2); }
    g.note([&](std::ostream& o) { o << (isU ? "u curve at v=" : "v curve at u=") << ask << " t=" << t; });
    auto c = NurbsSurface::GetIsoCurve(s.s, ask, isU); validCurve(c, "iso curve"); REQUIRE(c.Degree == (isU ? s.s.DegreeU : s.s.DegreeV), "degree"); sameKnots(c.KnotVector, r.U, "iso curve");
    int K = 2; auto R = refSurfDers(s.s, isU ? t : fix, isU ? fix : t, isU ? K : 0, isU ? 0 : K); auto C = refCurveDers(c, t, K);
    for (int k = 0; k <= K; k++) { ld tol = isU ? R.tol(k, 0, 0, 1e-9L) : R.tol(0, k, 0, 1e-9L); NEAR3(C(k), isU ? R(k, 0) : R(0, k), tol, "iso curve, derivative " << k); }
}
LAW(bezier_surface, 15000, 500000) {
    int p = g.integer(1, 7), q = g.integer(1, 7); auto w = genWeights(g, (p + 1) * (q + 1)); double u = g.chance(1, 6) ? (double)g.integer(0, 1) : g.unit(), v = g.chance(1, 6) ? (double)g.integer(0, 1) : g.unit(); g.nontrivial(p > 1 || q > 1); g.tagIf(p != q, "degrees-differ");
    LN_BezierSurface<XYZ> b; LN_BezierSurface<XYZW> h; b.DegreeU = h.DegreeU = p; b.DegreeV = h.DegreeV = q; V3 s, sw; ld ws = 0;
    for (int i = 0; i <= p; i++) { std::vector<XYZ> r; std::vector<XYZW> rw; for (int j = 0; j <= q; j++) { XYZ P = genPoint(g); double k = w[i * (q + 1) + j]; r.push_back(P); rw.push_back(XYZW(P, k)); ld B = refBinom(p, i) * powl(u, i) * powl(1 - (ld)u, p - i) * refBinom(q, j) * powl(v, j) * powl(1 - (ld)v, q - j); s = s + V3(P) * B; sw = sw + V3(P) * (B * k); ws += B * k; } b.ControlPoints.push_back(r); h.ControlPoints.push_back(rw); }
    g.note([&](std::ostream& o) { o << "Bezier surface " << p << "x" << q << " P=" << h.ControlPoints << " uv=(" << u << "," << v << ")"; });
    BezierSurface::Check(b); BezierSurface::Check(h);
    NEAR3(BezierSurface::GetPointOnSurfaceByDeCasteljau(b, UV(u, v)), s, 1e-9L, "Bezier surface"); XYZW Q = BezierSurface::GetPointOnSurfaceByDeCasteljau(h, UV(u, v)); NEAR3(Q.ToXYZ(true), sw / ws, 1e-9L, "rational Bezier surface"); NEAR1(Q.GetW(), ws, 1e-9L, "weight");
}
LAW(outside_the_domain, 5000, 100000) {
    auto s = genSurface(g); UV uv = genUV(g, s); bool inU = g.boolean(), low = g.boolean(); double d = g.real(1e-3, 3), u = uv[0], v = uv[1]; (inU ? u : v) = low ? (inU ? s.ku : s.kv).lo() - d : (inU ? s.ku : s.kv).hi() + d; UV o(u, v); g.note([&](std::ostream& os) { os << "outside " << o; });
    auto thrown = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    REQUIRE(thrown([&] { NurbsSurface::GetPointOnSurface(s.s, o); }), "point at " << o); REQUIRE(thrown([&] { NurbsSurface::ComputeRationalSurfaceDerivatives(s.s, 1, o); }), "derivatives at " << o);
    XYZ a, b, c; REQUIRE(thrown([&] { NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s.s, o, a, b, c); }), "first derivatives at " << o); REQUIRE(thrown([&] { NurbsSurface::Normal(s.s, o); }), "normal at " << o); REQUIRE(thrown([&] { NurbsSurface::Curvature(s.s, SurfaceCurvature::Gauss, o); }), "curvature at " << o);
}
