#include "gen.h"
const char* pbt::RULE = "random curves and parameters as for evaluation, derivative orders 1..degree+2; curvature/torsion/frame laws keep curves whose first derivative and C'xC'' are well away from zero, and often rescale the curve so that |C'| = 1 at the parameter; non-trivial: interior knots or unequal weights";

LAW(rational_derivatives, 60000, 3000000) {
    auto c = genCurve(g); double t = genParam(g, c.k); int K = g.integer(1, c.c.Degree + 2);
    g.note([&](std::ostream& s) { s << "t=" << t << " order=" << K; });
    auto R = refCurveDers(c.c, t, K);
    auto D = NurbsCurve::ComputeRationalCurveDerivatives(c.c, K, t);
    REQUIRE((int)D.size() == K + 1, "size " << D.size());
    for (int k = 0; k <= K; k++) NEAR3(D[k], R(k), R.tol(k, 0, 0, 1e-9L), "derivative " << k << " t=" << t << " " << c.c);
    g.tagIf(K > c.c.Degree, "order>degree");
}
LAW(nonrational_derivatives, 40000, 1500000) {
    auto c = genCurve(g); double t = genParam(g, c.k); int K = g.integer(1, c.c.Degree + 1);
    g.note([&](std::ostream& s) { s << "t=" << t << " order=" << K; });
    // homogeneous curve: 4 components, reference with unit weights on (wx,wy,wz) and on w
    LN_NurbsCurve a = c.c, w = c.c;
    for (auto& q : a.ControlPoints) q = XYZW(q[0], q[1], q[2], 1.0);
    for (auto& q : w.ControlPoints) q = XYZW(q[3], 0, 0, 1.0);
    auto Ra = refCurveDers(a, t, K), Rw = refCurveDers(w, t, K);
    auto b = asBspline(c.c);
    auto D = BsplineCurve::ComputeDerivatives(b, K, t), E = BsplineCurve::ComputeDerivativesByAllBasisFunctions(b, K, t);
    REQUIRE((int)D.size() == K + 1 && (int)E.size() == K + 1, "size");
    LN_BsplineCurve<XYZ> b3; b3.Degree = b.Degree; b3.KnotVector = b.KnotVector; for (auto& q : c.c.ControlPoints) b3.ControlPoints.push_back(q.ToXYZ(false));
    auto D3 = BsplineCurve::ComputeDerivatives(b3, K, t);
    for (int k = 0; k <= K; k++) {
        ld tol = Ra.tol(k, 0, 0, 1e-9L), tw = Rw.tol(k, 0, 0, 1e-9L);
        NEAR3(D[k].ToXYZ(false), Ra(k), tol, "order " << k << " t=" << t << " " << c.c); NEAR1(D[k].GetW(), Rw(k).x, tw, "order " << k << " of the weight function");
        NEAR3(E[k].ToXYZ(false), Ra(k), tol, "by all basis functions, order " << k << " t=" << t << " " << c.c); NEAR1(E[k].GetW(), Rw(k).x, tw, "order " << k << " of the weight function, by all basis functions");
        NEAR3(D3[k], Ra(k), tol, "3D order " << k);
    }
}
LAW(derivative_control_points, 20000, 600000) {
    CurveOpt o; o.weights = WOne; o.knots.maxMult = 1; auto c = genCurve(g, o); int p = c.c.Degree, n = (int)c.c.ControlPoints.size() - 1; int K = g.integer(1, p);
    int r1 = g.integer(0, n - K), r2 = g.integer(r1 + K, n);
    g.note([&](std::ostream& s) { s << "order=" << K << " range " << r1 << ".." << r2; });
    auto PK = BsplineCurve::ComputeControlPointsOfDerivatives(asBspline(c.c), K, r1, r2);
    REQUIRE((int)PK.size() == K + 1, "size");
    std::vector<V3> cur; for (int i = 0; i <= n; i++) cur.push_back(V3(c.c.ControlPoints[i].ToXYZ(false)));
    ld mag = c.scale;
    for (int k = 0; k <= K; k++) {
        if (k > 0) { std::vector<V3> nx; ld m2 = 0; for (int i = 0; i + 1 < (int)cur.size(); i++) { ld d = (ld)c.c.KnotVector[i + p + 1] - c.c.KnotVector[i + k]; nx.push_back((cur[i + 1] - cur[i]) * ((p - k + 1) / d)); m2 = std::max(m2, 2 * mag * (p - k + 1) / d); } cur = nx; mag = m2; }
        for (int i = r1; i <= r2 - k; i++) NEAR3(PK[k][i - r1].ToXYZ(false), cur[i], 1e-9L * (1 + mag), "derivative control point, order " << k << " index " << i << " range " << r1 << ".." << r2 << " " << c.c);
    }
}
// A curve with a well-conditioned frame at t.
struct Frame { GCurve c; double t; V3 d1, d2, d3; ld k, tau; };
static Frame genFrame(Gen& g, bool torsion) {
    Frame f; CurveOpt o; o.minDegree = torsion ? 3 : 2; o.degenerate = false; f.c = genCurve(g, o); f.t = genParam(g, f.c.k);
    auto R = refCurveDers(f.c.c, f.t, 3);
    if (g.chance(1, 2) && R(1).len() > 1e-3L) {     // make |C'(t)| = 1
        double s = (double)(1 / R(1).len()); g.tag("unit-speed-at-t");
        for (auto& q : f.c.c.ControlPoints) q = XYZW(q[0] * s, q[1] * s, q[2] * s, q[3]);
        R = refCurveDers(f.c.c, f.t, 3);
    }
    f.d1 = R(1); f.d2 = R(2); f.d3 = R(3);
    V3 x = f.d1.cross(f.d2);
    if (f.d1.len() < 1e-3L * R.bound[1] || x.len() < 1e-3L * f.d1.len() * R.bound[2] || f.d1.len() < 1e-4L) pbt::discard("nearly degenerate frame");
    f.k = x.len() / powl(f.d1.len(), 3); f.tau = x.dot(f.d3) / x.dot(x);
    if (f.k > 1e4L || fabsl(f.tau) > 1e4L) pbt::discard("extreme curvature");
    // conditioning of the torsion
    if (torsion && R.bound[3] * x.len() / x.dot(x) > 1e5L) pbt::discard("ill-conditioned torsion");
    g.note([&](std::ostream& s) { s << "t=" << f.t; });
    return f;
}
LAW(curvature, 30000, 1000000) {
    Frame f = genFrame(g, false);
    NEAR1(NurbsCurve::Curvature(f.c.c, f.t), f.k, 1e-5L * f.k + 1e-8L, "curvature at t=" << f.t << " of " << f.c.c);
}
LAW(torsion, 20000, 600000) {
    Frame f = genFrame(g, true);
    NEAR1(NurbsCurve::Torsion(f.c.c, f.t), f.tau, 1e-5L * (1 + fabsl(f.tau)), "torsion at t=" << f.t << " of " << f.c.c);
}
LAW(normal_and_binormal, 30000, 1000000) {
    Frame f = genFrame(g, false);
    V3 b = f.d1.cross(f.d2); b = b / b.len(); V3 n = b.cross(f.d1 / f.d1.len());
    NEAR3(NurbsCurve::Normal(f.c.c, CurveNormal::Normal, f.t), n, 1e-5L, "principal normal at t=" << f.t << " of " << f.c.c);
    NEAR3(NurbsCurve::Normal(f.c.c, CurveNormal::Binormal, f.t), b, 1e-5L, "binormal at t=" << f.t << " of " << f.c.c);
}
LAW(projection_normals, 8000, 200000) {
    CurveOpt o; o.degenerate = false; o.minDegree = 2; o.knots.maxMult = 1; auto c = genCurve(g, o);
    auto& U = c.c.KnotVector;
    for (double u : U) { auto R = refCurveDers(c.c, u, 1); if (R(1).len() < 1e-2L * R.bound[1]) pbt::discard("vanishing tangent"); }
    auto B = NurbsCurve::ProjectNormal(c.c);
    REQUIRE(B.size() == U.size(), "one normal per knot");
    bool closed = (V3(c.c.ControlPoints.front().ToXYZ(true)) - V3(c.c.ControlPoints.back().ToXYZ(true))).len() < 1e-3L;
    if (closed) pbt::discard("closed");
    for (size_t i = 0; i < U.size(); i++) {
        V3 T = refCurveDers(c.c, U[i], 1)(1); T = T / T.len();
        NEAR1(V3(B[i]).len(), 1, 1e-5L, "unit length at knot " << i << " of " << c.c);
        NEAR1(V3(B[i]).dot(T), 0, 1e-5L, "perpendicular to the tangent at knot " << i << " of " << c.c);
    }
}
LAW(derivative_existence, 8000, 200000) {
    // a polyline-like corner has no derivative; a smooth parameter has one
    CurveOpt o; o.weights = WOne; o.maxDegree = 3; o.knots.many = false; auto c = genCurve(g, o);
    double m = 0; for (auto& q : c.c.ControlPoints) for (int j = 0; j < 3; j++) m = std::max(m, std::fabs(q[j]));
    if (m > 0) for (auto& q : c.c.ControlPoints) q = XYZW(q[0] / m, q[1] / m, q[2] / m, 1);
    double t = genParam(g, c.k, true, true); int sp = refSpan(c.c.Degree, c.c.KnotVector, t), sl = refSpanLeft(c.c.Degree, c.c.KnotVector, t);
    auto R = refCurveDers(c.c, t, 2), L = refCurveDers(c.c, t, 2, sl);
    ld jump = (R(1) - L(1)).len(); bool atEnd = t == c.k.lo() || t == c.k.hi();
    if (atEnd || (jump < 1e-12L && R(2).len() < 20 && L(2).len() < 20)) { g.tag("smooth"); REQUIRE(NurbsCurve::CanComputeDerivative(c.c, t), "derivative exists at t=" << t << " of " << c.c); }
    else if (jump > 1e-2L) { g.tag("corner"); g.nontrivial(); REQUIRE(!NurbsCurve::CanComputeDerivative(c.c, t), "one-sided derivatives differ by " << (double)jump << " at t=" << t << " of " << c.c); }
    else pbt::discard("neither clearly smooth nor clearly a corner");
    (void)sp;
}
