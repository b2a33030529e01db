#include "gen.h"
const char* pbt::RULE = "random NURBS curves with random affine and linear-rational reparametrisations, reversals and affine transformations (compositions of translation, rotation, scaling, reflection and general matrices); the result is compared with the original at degree+2 parameters of every span; non-trivial: interior knots or unequal weights in the input";

static ld tolOf(const GCurve& c) { return 1e-9L * c.scale * c.wr; }

LAW(affine_reparametrisation, 30000, 1500000) {
    auto c = genCurve(g); double lo = c.k.lo(), hi = c.k.hi();
    double a = g.coord(10), b = a + g.real(0.1, 20);
    if (g.chance(1, 8)) { a = lo; b = hi; g.tag("same-domain"); } else if (g.chance(1, 8)) { a = lo; b = hi + g.real(0.5, 2); g.tag("same-start"); } else if (g.chance(1, 8)) { b = hi; a = lo - g.real(0.5, 2); g.tag("same-end"); }
    g.note([&](std::ostream& o) { o << "to [" << a << "," << b << "]"; });
    LN_NurbsCurve r; NurbsCurve::Reparametrize(c.c, a, b, r);
    validCurve(r, "Reparametrize"); REQUIRE(r.Degree == c.c.Degree && r.ControlPoints.size() == c.c.ControlPoints.size(), "shape");
    NEAR1(r.KnotVector.front(), a, 1e-9L * (1 + fabsl(a)), "start of the new domain"); NEAR1(r.KnotVector.back(), b, 1e-9L * (1 + fabsl(b)), "end of the new domain");
    sameCurve(c.c, c.k.distinct, r, [&](double t) { return (ld)a + ((ld)t - lo) * ((ld)b - a) / ((ld)hi - lo); }, tolOf(c) * 10, "Reparametrize");
}
LAW(linear_rational_reparametrisation, 30000, 1500000) {
    auto c = genCurve(g); double lo = c.k.lo(), hi = c.k.hi();
    // s = (alpha t + beta) / (gamma t + delta), denominator of one sign on the domain, positive determinant
    double d0 = g.real(0.5, 3), d1 = g.chance(1, 5) ? d0 : g.real(0.5, 3), sgn = g.chance(1, 3) ? -1 : 1;
    double gamma = sgn * (d1 - d0) / (hi - lo), delta = sgn * d0 - gamma * lo;
    double s0 = g.coord(4), s1 = s0 + g.real(0.3, 5);
    double alpha = (s1 * sgn * d1 - s0 * sgn * d0) / (hi - lo), beta = s0 * sgn * d0 - alpha * lo;
    g.tagIf(gamma == 0, "affine"); g.tagIf(sgn < 0, "negative-denominator");
    if (!(alpha * delta - gamma * beta > 1e-3)) pbt::discard("determinant too small");
    g.note([&](std::ostream& o) { o << "coefficients " << alpha << " " << beta << " " << gamma << " " << delta; });
    LN_NurbsCurve r; NurbsCurve::Reparametrize(c.c, alpha, beta, gamma, delta, r);
    validCurve(r, "Reparametrize"); REQUIRE(r.Degree == c.c.Degree && r.ControlPoints.size() == c.c.ControlPoints.size(), "shape");
    auto f = [&](ld t) { return ((ld)alpha * t + beta) / ((ld)gamma * t + delta); };
    for (size_t i = 0; i < r.KnotVector.size(); i++) NEAR1(r.KnotVector[i], f(c.c.KnotVector[i]), 1e-9L * (1 + fabsl(f(c.c.KnotVector[i]))), "knot " << i);
    ld amp = powl(6.0L, c.c.Degree);
    sameCurve(c.c, c.k.distinct, r, [&](double t) { return f(t); }, 1e-10L * c.scale * c.wr * amp * 10, "Reparametrize");
}
LAW(refuses_orientation_reversing_coefficients, 1000, 20000) {
    auto c = genCurve(g); double alpha = -g.real(0.1, 3); LN_NurbsCurve r; bool threw = false;
    try { NurbsCurve::Reparametrize(c.c, alpha, g.coord(3), 0.0, g.real(0.1, 3), r); } catch (const std::exception&) { threw = true; }
    REQUIRE(threw, "determinant < 0 accepted");
}
LAW(reverse, 30000, 1500000) {
    auto c = genCurve(g); double lo = c.k.lo(), hi = c.k.hi();
    LN_NurbsCurve r; NurbsCurve::Reverse(c.c, r);
    validCurve(r, "Reverse"); REQUIRE(r.Degree == c.c.Degree && r.ControlPoints.size() == c.c.ControlPoints.size(), "shape");
    NEAR1(r.KnotVector.front(), lo, 1e-9L * (1 + fabsl(lo)), "start"); NEAR1(r.KnotVector.back(), hi, 1e-8L * (1 + fabsl(hi) + fabsl(lo)), "end");
    sameCurve(c.c, c.k.distinct, r, [&](double t) { return (ld)lo + hi - t; }, tolOf(c) * 100, "Reverse");
    LN_NurbsCurve rr; NurbsCurve::Reverse(r, rr);
    sameKnots(rr.KnotVector, c.c.KnotVector, "Reverse twice", 1e-8);
    for (size_t i = 0; i < rr.ControlPoints.size(); i++) { NEAR3(rr.ControlPoints[i].ToXYZ(true), V3(c.c.ControlPoints[i].ToXYZ(true)), 1e-12L * c.scale, "Reverse twice"); }
}
// reference 4x4 affine matrix
struct M { ld a[3][4]; V3 of(const V3& p) const { return V3(a[0][0] * p.x + a[0][1] * p.y + a[0][2] * p.z + a[0][3], a[1][0] * p.x + a[1][1] * p.y + a[1][2] * p.z + a[1][3], a[2][0] * p.x + a[2][1] * p.y + a[2][2] * p.z + a[2][3]); } };
LAW(affine_transformation, 30000, 1500000) {
    auto c = genCurve(g); M m; ld mx = 1;
    int kind = g.weighted({2, 2, 2, 3});
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m.a[i][j] = i == j;
    if (kind == 0) { for (int i = 0; i < 3; i++) m.a[i][3] = g.coord(20); g.tag("translation"); }
    else if (kind == 1) { int i = g.integer(0, 2), j = (i + 1) % 3; double th = g.real(-7, 7); m.a[i][i] = m.a[j][j] = (double)cosl(th); m.a[i][j] = -(m.a[j][i] = (double)sinl(th)); g.tag("rotation"); }
    else if (kind == 2) { for (int i = 0; i < 3; i++) { m.a[i][i] = g.coord(3); } g.tag("scaling"); }
    else { for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m.a[i][j] = g.coord(j == 3 ? 20 : 3); g.tag("general"); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) mx = std::max(mx, fabsl(m.a[i][j]));
    Matrix4d T((double)m.a[0][0], (double)m.a[0][1], (double)m.a[0][2], (double)m.a[0][3], (double)m.a[1][0], (double)m.a[1][1], (double)m.a[1][2], (double)m.a[1][3], (double)m.a[2][0], (double)m.a[2][1], (double)m.a[2][2], (double)m.a[2][3], 0, 0, 0, 1);
    LN_NurbsCurve r; NurbsCurve::CreateTransformed(c.c, T, r);
    validCurve(r, "CreateTransformed"); REQUIRE(r.Degree == c.c.Degree, "degree"); sameKnots(r.KnotVector, c.c.KnotVector, "CreateTransformed");
    ld tol = 1e-10L * c.scale * c.wr * mx * 10;
    for (double t : probes(c.k.distinct, c.c.Degree + 1)) NEAR3(refEval(r, t), m.of(refEval(c.c, t)), tol, "transformed point at " << t << " of " << c.c);
}
