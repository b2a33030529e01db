#include "gen.h"
const char* pbt::RULE = "random NURBS curves extended at either end by a random length with each extension type; the original part is compared with the original curve, the added part with the straight line, the osculating circle or the Taylor polynomial; non-trivial: interior knots or unequal weights in the input";

static GCurve regular(Gen& g, int minDeg, double minSpeed) {
    CurveOpt o; o.minDegree = minDeg; o.degenerate = false; o.knots.many = false; auto c = genCurve(g, o);
    for (double t : {c.k.lo(), c.k.hi()}) if (refCurveDers(c.c, t, 1)(1).len() < minSpeed * c.scale) pbt::discard("slow end");
    return c;
}
static ld arc(std::function<V3(ld)> d, ld a, ld b, int n = 64) { ld s = 0; for (int i = 0; i < n; i++) { ld x0 = a + (b - a) * i / n, h = (b - a) / n, g1 = x0 + h * (0.5L - sqrtl(3) / 6), g2 = x0 + h * (0.5L + sqrtl(3) / 6); s += h / 2 * (d(g1).len() + d(g2).len()); } return fabsl(s); }

LAW(tangent_extension, 20000, 800000) {
    auto c = regular(g, 1, 1e-3); bool start = g.boolean(); double delta = g.real(0.1, 3) * c.scale;
    g.note([&](std::ostream& o) { o << (start ? "start " : "end ") << delta; });
    LN_NurbsCurve r; NurbsCurve::Extend(c.c, delta, start, ExtensionType::Tangent, r); validCurve(r, "Extend");
    double lo = r.KnotVector.front(), hi = r.KnotVector.back(); auto d = refCurveDers(c.c, start ? c.k.lo() : c.k.hi(), 1); V3 T = d(1) / d(1).len(); ld tol = 1e-7L * c.scale * c.wr * 10;
    V3 s0 = refEval(c.c, c.k.lo()), s1 = refEval(c.c, c.k.hi()), tip = start ? s0 - T * delta : s1 + T * delta;
    NEAR3(refEval(r, lo), start ? tip : s0, tol, "start of the extended curve"); NEAR3(refEval(r, hi), start ? s1 : tip, tol, "end of the extended curve");
    // halves of the domain: the extension and the original curve
    ld mid = (lo + (ld)hi) / 2, a = start ? mid : lo, b = start ? hi : mid;
    sameCurve(c.c, c.k.distinct, r, [&](double t) { return a + ((ld)t - c.k.lo()) / ((ld)c.k.hi() - c.k.lo()) * (b - a); }, tol, "original part");
    for (int i = 1; i < 8; i++) { ld f = i / 8.0L; V3 q = refEval(r, start ? lo + (mid - lo) * f : mid + (hi - mid) * f) - (start ? tip : s1); ld l = q.dot(T); NEAR3(q, T * l, tol * 10, "extension is straight"); REQUIRE(l > -tol && l < delta + tol, "extension overshoots"); }
}
LAW(arc_extension, 20000, 800000) {
    auto c = regular(g, 2, 1e-2); bool start = g.boolean(); auto d = refCurveDers(c.c, start ? c.k.lo() : c.k.hi(), 2);
    ld v = d(1).len(), kap = d(1).cross(d(2)).len() / (v * v * v); if (kap * c.scale < 1e-2 || kap * c.scale > 1e3) pbt::discard("curvature out of range");
    V3 T = d(1) / v, B = d(1).cross(d(2)); B = B / B.len(); V3 N = B.cross(T); ld R = 1 / kap; double delta = (double)(R * g.real(0.1, 6)); V3 C = d(0) + N * R;
    g.note([&](std::ostream& o) { o << (start ? "start " : "end ") << delta << " radius " << (double)R; });
    LN_NurbsCurve r; NurbsCurve::Extend(c.c, delta, start, ExtensionType::Arc, r); validCurve(r, "Extend");
    ld lo = r.KnotVector.front(), hi = r.KnotVector.back(), mid = (lo + hi) / 2, a = start ? mid : lo, b = start ? hi : mid, tol = 1e-5L * (c.scale * c.wr + R);
    sameCurve(c.c, c.k.distinct, r, [&](double t) { return a + ((ld)t - c.k.lo()) / ((ld)c.k.hi() - c.k.lo()) * (b - a); }, tol, "original part");
    ld th = delta / R, sg = start ? -1 : 1; auto at = [&](ld x) { return C - N * (R * cosl(x)) + T * (R * sinl(x)); };
    NEAR3(refEval(r, start ? lo : hi), at(sg * th), tol * 10, "tip of the extension");
    for (int i = 1; i < 8; i++) { ld f = i / 8.0L; V3 q = refEval(r, start ? lo + (mid - lo) * f : mid + (hi - mid) * f) - C; NEAR1(q.len(), R, tol * 10, "extension on the osculating circle"); NEAR1(q.dot(B), 0, tol * 10, "extension in the osculating plane"); }
}
LAW(natural_extension, 20000, 800000) {
    auto c = regular(g, 1, 1e-2); bool start = g.boolean(); int p = c.c.Degree; ld t0 = start ? c.k.lo() : c.k.hi(); auto d = refCurveDers(c.c, t0, p);
    double delta = g.real(0.01, 0.2) * (double)(d(1).len()) * (c.k.hi() - c.k.lo()) / (double)(c.k.distinct.size());
    g.note([&](std::ostream& o) { o << (start ? "start " : "end ") << delta; });
    LN_NurbsCurve r; NurbsCurve::Extend(c.c, delta, start, ExtensionType::Natural, r); validCurve(r, "Extend"); REQUIRE(r.Degree == p, "degree");
    ld lo = r.KnotVector.front(), hi = r.KnotVector.back(), L = start ? t0 - lo : hi - t0;
    if (start) NEAR1(hi, c.k.hi(), 1e-12L * (1 + fabsl(hi)), "far end moved"); else NEAR1(lo, c.k.lo(), 1e-12L * (1 + fabsl(lo)), "far end moved");
    REQUIRE(L > 0, "no extension"); ld tol = 1e-9L * c.scale * c.wr;
    sameCurve(c.c, c.k.distinct, r, tol, "original part");
    auto taylor = [&](ld x) { V3 s; ld f = 1; for (int k = 0; k <= p; k++) { if (k) f *= x / k; s = s + d(k) * f; } return s; };
    auto dtaylor = [&](ld x) { V3 s; ld f = 1; for (int k = 1; k <= p; k++) { if (k > 1) f *= x / (k - 1); s = s + d(k) * f; } return s; };
    ld amp = 0, f = 1; for (int k = 0; k <= p; k++) { if (k) f *= L / k; amp += d.tol(k, 0, 0, 1e-9L) * f; }
    for (int i = 1; i <= 8; i++) { ld x = (start ? -L : L) * i / 8; NEAR3(refEval(r, t0 + x), taylor(x), tol * 100 + amp, "extension follows the Taylor polynomial at " << (double)(t0 + x) << " L=" << (double)L); }
    // length: judged where the speed changes mildly over the extension (the library integrates with three nodes)
    ld mn = 1e300L, mx = 0; for (int i = 0; i <= 32; i++) { ld s = dtaylor((start ? -L : L) * i / 32).len(); mn = std::min(mn, s); mx = std::max(mx, s); }
    if (mx < 1.3 * mn) { g.tag("length-checked"); NEAR1(arc(dtaylor, 0, start ? -L : L), delta, std::min(5e-3L, mx / mn - 1) * delta + 2e-6L * (1 + delta), "length of the extension, speed between " << (double)mn << " and " << (double)mx); }
}
LAW(nothing_to_extend, 2000, 50000) {
    auto c = genCurve(g); LN_NurbsCurve r; double delta = -g.unit(); NurbsCurve::Extend(c.c, delta, g.boolean(), (ExtensionType)g.integer(0, 2), r);
    sameKnots(r.KnotVector, c.c.KnotVector, "Extend by a non-positive length"); sameCurve(c.c, c.k.distinct, r, 1e-10L * c.scale * c.wr, "Extend by a non-positive length");
}
