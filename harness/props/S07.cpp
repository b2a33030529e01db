// S07: surfaces through curves: loft, Coons, Gordon
#include "gen.h"
const char* pbt::RULE = "random lists of section curves, closed loops of four boundary curves and networks of crossing curves, with different degrees, knots, domains and (for lofts) weights; every case is non-trivial";
static void rescale(GCurve& c, double lo, double hi) { double a = c.k.lo(), b = c.k.hi(); auto f = [&](double x) { return x == a ? lo : x == b ? hi : lo + (hi - lo) * ((x - a) / (b - a)); }; for (auto& x : c.c.KnotVector) x = f(x); for (auto& x : c.k.U) x = f(x); for (auto& x : c.k.distinct) x = f(x); }
static void domain(Gen& g, bool unit, double& lo, double& hi) { lo = unit ? 0 : 0.25 * g.integer(-16, 16); hi = unit ? 1 : lo + 0.125 * g.integer(4, 40) + 0.01; }
// knots of different curves are either equal or clearly different, measured on the unit interval
static void separate(const std::vector<GCurve>& cs, ld exact) { std::vector<ld> all; for (auto& c : cs) for (double x : c.k.distinct) all.push_back((x - (ld)c.k.lo()) / ((ld)c.k.hi() - c.k.lo())); std::sort(all.begin(), all.end()); for (size_t i = 0; i + 1 < all.size(); i++) { ld d = all[i + 1] - all[i]; if (d > exact && d < 1e-3L) pbt::discard("knots closer than the tolerance"); } }
LAW(loft, 5000, 200000) {
    int n = 2 + g.weighted({2, 3, 2, 2, 1}), wm = g.weighted({3, 1, 2}); std::vector<GCurve> cs; bool same = g.chance(1, 2), shared = g.chance(1, 4); double mag = 10, sc = 10;
    for (int k = 0; k < n; k++) {
        CurveOpt o; o.maxDegree = 5; o.weights = WOne; o.knots.many = false; o.knots.maxInterior = 3; o.knots.unitDomain = same; if (shared && k) { o.minDegree = o.maxDegree = cs[0].c.Degree; }
        GCurve c = genCurve(g, o); if (shared && k) { c.k = cs[0].k; c.c.KnotVector = c.k.U; }
        size_t m = c.c.KnotVector.size() - c.c.Degree - 1; std::vector<XYZ> P; std::vector<double> w(m, 1.0); double all = g.real(0.5, 2); for (size_t i = 0; i < m; i++) { double x = mag * (i + 0.5 * g.unit()), y = g.coord(mag), z = mag * (k + 0.4 * g.unit()); P.push_back(XYZ(x, y, z)); if (wm == 1) w[i] = all; if (wm == 2) w[i] = g.real(0.75, 1.35); } finish(c, P, w); sc = std::max(sc, c.scale); cs.push_back(c);
    }
    separate(cs, 1e-12L); g.nontrivial(); g.tagIf(wm == 2, "weights-differ"); g.tagIf(!same, "domains-differ"); bool ed = false; for (auto& c : cs) ed |= c.c.Degree != cs[0].c.Degree; g.tagIf(ed, "degrees-differ");
    std::vector<LN_NurbsCurve> S; int dm = 0; for (auto& c : cs) { S.push_back(c.c); dm = std::max(dm, c.c.Degree); }
    bool custom = g.chance(1, 2); int q = g.integer(1, std::min(n - 1, 5)); std::vector<double> vl{0}; if (custom) { std::vector<double> gaps; double t = 0; for (int k = 1; k < n; k++) { gaps.push_back(g.real(0.5, 1.5)); t += gaps.back(); } double a = 0; for (int k = 1; k < n; k++) { a += gaps[k - 1]; vl.push_back(k == n - 1 ? 1.0 : a / t); } g.tag("custom-parameters"); }
    g.note([&](std::ostream& o) { for (auto& x : S) o << x << " "; if (custom) o << " degree " << q << " at " << vl; });
    LN_NurbsSurface s; if (custom) NurbsSurface::CreateLoftSurface(S, s, q, vl); else NurbsSurface::CreateLoftSurface(S, s);
    bool neg = false; for (auto& r : s.ControlPoints) for (auto& p : r) neg |= !(p[3] > 0.05); if (neg && wm) pbt::discard("interpolated weight not positive");
    validSurface(s, "loft"); REQUIRE(s.DegreeU == dm, "degree along the sections " << s.DegreeU); REQUIRE(s.DegreeV == (custom ? q : std::min(dm, n - 1)), "degree across the sections " << s.DegreeV);
    double lo = cs[0].k.lo(), hi = cs[0].k.hi(); NEAR1(s.KnotVectorU.front(), lo, 1e-12L * (1 + fabsl(lo)), "domain"); NEAR1(s.KnotVectorU.back(), hi, 1e-12L * (1 + fabsl(hi)), "domain"); NEAR1(s.KnotVectorV.front(), 0, 1e-12L, "domain"); NEAR1(s.KnotVectorV.back(), 1, 1e-12L, "domain");
    ld tol = 1e-7L * sc; std::vector<ld> fr; for (int i = 0; i <= 12; i++) fr.push_back(i / 12.0L);
    auto sect = [&](int k, ld f) { return refEval(S[k], cs[k].k.lo() + (cs[k].k.hi() - (ld)cs[k].k.lo()) * f); }; auto at = [&](ld f, ld v) { return refEval(s, lo + ((ld)hi - lo) * f, v); };
    for (ld f : fr) { NEAR3(at(f, 0), sect(0, f), tol, "first section at " << (double)f); NEAR3(at(f, 1), sect(n - 1, f), tol, "last section at " << (double)f); }
    for (int k = 1; k + 1 < n; k++) {
        ld v; if (custom) v = vl[k]; else { // find the parameter of the section, then compare all of it
            auto err = [&](ld x) { ld e = 0; for (int i = 1; i < 12; i += 5) { V3 d = at(fr[i], x) - sect(k, fr[i]); e += d.dot(d); } return e; }; ld best = 0, be = 1e30L; for (int i = 0; i <= 60; i++) { ld e = err(i / 60.0L); if (e < be) { be = e; best = i / 60.0L; } }
            ld a = std::max(0.0L, best - 1 / 60.0L), b = std::min(1.0L, best + 1 / 60.0L); for (int i = 0; i < 90; i++) { ld x = a + (b - a) * 0.38196601L, y = a + (b - a) * 0.61803399L; if (err(x) < err(y)) b = y; else a = x; } v = (a + b) / 2; }
        for (ld f : fr) NEAR3(at(f, v), sect(k, f), custom ? tol : tol * 10, "section " << k << " at " << (double)f);
    }
}
static GCurve between(Gen& g, const XYZ& a, const XYZ& b, double lo, double hi, bool elevated) { CurveOpt o; o.maxDegree = 5; o.weights = WOne; o.knots.many = false; o.knots.maxInterior = 3; GCurve c = genCurve(g, o); std::vector<XYZ> P; for (auto& q : c.c.ControlPoints) P.push_back(q.ToXYZ(true)); P.front() = a; P.back() = b; (void)elevated; finish(c, P, std::vector<double>(P.size(), 1.0)); rescale(c, lo, hi); return c; }
LAW(coons, 6000, 250000) {
    XYZ A = genPoint(g, 20), B = genPoint(g, 20), C = genPoint(g, 20), D = genPoint(g, 20); bool unit = g.chance(1, 2); std::vector<GCurve> c; XYZ from[4] = {D, A, B, C}, to[4] = {A, B, C, D}; // left D->A, bottom A->B, right B->C, top C->D
    ld sc = 20; for (int i = 0; i < 4; i++) { double lo, hi; domain(g, unit, lo, hi); c.push_back(between(g, from[i], to[i], lo, hi, false)); sc = std::max(sc, (ld)c.back().scale); }
    auto flip = [](GCurve x) { double ends = x.k.lo() + x.k.hi(); for (auto& d : x.k.distinct) d = ends - d; std::reverse(x.k.distinct.begin(), x.k.distinct.end()); return x; }; std::vector<GCurve> a{flip(c[0]), c[2]}, b{c[1], flip(c[3])}; separate(a, 1e-12L); separate(b, 1e-12L); g.nontrivial(); g.note([&](std::ostream& o) { o << "left " << c[0].c << " bottom " << c[1].c << " right " << c[2].c << " top " << c[3].c; });
    LN_NurbsSurface s; NurbsSurface::CreateCoonsSurface(c[0].c, c[1].c, c[2].c, c[3].c, s); validSurface(s, "Coons"); for (auto* K : {&s.KnotVectorU, &s.KnotVectorV}) { NEAR1(K->front(), 0, 1e-12L, "domain"); NEAR1(K->back(), 1, 1e-12L, "domain"); }
    auto at = [&](int i, ld f) { return refEval(c[i].c, c[i].k.lo() + ((ld)c[i].k.hi() - c[i].k.lo()) * f); }; ld tol = 1e-8L * sc;
    for (int i = 0; i <= 14; i++) { ld f = i / 14.0L; NEAR3(refEval(s, 0, f), at(1, f), tol, "bottom at " << (double)f); NEAR3(refEval(s, 1, f), at(3, 1 - f), tol, "top at " << (double)f); NEAR3(refEval(s, f, 0), at(0, 1 - f), tol, "left at " << (double)f); NEAR3(refEval(s, f, 1), at(2, f), tol, "right at " << (double)f);
        for (int j = 0; j <= 6; j++) { ld v = j / 6.0L; V3 want = at(0, 1 - f) * (1 - v) + at(2, f) * v + at(1, v) * (1 - f) + at(3, 1 - v) * f - (V3(A) * (1 - f) * (1 - v) + V3(B) * (1 - f) * v + V3(D) * f * (1 - v) + V3(C) * f * v); NEAR3(refEval(s, f, v), want, tol * 4, "Coons patch at " << (double)f << "," << (double)v); } }
}
LAW(coons_refuses_gaps, 2000, 60000) {
    XYZ P[4]; for (auto& p : P) p = genPoint(g, 20); std::vector<GCurve> c; XYZ from[4] = {P[3], P[0], P[1], P[2]}, to[4] = {P[0], P[1], P[2], P[3]}; int bad = g.integer(0, 7); XYZ off = genPoint(g, 5); if (off.Length() < 0.5) pbt::discard("gap too small"); if (bad < 4) from[bad] = from[bad] + off; else to[bad - 4] = to[bad - 4] + off; for (int i = 0; i < 4; i++) c.push_back(between(g, from[i], to[i], 0, 1, false)); g.nontrivial(); LN_NurbsSurface s; bool thrown = false; try { NurbsSurface::CreateCoonsSurface(c[0].c, c[1].c, c[2].c, c[3].c, s); } catch (const std::invalid_argument&) { thrown = true; } REQUIRE(thrown, "curves that do not connect are accepted");
}
// a curve that takes given values at even parameters: interpolate at the parameters with extra freedom from degree and knots
LAW(gordon, 4000, 160000) {
    int n = 2 + g.weighted({2, 3, 2}), m = 2 + g.weighted({2, 3, 2}); double mag = 10; std::vector<std::vector<XYZ>> Q(n, std::vector<XYZ>(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double dx = 0.4 * g.unit(), dy = 0.4 * g.unit(), z = g.coord(mag); Q[i][j] = XYZ(mag * (j + dx), mag * (i + dy), z); }
    bool eq = g.chance(1, 4); g.tagIf(eq, "equal-weights"); bool unit = g.chance(1, 2), split = g.chance(1, 2);
    auto through = [&](const std::vector<XYZ>& pts) { // random spline passing through pts at even parameters
        int k = (int)pts.size(); double lo, hi; domain(g, unit, lo, hi); int p = g.integer(1, std::min(4, k - 1 + 2)); Knots K; K.p = p; int extra = g.integer(0, 2), cnt = std::max(k, p + 1) + extra; std::vector<double> U(p + 1, 0.0); int in = cnt - p - 1; for (int i = 1; i <= in; i++) U.push_back(split ? (double)i / (in + 1) : (i + 0.3 * g.unit()) / (in + 1.5)); U.insert(U.end(), p + 1, 1.0);
        // k conditions on cnt coefficients: the rest of the coefficients are random, the minimum-norm correction makes it pass through
        LMat N; for (int i = 0; i < k; i++) N.push_back(refRow(p, U, i == k - 1 ? 1.0L : (ld)i / (k - 1))); std::vector<V3> c; for (int i = 0; i < cnt; i++) { ld f = (ld)i / (cnt - 1) * (k - 1); int a = std::min(k - 2, (int)f); V3 base = V3(pts[a]) * (1 - (f - a)) + V3(pts[a + 1]) * (f - a); c.push_back(base + V3(genPoint(g, 3))); }
        LMat A(k, std::vector<ld>(k, 0)), inv; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) for (int l = 0; l < cnt; l++) A[i][j] += N[i][l] * N[j][l]; if (!refInverse(A, inv) || normInf(inv) > 1e4) pbt::discard("no such curve"); std::vector<V3> r(k), y(k); for (int i = 0; i < k; i++) { V3 s; for (int l = 0; l < cnt; l++) s = s + c[l] * N[i][l]; r[i] = V3(pts[i]) - s; } for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) y[i] = y[i] + r[j] * inv[i][j]; for (int l = 0; l < cnt; l++) for (int i = 0; i < k; i++) c[l] = c[l] + y[i] * N[i][l];
        GCurve R; R.c.Degree = p; R.c.KnotVector = U; K.U = U; K.distinct = distinctOf(U, 0, 1); R.k = K; std::vector<XYZ> P; for (auto& x : c) P.push_back(x.xyz()); finish(R, P, std::vector<double>(P.size(), eq ? g.real(0.3, 3) : 1.0)); if (!unit) rescale(R, lo, hi); return R; };
    std::vector<GCurve> us, vs; for (int i = 0; i < n; i++) us.push_back(through(Q[i])); for (int j = 0; j < m; j++) { std::vector<XYZ> col; for (int i = 0; i < n; i++) col.push_back(Q[i][j]); vs.push_back(through(col)); } separate(us, 1e-12L); separate(vs, 1e-12L); ld sc = 40; std::vector<LN_NurbsCurve> U, V; for (auto& c : us) { U.push_back(c.c); sc = std::max(sc, (ld)c.scale); } for (auto& c : vs) { V.push_back(c.c); sc = std::max(sc, (ld)c.scale); }
    g.nontrivial(); g.tagIf(n != m, "unequal-counts"); g.note([&](std::ostream& o) { o << "u curves "; for (auto& x : U) o << x << " "; o << "v curves "; for (auto& x : V) o << x << " "; });
    LN_NurbsSurface s; NurbsSurface::CreateGordonSurface(U, V, Q, s); validSurface(s, "Gordon"); for (auto* K : {&s.KnotVectorU, &s.KnotVectorV}) { NEAR1(K->front(), 0, 1e-12L, "domain"); NEAR1(K->back(), 1, 1e-12L, "domain"); } ld tol = 1e-7L * sc;
    for (int i = 0; i < n; i++) for (int k = 0; k <= 16; k++) { ld f = k / 16.0L; NEAR3(refEval(s, f, (ld)i / (n - 1)), refEval(U[i], us[i].k.lo() + ((ld)us[i].k.hi() - us[i].k.lo()) * f), tol, "u curve " << i << " at " << (double)f); }
    for (int j = 0; j < m; j++) for (int k = 0; k <= 16; k++) { ld f = k / 16.0L; NEAR3(refEval(s, (ld)j / (m - 1), f), refEval(V[j], vs[j].k.lo() + ((ld)vs[j].k.hi() - vs[j].k.lo()) * f), tol, "v curve " << j << " at " << (double)f); }
}
