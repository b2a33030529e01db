// U03: knot vector utilities: multiplicities, rescaling, inserted elements, uniformity, validity
#include "gen.h"
const char* pbt::RULE = "clamped knot vectors of degree 1 to 7 with up to 25 interior knots of any multiplicity and arbitrary domains, families of 2 to 5 vectors that share part of their knots; a case is non-trivial when there is an interior knot";
static std::map<double, int> count(const std::vector<double>& v) { std::map<double, int> m; for (double x : v) m[x]++; return m; }
static Knots kn(Gen& g, int maxInterior = 8) { int p = g.integer(1, 7); KnotOpt o; o.maxInterior = maxInterior; auto k = genKnots(g, p, o); g.nontrivial(k.distinct.size() > 2); g.tagIf(k.maxInteriorMult() > 1, "multiple"); g.note([&](std::ostream& s) { s.precision(17); s << "p=" << p << " U=" << k.U << " "; }); return k; }
LAW(continuity_and_multiplicity, 20000, 500000) {
    auto k = kn(g); int i = g.integer(0, (int)k.distinct.size() - 1); double t = k.distinct[i];
    REQUIRE(Polynomials::GetKnotMultiplicity(k.U, t) == k.mult[i], "multiplicity of " << t); REQUIRE(KnotVectorUtils::GetContinuity(k.p, k.U, t) == k.p - k.mult[i], "continuity at " << t);
    if (i + 1 < (int)k.distinct.size()) { double m = (t + k.distinct[i + 1]) / 2; REQUIRE(Polynomials::GetKnotMultiplicity(k.U, m) == 0, "multiplicity between knots"); REQUIRE(KnotVectorUtils::GetContinuity(k.p, k.U, m) == k.p, "continuity between knots"); }
    auto m = KnotVectorUtils::GetKnotMultiplicityMap(k.U), in = KnotVectorUtils::GetInternalKnotMultiplicityMap(k.U); REQUIRE(m == count(k.U), "multiplicity map"); m.erase(k.lo()); m.erase(k.hi()); REQUIRE(in == m, "internal multiplicity map");
    if (g.chance(1, 20)) { std::vector<double> c(g.integer(1, 5), t); REQUIRE(KnotVectorUtils::GetInternalKnotMultiplicityMap(c).empty(), "internal knots of a constant vector"); }
}
LAW(rescale, 20000, 500000) {
    auto k = kn(g); double a = g.coord(20), b = a + g.real(0.1, 30); g.note([&](std::ostream& s) { s << "to " << a << " " << b; }); auto r = KnotVectorUtils::Rescale(k.U, a, b); REQUIRE(r.size() == k.U.size(), "size");
    for (size_t i = 0; i < r.size(); i++) { ld want = (ld)a + ((ld)b - a) * ((ld)k.U[i] - k.lo()) / ((ld)k.hi() - k.lo()); NEAR1(r[i], want, 1e-12L * (1 + fabsl(a) + fabsl(b)), "knot " << i); if (i) { REQUIRE((r[i] == r[i - 1]) == (k.U[i] == k.U[i - 1]), "multiplicity at " << i); REQUIRE(r[i] >= r[i - 1], "order"); } }
    auto back = KnotVectorUtils::Rescale(r, k.lo(), k.hi()); for (size_t i = 0; i < r.size(); i++) NEAR1(back[i], k.U[i], 1e-11L * (1 + fabsl(k.lo()) + fabsl(k.hi())) * (1 + (k.hi() - k.lo()) * (1 + fabsl(a) + fabsl(b)) / (b - a)), "back, knot " << i);
}
static std::vector<double> derive(Gen& g, const Knots& k) {   // another vector on the same domain that shares some of the knots
    std::vector<double> r(k.p + 1, k.lo()); std::map<double, int> m; for (size_t i = 1; i + 1 < k.distinct.size(); i++) if (g.boolean()) m[k.distinct[i]] = g.integer(1, k.p); int extra = g.integer(0, 3); for (int i = 0; i < extra; i++) { double t = k.lo() + (k.hi() - k.lo()) * g.real(0.05, 0.95); bool close = false; for (double d : k.distinct) close |= std::fabs(d - t) < 1e-3; for (auto& e : m) close |= std::fabs(e.first - t) < 1e-3; if (!close) m[t] = g.integer(1, k.p); }
    for (auto& e : m) r.insert(r.end(), e.second, e.first); r.insert(r.end(), k.p + 1, k.hi()); return r;
}
LAW(common_refinement, 20000, 500000) {
    auto k = kn(g); int n = g.integer(2, 5); std::vector<std::vector<double>> v = {k.U}; for (int i = 1; i < n; i++) { v.push_back(derive(g, k)); if (g.chance(1, 4)) { g.tag("rounding-noise"); for (auto& x : v.back()) if (x != v.back().front()) x *= 1 + 2.3e-16; } } std::vector<double> site; for (auto& x : v) site.insert(site.end(), x.begin(), x.end()); std::sort(site.begin(), site.end()); for (size_t i = 0; i + 1 < site.size(); i++) { double d = site[i + 1] - site[i]; if (d > 1e-12 * (1 + std::fabs(site[i])) && d < 1e-3) pbt::discard("knots closer than the tolerance"); }
    auto count = [&](const std::vector<double>& U) { std::map<double, int> m; for (double x : U) { auto it = std::lower_bound(site.begin(), site.end(), x - 1e-11 * (1 + std::fabs(x))); m[it == site.end() ? x : std::fabs(*it - x) <= 1e-11 * (1 + std::fabs(x)) ? *it : x]++; } return m; }; g.note([&](std::ostream& s) { s << "family " << v; }); auto merged = [](std::vector<double> a, const std::vector<double>& b) { a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); return a; };
    auto ins = KnotVectorUtils::GetInsertedKnotElements(v); REQUIRE((int)ins.size() == n, "size"); std::map<double, int> all; for (auto& x : v) for (auto& e : count(x)) all[e.first] = std::max(all[e.first], e.second);
    for (int i = 0; i < n; i++) { REQUIRE(std::is_sorted(ins[i].begin(), ins[i].end()), "inserted elements are not sorted"); REQUIRE(count(merged(v[i], ins[i])) == all, "vector " << i << " refined with " << ins[i] << " is not the common refinement"); }
    std::vector<double> i0, i1; KnotVectorUtils::GetInsertedKnotElement(v[0], v[1], i0, i1); std::map<double, int> two; for (int i = 0; i < 2; i++) for (auto& e : count(v[i])) two[e.first] = std::max(two[e.first], e.second);
    REQUIRE(count(merged(v[0], i0)) == two && count(merged(v[1], i1)) == two, "pair: " << i0 << " and " << i1); REQUIRE(std::is_sorted(i0.begin(), i0.end()) && std::is_sorted(i1.begin(), i1.end()), "pair not sorted");
}
LAW(midpoint_insertion, 20000, 500000) {   // each inserted knot halves a longest span
    auto k = kn(g); int n = g.integer(0, 12); g.note([&](std::ostream& s) { s << "insert " << n; }); auto ins = KnotVectorUtils::GetInsertedKnotElements(n, k.U); REQUIRE((int)ins.size() == n, "size " << ins.size()); REQUIRE(std::is_sorted(ins.begin(), ins.end()), "order"); ld L = k.hi() - k.lo(), tol = 1e-5L * (1 + L);
    std::vector<ld> span; for (size_t i = 1; i < k.distinct.size(); i++) span.push_back((ld)k.distinct[i] - k.distinct[i - 1]); for (int i = 0; i < n; i++) { auto it = std::max_element(span.begin(), span.end()); ld h = *it / 2; *it = h; span.push_back(h); }
    std::vector<double> all = k.distinct; all.insert(all.end(), ins.begin(), ins.end()); std::sort(all.begin(), all.end()); std::vector<ld> got; for (size_t i = 1; i < all.size(); i++) got.push_back((ld)all[i] - all[i - 1]); std::sort(span.begin(), span.end()); std::sort(got.begin(), got.end());
    REQUIRE(all.front() == k.lo() && all.back() == k.hi(), "leaves the domain"); for (size_t i = 0; i < got.size(); i++) NEAR1(got[i], span[i], tol, "span length " << i << " after inserting " << ins);
    for (double x : ins) for (size_t i = 1; i < k.distinct.size(); i++) if (x > k.distinct[i - 1] && x < k.distinct[i]) { ld f = (x - (ld)k.distinct[i - 1]) / ((ld)k.distinct[i] - k.distinct[i - 1]); ld q = f * 4096; NEAR1(q, roundl(q), 1e-3L, "not a dyadic point of its span: " << x); }
}
LAW(clamp_to_subrange, 20000, 500000) {   // the elements that give both ends of a subrange multiplicity degree+1
    auto k = kn(g); double a = genParam(g, k), b = genParam(g, k); if (a > b) std::swap(a, b); if (b - a < 1e-3 * (1 + std::fabs(b))) pbt::discard("empty range"); for (double d : k.distinct) for (double* x : {&a, &b}) if (std::fabs(d - *x) < 1e-4 * (1 + std::fabs(d))) *x = d;
    g.tagIf(a > k.lo() && count(k.U).count(a), "starts-at-knot"); g.note([&](std::ostream& s) { s << "range " << a << " " << b; }); auto ins = KnotVectorUtils::GetInsertedKnotElement(k.p, k.U, a, b); auto m = count(k.U); std::map<double, int> want; for (double x : {a, b}) { int c = m.count(x) ? m[x] : 0; if (c < k.p + 1) want[x] = k.p + 1 - c; }
    REQUIRE(count(ins) == want, "elements " << ins);
}
LAW(uniformity, 30000, 800000) {
    int p = g.integer(1, 5), n = g.integer(1, 6); double lo = g.coord(5), gap = g.real(0.1, 3); int mu = g.integer(1, p), e0 = g.integer(1, p + 1), e1 = e0; std::vector<double> pos; std::vector<int> m; for (int i = 0; i <= n; i++) { pos.push_back(lo + i * gap); m.push_back(i && i < n ? mu : e0); } bool want = true;
    switch (g.weighted({2, 1, 1, 1})) { case 0: break; case 1: { int i = g.integer(1, n); double d = gap * g.real(0.05, 0.6); if (n > 1) { want = false; for (int j = i; j <= n; j++) pos[j] += d; g.tag("gap"); } break; } case 2: if (n > 2) { int i = g.integer(1, n - 1); m[i] += 1; want = false; g.tag("multiplicity"); } break; default: m[n] = e1 = e0 + 1; want = false; g.tag("ends"); }
    std::vector<double> U; for (int i = 0; i <= n; i++) U.insert(U.end(), m[i], pos[i]); g.nontrivial(n > 1); g.note([&](std::ostream& s) { s << "U=" << U; }); REQUIRE(KnotVectorUtils::IsUniform(U) == want, "uniform expected " << want); REQUIRE(ValidationUtils::IsValidKnotVector(U), "valid");
    if (U.size() > 1) { int i = g.integer(0, (int)U.size() - 1), j = g.integer(0, (int)U.size() - 1); if (U[i] != U[j]) { std::swap(U[i], U[j]); REQUIRE(!ValidationUtils::IsValidKnotVector(U), "not sorted: " << U); } } REQUIRE(!KnotVectorUtils::IsUniform({}), "empty"); if (g.chance(1, 20)) KnotVectorUtils::IsUniform(std::vector<double>(e0, lo));
}
LAW(size_rules, 20000, 500000) {
    int p = g.integer(0, 9), n = g.integer(1, 30), k = g.integer(1, 45); if (g.boolean()) k = n + p + 1; g.nontrivial(k == n + p + 1); g.note([&](std::ostream& s) { s << "degree " << p << " points " << n << " knots " << k; });
    REQUIRE(ValidationUtils::IsValidBspline(p, k, n) == (k == n + p + 1), "B-spline"); REQUIRE(ValidationUtils::IsValidNurbs(p, k, n) == (k == n + p + 1), "NURBS"); REQUIRE(ValidationUtils::IsValidBezier(p, n) == (n == p + 1), "Bezier"); REQUIRE(ValidationUtils::IsValidDegreeReduction(p) == (p > 1), "degree reduction");
}
LAW(modify_tolerance, 20000, 500000) {
    int n = g.integer(1, 12); auto w = genWeights(g, n); std::vector<XYZW> P; ld wm = 1, far = 0; for (int i = 0; i < n; i++) { XYZ q = genPoint(g); P.push_back(XYZW(q, w[i])); wm = std::min(wm, (ld)w[i]); far = std::max(far, V3(q).len()); } g.nontrivial(wm < 1); g.note([&](std::ostream& s) { s << P; }); NEAR1(ValidationUtils::ComputeCurveModifyTolerance(P), 1e-4L * wm / (1 + far), 1e-15L, "tolerance");
}
