// U06: quadrature rules and the cubic equation
#include "gen.h"
const char* pbt::RULE = "polynomials up to the exactness degree of the rule, exponentials, sines and rational functions on arbitrary intervals, series lengths 60 to 2000; cubics built from three real roots or one real root and a pair, quadratics and lines; a case is non-trivial when the integrand is not constant";
struct Fn : IntegrationFunction { std::function<double(double)> f; void* want = nullptr; bool okData = true; int calls = 0; double lo = 1e300, hi = -1e300; double operator()(double t, void* d) override { okData &= d == want; calls++; lo = std::min(lo, t); hi = std::max(hi, t); return f(t); } };
struct Fn2 : BinaryIntegrationFunction { std::function<double(double, double)> f; double operator()(double u, double v, void*) const override { return f(u, v); } };
struct Interval { double a, b; };
static Interval iv(Gen& g) { Interval r; r.a = g.coord(4); r.b = r.a + g.real(0.1, 4); return r; }
static ld horner(const std::vector<double>& c, ld x) { ld s = 0; for (size_t i = c.size(); i--;) s = s * x + c[i]; return s; }
static ld integral(const std::vector<double>& c, ld a, ld b) { ld s = 0; for (size_t i = 0; i < c.size(); i++) s += c[i] * (powl(b, i + 1) - powl(a, i + 1)) / (i + 1); return s; }
LAW(simpson, 20000, 500000) {   // exact for cubics
    auto I = iv(g); std::vector<double> c(g.integer(1, 4)); for (double& x : c) x = g.coord(3); g.nontrivial(c.size() > 1); g.note([&](std::ostream& o) { o << c << " on " << I.a << " " << I.b; }); int tok = 0; Fn f; f.want = &tok; f.f = [&](double t) { return (double)horner(c, t); }; NEAR1(Integrator::Simpson(f, &tok, I.a, I.b), integral(c, I.a, I.b), 1e-9L * 5000, "Simpson"); REQUIRE(f.okData, "custom data not passed"); NEAR1(Integrator::Simpson(f, &tok, I.b, I.a), -integral(c, I.a, I.b), 1e-9L * 5000, "reversed");
}
LAW(simpson_two_variables, 15000, 500000) {   // exact for bicubics
    auto U = iv(g), V = iv(g); std::vector<std::vector<double>> c(4, std::vector<double>(4, 0.0)); int n = g.integer(1, 6); for (int i = 0; i < n; i++) c[g.integer(0, 3)][g.integer(0, 3)] = g.coord(2); g.nontrivial(n > 1); g.note([&](std::ostream& o) { o << c << " on " << U.a << " " << U.b << " x " << V.a << " " << V.b; }); Fn2 f; f.f = [&](double u, double v) { ld s = 0; for (int i = 0; i < 4; i++) s += powl(u, i) * horner(c[i], v); return (double)s; }; ld want = 0, mag = 1; for (int i = 0; i < 4; i++) { ld iu = (powl(U.b, i + 1) - powl(U.a, i + 1)) / (i + 1); want += iu * integral(c[i], V.a, V.b); for (int j = 0; j < 4; j++) mag += std::fabs(c[i][j]) * powl(8, i + j) * 16; } NEAR1(Integrator::Simpson(f, nullptr, U.a, U.b, V.a, V.b), want, 1e-12L * mag, "Simpson");
}
LAW(gauss_legendre_tables, 10000, 300000) {   // the 24 point rule integrates polynomials up to degree 47 over [-1, 1]
    auto& x = Integrator::GaussLegendreAbscissae; auto& w = Integrator::GaussLegendreWeights; REQUIRE(x.size() == 24 && w.size() == 24, "size"); std::vector<double> c(g.integer(1, 48)); for (double& k : c) k = g.coord(3); g.nontrivial(c.size() > 2); g.note([&](std::ostream& o) { o << c; }); ld s = 0; for (int i = 0; i < 24; i++) s += (ld)w[i] * horner(c, x[i]); NEAR1(s, integral(c, -1, 1), 1e-11L, "24 point rule");
}
LAW(clenshaw_curtis, 15000, 500000) {
    auto I = iv(g); double L = I.b - I.a, m = (I.a + I.b) / 2, k = g.coord(3) / L, ph = g.coord(3); int kind = g.weighted({3, 2, 2, 1, 1}); std::vector<double> c(g.integer(1, 9)); for (double& x : c) x = g.coord(3); double d = g.real(0.5, 3); Fn f; ld want = 0, size = 0;
    switch (kind) { case 0: f.f = [&](double t) { return (double)horner(c, (t - m) / L); }; want = L * integral(c, -0.5L, 0.5L); break; case 1: f.f = [&](double t) { return std::exp(k * (t - m)); }; want = k == 0 ? (ld)L : (expl(k * (I.b - m)) - expl(k * (I.a - m))) / k; break; case 2: f.f = [&](double t) { return std::sin(2 * k * t + ph); }; want = k == 0 ? L * sinl(ph) : (cosl(2 * (ld)k * I.a + ph) - cosl(2 * (ld)k * I.b + ph)) / (2 * k); break; case 3: f.f = [&](double t) { return 1 / (t - I.a + d * L); }; want = logl(((ld)L + d * L) / (d * L)); break; default: f.f = [&](double t) { return std::sqrt(d * d + (t - m) * (t - m)); }; { auto F = [&](ld x) { return (x * sqrtl(d * (ld)d + x * x) + (ld)d * d * asinhl(x / d)) / 2; }; want = F(I.b - m) - F(I.a - m); } }
    for (int i = 0; i <= 64; i++) size += std::fabs(f.f(I.a + L * i / 64)) * L / 65; static const int N[] = {100, 60, 200, 500, 2000}; int n = N[g.weighted({3, 1, 2, 1, 1})]; g.nontrivial(kind || c.size() > 1); static const char* T[] = {"polynomial", "exponential", "sine", "reciprocal", "root"}; g.tag(T[kind]); g.note([&](std::ostream& o) { o << T[kind] << " on " << I.a << " " << I.b << " k=" << k << " phase " << ph << " d=" << d << " c=" << c << " series " << n; });
    int tok = 0; f.want = &tok; auto s = Integrator::ChebyshevSeries(n); REQUIRE((int)s.size() == n, "series size"); ld tol = 1e-4L * (size + 1e-3L * L); double q2 = Integrator::ClenshawCurtisQuadrature2(f, &tok, I.a, I.b, s); NEAR1(q2, want, tol, "quadrature 2"); auto s1 = s; double q = Integrator::ClenshawCurtisQuadrature(f, &tok, I.a, I.b, s1); NEAR1(q, want, tol, "quadrature"); NEAR1(Integrator::ClenshawCurtisQuadrature(f, &tok, I.a, I.b, s1), q, 1e-12L * (1 + size), "series used again"); REQUIRE(f.okData, "custom data not passed"); REQUIRE(f.lo >= I.a - 1e-9 && f.hi <= I.b + 1e-9, "sampled outside the interval"); NEAR1(Integrator::ClenshawCurtisQuadrature(f, &tok, I.b, I.a, s1), -(ld)q, 1e-9L * (1 + size), "reversed interval");
}
LAW(cubic_equation, 20000, 800000) {
    double a = g.real(0.2, 4) * (g.boolean() ? 1 : -1), b, c, d; int kind = g.weighted({4, 3, 1, 1, 1}); if (kind == 0) { double r = g.coord(4), s = g.coord(4), t = g.coord(4); b = -a * (r + s + t); c = a * (r * s + r * t + s * t); d = -a * r * s * t; g.tag("three-roots"); } else if (kind == 1) { double r = g.coord(4), h = g.coord(3), k = g.real(0.1, 3); b = a * (-r - 2 * h); c = a * (h * h + k * k + 2 * r * h); d = -a * r * (h * h + k * k); g.tag("one-root"); } else if (kind == 2) { b = g.coord(5); c = g.coord(5); d = g.coord(5); } else if (kind == 3) { double r = g.coord(4), s = g.coord(4); b = a; c = -a * (r + s); d = a * r * s; a = 0; g.tag("quadratic"); } else { c = a; d = g.coord(5); a = b = 0; g.tag("linear"); }
    g.nontrivial(kind < 4); g.note([&](std::ostream& o) { o.precision(17); o << a << " " << b << " " << c << " " << d; }); double r = MathUtils::ComputerCubicEquationsWithOneVariable(a, b, c, d); REQUIRE(std::isfinite(r), "result " << r); ld x = r; ld v = ((a * x + b) * x + c) * x + d, m = (fabsl(a) + fabsl(b) + fabsl(c) + fabsl(d)) * powl(1 + fabsl(x), 3); NEAR1(v, 0, 1e-5L * m, "value at the root " << r);
}
