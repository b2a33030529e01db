#include "gen.h"
const char* pbt::RULE = "random degree 1..7, clamped knot vectors (0..6, sometimes 25 interior knots, multiplicity up to the degree, various domains), parameters at ends / exactly at knots / inside spans; non-trivial: the knot vector has an interior knot, or (Bernstein/power laws) degree >= 2";

static ld mingap(const Knots& k) { ld m = 1e300L; for (size_t i = 0; i + 1 < k.distinct.size(); i++) m = std::min(m, (ld)k.distinct[i + 1] - k.distinct[i]); return m; }

LAW(span_and_multiplicity, 80000, 4000000) {
    int p = genDegree(g); Knots k = genKnots(g, p); double t = genParam(g, k);
    g.nontrivial(k.distinct.size() > 2);
    g.note([&](std::ostream& s) { s << "p=" << p << " U=" << k.U << " t=" << t; });
    int want = refSpan(p, k.U, t);
    int got = Polynomials::GetKnotSpanIndex(p, k.U, t);
    REQUIRE(got == want, "span " << got << " expected " << want << " p=" << p << " t=" << t << " U=" << k.U);
    int i = g.integer(0, (int)k.distinct.size() - 1);
    REQUIRE(Polynomials::GetKnotMultiplicity(k.U, k.distinct[i]) == k.mult[i], "multiplicity of " << k.distinct[i] << " in " << k.U);
    double f = 0.01 + 0.98 * g.unit(); int j = g.integer(0, (int)k.distinct.size() - 2);
    REQUIRE(Polynomials::GetKnotMultiplicity(k.U, k.distinct[j] + f * (k.distinct[j + 1] - k.distinct[j])) == 0, "multiplicity between knots of " << k.U);
}
LAW(basis_functions_match_definition, 80000, 4000000) {
    int p = genDegree(g); Knots k = genKnots(g, p); double t = genParam(g, k);
    g.nontrivial(k.distinct.size() > 2);
    g.note([&](std::ostream& s) { s << "p=" << p << " U=" << k.U << " t=" << t; });
    int sp = refSpan(p, k.U, t);
    auto R = refBasisDers(p, k.U, sp, t, p);
    double N[Constants::NURBSMaxDegree + 1] = {0};
    Polynomials::BasisFunctions(sp, p, k.U, t, N);
    ld sum = 0;
    for (int i = 0; i <= p; i++) {
        NEAR1(N[i], R[0][i], 1e-11L, "basis function " << i << " p=" << p << " t=" << t << " U=" << k.U);
        REQUIRE(N[i] >= -1e-13, "negative basis function"); sum += N[i];
    }
    NEAR1(sum, 1, 1e-11L, "partition of unity");
    int K = g.integer(0, p);
    auto D = Polynomials::BasisFunctionsDerivatives(sp, p, K, k.U, t);
    REQUIRE((int)D.size() == K + 1, "rows " << D.size());
    double F[2][Constants::NURBSMaxDegree + 1] = {{0}};
    Polynomials::BasisFunctionsFirstOrderDerivative(sp, p, k.U, t, F);
    for (int d = 0; d <= K; d++) {
        ld m = 0, s = 0; for (int i = 0; i <= p; i++) m = std::max(m, fabsl(R[d][i]));
        REQUIRE((int)D[d].size() == p + 1, "columns " << D[d].size());
        for (int i = 0; i <= p; i++) { NEAR1(D[d][i], R[d][i], 1e-8L * (1 + m), "derivative " << d << " of basis " << i << " p=" << p << " t=" << t << " U=" << k.U); s += D[d][i]; }
        if (d > 0) NEAR1(s, 0, 1e-7L * (1 + m), "derivatives of order " << d << " sum to zero");
    }
    for (int d = 0; d < 2; d++) { ld m = 0; for (int i = 0; i <= p; i++) m = std::max(m, fabsl(R[d][i])); for (int i = 0; i <= p; i++) NEAR1(F[d][i], R[d][i], 1e-9L * (1 + m), "first-order routine, order " << d << " basis " << i << " p=" << p << " t=" << t << " U=" << k.U); }
    auto all = Polynomials::AllBasisFunctions(sp, p, k.U, t);
    for (int q = 0; q <= p; q++) {   // functions of every lower degree on the same span
        std::vector<double> sub(k.U.begin() + (sp - q), k.U.begin() + (sp + q + 2));
        auto r = refBasisDers(q, sub, q, t, 0);
        for (int j = 0; j <= q; j++) NEAR1(all[j][q], r[0][j], 1e-11L, "all-basis degree " << q << " function " << j << " p=" << p << " t=" << t << " U=" << k.U);
    }
}
LAW(single_basis_function, 80000, 4000000) {
    int p = genDegree(g); Knots k = genKnots(g, p); double t = genParam(g, k);
    g.nontrivial(k.distinct.size() > 2);
    g.note([&](std::ostream& s) { s << "p=" << p << " U=" << k.U << " t=" << t; });
    int n = (int)k.U.size() - p - 2, i = g.integer(0, n), sp = refSpan(p, k.U, t);
    int K = g.integer(0, p);
    auto R = refBasisDers(p, k.U, sp, t, K);
    auto want = [&](int d) -> ld { int j = i - (sp - p); return j < 0 || j > p ? 0 : R[d][j]; };
    // the routine treats values below 1e-6 as zero, hence the tolerance
    NEAR1(Polynomials::OneBasisFunction(i, p, k.U, t), want(0), 2e-5L, "basis " << i << " p=" << p << " t=" << t << " U=" << k.U);
    if (t != k.hi()) {
        auto D = Polynomials::OneBasisFunctionDerivative(i, p, K, k.U, t);
        REQUIRE((int)D.size() == K + 1, "size " << D.size());
        ld h = mingap(k), f = 1;
        for (int d = 0; d <= K; d++) {
            NEAR1(D[d], want(d), 2e-5L * f, "derivative " << d << " of basis " << i << " p=" << p << " t=" << t << " U=" << k.U);
            f *= 2 * (p - d) / std::min(h, (ld)1);
        }
    }
}
LAW(bernstein_and_horner, 60000, 3000000) {
    int p = g.integer(1, 9); double t = g.weighted({4, 1, 1}) == 0 ? g.unit() : (double)g.integer(0, 1);
    g.nontrivial(p >= 2); g.tagIf(t == 0 || t == 1, "at-end");
    g.note([&](std::ostream& s) { s << "p=" << p << " t=" << t; });
    auto B = Polynomials::AllBernstein(p, t);
    REQUIRE((int)B.size() == p + 1, "size");
    ld poly = 0; std::vector<double> a; ld mag = 0;
    for (int i = 0; i <= p; i++) {
        ld w = refBinom(p, i) * powl(t, i) * powl(1 - (ld)t, p - i);
        NEAR1(B[i], w, 1e-11L, "AllBernstein[" << i << "] degree " << p << " t=" << t);
        NEAR1(Polynomials::Bernstein(i, p, t), w, 1e-11L, "Bernstein(" << i << "," << p << "," << t << ")");
        a.push_back(g.coord(10)); mag += fabs(a.back());
    }
    REQUIRE(Polynomials::AllBernstein(0, t).size() == 1 && Polynomials::AllBernstein(0, t)[0] == 1.0, "degree 0");
    double x = g.coord(3);
    for (int i = 0; i <= p; i++) poly += a[i] * powl(x, i);
    NEAR1(Polynomials::Horner(p, a, x), poly, 1e-10L * (1 + mag * powl(3, p)), "Horner degree " << p << " at " << x << " of " << a);
    int q = g.integer(1, 4), r = g.integer(1, 4); std::vector<std::vector<double>> M(q + 1, std::vector<double>(r + 1));
    for (auto& row : M) for (auto& v : row) v = g.coord(10);
    UV uv(t, g.unit()); ld s2 = 0; for (int i = 0; i <= q; i++) for (int j = 0; j <= r; j++) s2 += M[i][j] * powl(uv[0], i) * powl(uv[1], j);
    NEAR1(Polynomials::Horner(q, r, M, uv), s2, 1e-10L * 300, "two-variable Horner " << q << "," << r << " at " << uv);
}
LAW(bezier_power_matrices, 20000, 400000) {
    int p = g.integer(1, 9); std::vector<double> b; double t = g.unit(); double mag = 1;
    for (int i = 0; i <= p; i++) { b.push_back(g.coord(10)); mag = std::max(mag, std::fabs(b.back())); }
    g.nontrivial(p >= 2); g.note([&](std::ostream& s) { s << "p=" << p << " b=" << b << " t=" << t; });
    auto M = Polynomials::BezierToPowerMatrix(p);
    REQUIRE((int)M.size() == p + 1 && (int)M[0].size() == p + 1, "size");
    // entries are the integers of the basis change
    for (int i = 0; i <= p; i++) for (int j = 0; j <= p; j++) {
        ld w = j > i ? 0 : refBinom(p, j) * refBinom(p - j, i - j) * (((i - j) & 1) ? -1 : 1);
        NEAR1(M[i][j], w, 1e-9L, "Bezier-to-power matrix entry " << i << "," << j << " degree " << p);
    }
    auto I = Polynomials::PowerToBezierMatrix(p, M);
    for (int i = 0; i <= p; i++) for (int j = 0; j <= p; j++) {
        ld s = 0; for (int k = 0; k <= p; k++) s += (ld)M[i][k] * I[k][j];
        NEAR1(s, i == j ? 1 : 0, 1e-7L, "matrix times inverse, entry " << i << "," << j << " degree " << p);
    }
    // round trip of a polynomial: values agree
    ld bez = 0, pw = 0; for (int i = 0; i <= p; i++) bez += refBinom(p, i) * powl(t, i) * powl(1 - (ld)t, p - i) * b[i];
    for (int i = 0; i <= p; i++) { ld c = 0; for (int j = 0; j <= p; j++) c += (ld)M[i][j] * b[j]; pw += c * powl(t, i); }
    NEAR1(pw, bez, 1e-8L * mag * 100, "power form value");
}
