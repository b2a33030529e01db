// The long-double reference model (see gen.h). Compiled without sanitizers: it is the oracle, not the code under test.
#include "gen.h"

std::vector<std::vector<ld>> refBasisDers(int p, const std::vector<double>& U, int span, ld t, int K) {
    // lev[q][j]: N_{span-q+j,q}(t), j=0..q, by the Cox-de Boor recursion on the span's polynomial pieces
    ld lev[16][18];
    auto at = [&](const ld* v, int q, int i) -> ld { int j = i - (span - q); return (j < 0 || j > q) ? 0 : v[j]; };
    if (p > 14) pbt::fail("reference model: degree too high");
    lev[0][0] = 1;
    for (int q = 1; q <= p; q++)
        for (int i = span - q; i <= span; i++) {
            ld a = 0, b = 0, l = at(lev[q - 1], q - 1, i), r = at(lev[q - 1], q - 1, i + 1);
            if (l != 0) { ld d = (ld)U[i + q] - U[i]; if (d != 0) a = (t - U[i]) / d * l; }
            if (r != 0) { ld d = (ld)U[i + q + 1] - U[i + 1]; if (d != 0) b = (U[i + q + 1] - t) / d * r; }
            lev[q][i - (span - q)] = a + b;
        }
    std::vector<std::vector<ld>> out(K + 1, std::vector<ld>(p + 1, 0));
    for (int k = 0; k <= K && k <= p; k++) {
        ld cur[18], nx[18];
        for (int j = 0; j <= p - k; j++) cur[j] = lev[p - k][j];
        for (int q = p - k + 1; q <= p; q++) {
            for (int i = span - q; i <= span; i++) {
                ld l = at(cur, q - 1, i), r = at(cur, q - 1, i + 1), v = 0;
                if (l != 0) { ld d = (ld)U[i + q] - U[i]; if (d != 0) v += q * l / d; }
                if (r != 0) { ld d = (ld)U[i + q + 1] - U[i + 1]; if (d != 0) v -= q * r / d; }
                nx[i - (span - q)] = v;
            }
            for (int j = 0; j <= q; j++) cur[j] = nx[j];
        }
        for (int j = 0; j <= p; j++) out[k][j] = cur[j];
    }
    return out;
}
RefDers refDers(const RefPatch& r, const ld t[3], const int K[3], const int* spans) {
    RefDers R; int sp[3]; std::vector<std::vector<ld>> B[3];
    for (int d = 0; d < 3; d++) { R.K[d] = K[d]; sp[d] = spans ? spans[d] : refSpan(r.p[d], *r.U[d], t[d]); B[d] = refBasisDers(r.p[d], *r.U[d], sp[d], t[d], K[d]); }
    int N = (K[0] + 1) * (K[1] + 1) * (K[2] + 1);
    std::vector<V3> A(N); std::vector<ld> W(N, 0), Aa(N, 0), Wa(N, 0);
    for (int i = 0; i <= r.p[0]; i++) for (int j = 0; j <= r.p[1]; j++) for (int k = 0; k <= r.p[2]; k++) {
        const XYZW& q = r.cp(sp[0] - r.p[0] + i, sp[1] - r.p[1] + j, sp[2] - r.p[2] + k);
        V3 qv(q[0], q[1], q[2]); ld ql = std::max(std::max(fabsl(qv.x), fabsl(qv.y)), fabsl(qv.z));
        for (int a = 0; a <= K[0]; a++) for (int b = 0; b <= K[1]; b++) for (int c = 0; c <= K[2]; c++) {
            ld f = B[0][a][i] * B[1][b][j] * B[2][c][k]; int id = R.idx(a, b, c);
            A[id] = A[id] + qv * f; W[id] += f * q[3]; Aa[id] += fabsl(f) * ql; Wa[id] += fabsl(f * q[3]);
        }
    }
    R.v.assign(N, V3()); R.bound.assign(N, 0);
    for (int a = 0; a <= K[0]; a++) for (int b = 0; b <= K[1]; b++) for (int c = 0; c <= K[2]; c++) {
        int id = R.idx(a, b, c); V3 s = A[id]; ld bd = Aa[id];
        for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) for (int k = 0; k <= c; k++) {
            if (!i && !j && !k) continue;
            ld f = refBinom(a, i) * refBinom(b, j) * refBinom(c, k); int w = R.idx(i, j, k), o = R.idx(a - i, b - j, c - k);
            s = s - R.v[o] * (f * W[w]); bd += f * Wa[w] * R.bound[o];
        }
        R.v[id] = s / W[0]; R.bound[id] = bd / fabsl(W[0]);
    }
    return R;
}
