// U04: 4x4 matrices: construction, products, transforms, inverse and predicates
#include "gen.h"
const char* pbt::RULE = "matrices with random and small-integer entries, rigid motions, reflections, scalings, translations and products of them, points of magnitude 10; a case is non-trivial when the matrix is not the identity";
typedef std::array<std::array<ld, 4>, 4> M;
static M of(const Matrix4d& a) { M r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r[i][j] = a.GetElement(i, j); return r; }
static Matrix4d mk(const M& a) { Matrix4d r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.SetElement(i, j, (double)a[i][j]); return r; }
static M mul(const M& a, const M& b) { M r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { r[i][j] = 0; for (int k = 0; k < 4; k++) r[i][j] += a[i][k] * b[k][j]; } return r; }
static ld det3(const M& a, int r, int c) { int R[3], C[3], k = 0; for (int i = 0; i < 4; i++) if (i != r) R[k++] = i; k = 0; for (int i = 0; i < 4; i++) if (i != c) C[k++] = i; auto e = [&](int i, int j) { return a[R[i]][C[j]]; }; return e(0, 0) * (e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1)) - e(0, 1) * (e(1, 0) * e(2, 2) - e(1, 2) * e(2, 0)) + e(0, 2) * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0)); }
static ld det(const M& a) { ld s = 0; for (int j = 0; j < 4; j++) s += (j & 1 ? -1 : 1) * a[0][j] * det3(a, 0, j); return s; }
static V3 linear(const M& a, const V3& v) { return V3(a[0][0] * v.x + a[0][1] * v.y + a[0][2] * v.z, a[1][0] * v.x + a[1][1] * v.y + a[1][2] * v.z, a[2][0] * v.x + a[2][1] * v.y + a[2][2] * v.z); }
static V3 affine(const M& a, const V3& v) { V3 r = linear(a, v) + V3(a[0][3], a[1][3], a[2][3]); return r / (a[3][0] * v.x + a[3][1] * v.y + a[3][2] * v.z + a[3][3]); }
static std::ostream& operator<<(std::ostream& o, const M& a) { o << "{"; for (auto& r : a) for (ld x : r) o << (double)x << " "; return o << "}"; }
static XYZ dir(Gen& g) { static const XYZ A[] = {XYZ(0, 0, 1), XYZ(1, 0, 0), XYZ(0, -1, 0), XYZ(1, 1, 0), XYZ(1, 1, 1)}; XYZ d; if (g.chance(1, 3)) d = A[g.integer(0, 4)] * g.real(0.5, 3); else { d = genPoint(g, 3); if (V3(d).len() < 0.05) d = XYZ(0, 0, 2); } return d; }
static void same(const Matrix4d& a, const M& b, ld tol, const char* what) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) NEAR1(a.GetElement(i, j), b[i][j], tol, what << " element " << i << "," << j); }
static V3 rot(const V3& axis, ld t, const V3& v) { V3 k = axis / axis.len(); return v * cosl(t) + k.cross(v) * sinl(t) + k * (k.dot(v) * (1 - cosl(t))); }
static M any(Gen& g) { M a; bool in = g.boolean(); for (auto& r : a) for (ld& x : r) x = in ? g.integer(-3, 3) : (double)g.coord(3); return a; }
static Matrix4d placed(Gen& g) {   // a product of elementary motions, scales at least 0.2 in magnitude
    Matrix4d r; int n = g.integer(1, 3); for (int i = 0; i < n; i++) switch (g.weighted({3, 2, 2, 1, 1})) { case 0: r = Matrix4d::CreateRotation(dir(g), g.coord(7)) * r; break; case 1: r = Matrix4d::CreateTranslation(genPoint(g)) * r; break; case 2: r = Matrix4d::CreateScale(XYZ(g.real(0.3, 2), g.real(0.3, 2), g.real(0.3, 2))) * r; break; case 3: r = Matrix4d::CreateReflection(dir(g), g.coord(4)) * r; g.tag("reflection"); break; default: r = Matrix4d::CreateRotationAtPoint(genPoint(g), dir(g), g.coord(7)) * r; } return r;
}
LAW(products_and_sums, 15000, 500000) {
    M a = any(g), b = any(g); g.nontrivial(); g.note([&](std::ostream& o) { o << a << b; }); Matrix4d A = mk(a), B = mk(b); a = of(A); b = of(B); same(A * B, mul(a, b), 1e-12L, "product"); same(A.Multiply(B), mul(a, b), 1e-12L, "Multiply"); M s, d, t; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { s[i][j] = a[i][j] + b[i][j]; d[i][j] = a[i][j] - b[i][j]; t[i][j] = a[j][i]; } same(A + B, s, 1e-13L, "sum"); same(A - B, d, 1e-13L, "difference"); same(A.GetTranspose(), t, 0, "transpose"); NEAR1(A.GetDeterminant(), det(a), 1e-11L * 1000, "determinant");
    M id; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) id[i][j] = i == j; same(Matrix4d(), id, 0, "default"); Matrix4d C; C = A; same(C, a, 0, "assignment"); same(Matrix4d(A.GetElement(0, 0), A.GetElement(0, 1), A.GetElement(0, 2), A.GetElement(0, 3), A.GetElement(1, 0), A.GetElement(1, 1), A.GetElement(1, 2), A.GetElement(1, 3), A.GetElement(2, 0), A.GetElement(2, 1), A.GetElement(2, 2), A.GetElement(2, 3), A.GetElement(3, 0), A.GetElement(3, 1), A.GetElement(3, 2), A.GetElement(3, 3)), a, 0, "elements");
    same(A, a, 0, "left operand changed"); same(B, b, 0, "right operand changed");
}
LAW(points_and_vectors, 15000, 500000) {
    M a = any(g); if (g.chance(2, 3)) { a[3] = {0, 0, 0, 1}; } else g.tag("projective"); XYZ p = genPoint(g, 3); double w = g.real(0.2, 4); Matrix4d A = mk(a); a = of(A); ld den = a[3][0] * p[0] + a[3][1] * p[1] + a[3][2] * p[2] + a[3][3]; if (fabsl(den) < 0.05L) pbt::discard("at infinity"); g.nontrivial(); g.note([&](std::ostream& o) { o << a << p << " w=" << w; });
    NEAR3(A.OfPoint(p), affine(a, p), 1e-10L, "point"); NEAR3(A.OfVector(p), linear(a, p), 1e-12L, "vector"); XYZW q = A.OfWeightedPoint(XYZW(p, w)); NEAR3(q.ToXYZ(true), affine(a, p), 1e-9L, "weighted point"); NEAR1(q.GetW(), w, 1e-12L, "weight");
}
LAW(basis, 10000, 200000) {
    XYZ x = genPoint(g), y = genPoint(g), z = genPoint(g), o = genPoint(g), p = genPoint(g, 3); g.nontrivial(); g.note([&](std::ostream& s) { s << x << y << z << o << p; }); Matrix4d A(x, y, z, o), B; B.SetBasisX(x); B.SetBasisY(y); B.SetBasisZ(z); B.SetBasisW(o); same(B, of(A), 0, "set basis"); NEAR3(A.GetBasisX(), x, 0, "X"); NEAR3(A.GetBasisY(), y, 0, "Y"); NEAR3(A.GetBasisZ(), z, 0, "Z"); NEAR3(A.GetBasisW(), o, 0, "W");
    NEAR3(A.OfPoint(p), V3(o) + V3(x) * p[0] + V3(y) * p[1] + V3(z) * p[2], 1e-11L, "point in the basis"); NEAR3(A.OfVector(p), V3(x) * p[0] + V3(y) * p[1] + V3(z) * p[2], 1e-11L, "vector in the basis"); XYZ s = A.GetScale(); NEAR3(s, V3(V3(x).len(), V3(y).len(), V3(z).len()), 1e-12L * 20, "scale");
}
LAW(rotations, 15000, 500000) {
    XYZ a = dir(g), o = genPoint(g), p = genPoint(g); double t = g.chance(1, 4) ? g.integer(-4, 4) * 1.5707963267948966 : g.coord(10), t2 = g.coord(5); g.nontrivial(t != 0); g.note([&](std::ostream& s) { s << "axis " << a << " angle " << t << "," << t2 << " origin " << o << " point " << p; });
    Matrix4d R = Matrix4d::CreateRotation(a, t), Q = Matrix4d::CreateRotationAtPoint(o, a, t), R2 = Matrix4d::CreateRotation(a, t2); ld tol = 1e-11L * 100; NEAR3(R.OfPoint(p), rot(a, t, p), tol, "rotation"); NEAR3(R.OfVector(p), rot(a, t, p), tol, "rotation of a vector"); NEAR3(Q.OfPoint(p), V3(o) + rot(a, t, V3(p) - V3(o)), tol, "rotation about a point"); NEAR3(Q.OfPoint(o), o, tol, "centre moves"); NEAR3((R * R2).OfPoint(p), rot(a, (ld)t + t2, p), tol, "angles add"); REQUIRE(!R.HasReflection(), "reflection"); NEAR1(R.GetDeterminant(), 1, 1e-11L, "determinant");
}
LAW(reflections, 15000, 500000) {   // across the plane n.x + d = 0 of the unit normal n
    XYZ n = dir(g), p = genPoint(g); double d = g.coord(5); g.nontrivial(); g.note([&](std::ostream& s) { s << "normal " << n << " d " << d << " point " << p; }); Matrix4d R = Matrix4d::CreateReflection(n, d), R0 = Matrix4d::CreateReflection(n); V3 u = V3(n) / V3(n).len(); ld tol = 1e-10L; NEAR3(R.OfPoint(p), V3(p) - u * (2 * (u.dot(p) + d)), tol, "reflection"); NEAR3(R0.OfPoint(p), V3(p) - u * (2 * u.dot(p)), tol, "reflection at the origin"); NEAR3(R.OfPoint(R.OfPoint(p)), p, tol, "involution"); REQUIRE(R.HasReflection(), "HasReflection"); NEAR1(R.GetDeterminant(), -1, 1e-11L, "determinant");
}
LAW(scale_and_translation, 10000, 300000) {
    XYZ s(g.coord(4), g.coord(4), g.coord(4)), t = genPoint(g), p = genPoint(g); g.nontrivial(); g.note([&](std::ostream& o) { o << s << t << p; }); NEAR3(Matrix4d::CreateScale(s).OfPoint(p), V3((ld)s[0] * p[0], (ld)s[1] * p[1], (ld)s[2] * p[2]), 1e-12L * 100, "scale"); NEAR3(Matrix4d::CreateScale(s).GetScale(), V3(fabsl(s[0]), fabsl(s[1]), fabsl(s[2])), 1e-12L, "GetScale"); Matrix4d T = Matrix4d::CreateTranslation(t); NEAR3(T.OfPoint(p), V3(t) + V3(p), 1e-13L * 100, "translation"); NEAR3(T.OfVector(p), p, 0, "vectors do not move"); REQUIRE(T.IsTranslation(), "IsTranslation"); REQUIRE(T.IsIdentity() == (V3(t).len() == 0) || (V3(t).len() > 0 && V3(t).len() < 1e-4L), "IsIdentity"); ld v = (ld)s[0] * s[1] * s[2]; if (fabsl(v) > 1e-4L) REQUIRE(Matrix4d::CreateScale(s).HasReflection() == (v < 0), "HasReflection");
}
LAW(inverse, 15000, 500000) {
    bool sing = g.chance(1, 4); Matrix4d A; M a; if (sing) { a = any(g); for (auto& r : a) for (ld& x : r) x = roundl(x); int r = g.integer(0, 3), s = g.integer(0, 3); if (r == s) for (int j = 0; j < 4; j++) a[r][j] = 0; else { int k = g.integer(-2, 2); for (int j = 0; j < 4; j++) a[r][j] = k * a[s][j]; } A = mk(a); g.tag("singular"); } else { A = g.boolean() ? placed(g) : mk(any(g)); a = of(A); }
    g.nontrivial(); g.note([&](std::ostream& o) { o << a; }); ld D = det(a), nrm = 0; for (auto& r : a) for (ld x : r) nrm = std::max(nrm, fabsl(x)); if (!sing && fabsl(D) < 1e-3L * powl(1 + nrm, 3)) pbt::discard("nearly singular"); Matrix4d I; bool ok = A.GetInverse(I); if (sing) { REQUIRE(!ok, "inverse of a singular matrix"); return; }
    REQUIRE(ok, "no inverse"); M inv; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) inv[j][i] = ((i + j) & 1 ? -1 : 1) * det3(a, i, j) / D; same(I, inv, 1e-9L * (1 + powl(nrm, 6) / (D * D)), "inverse"); same(A, a, 0, "operand changed"); XYZ p = genPoint(g, 3); if (a[3] == std::array<ld, 4>{0, 0, 0, 1}) NEAR3(I.OfPoint(A.OfPoint(p)), p, 1e-8L * (1 + powl(nrm, 6) / (D * D)), "round trip");
}
LAW(predicates, 20000, 800000) {   // identity and translation: every entry counts
    M a; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a[i][j] = i == j; bool idt = true, tr = true; int n = g.integer(0, 3); for (int k = 0; k < n; k++) { int i = g.integer(0, 3), j = g.integer(0, 3); double d = g.real(0.01, 2) * (g.boolean() ? 1 : -1); a[i][j] += d; } 
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ld e = fabsl(a[i][j] - (i == j)); if (e > 0 && e < 1e-3L) pbt::discard("in the tolerance"); if (e > 0) { idt = false; if (!(j == 3 && i < 3)) tr = false; } } g.nontrivial(!idt); g.tagIf(tr && !idt, "translation"); g.note([&](std::ostream& o) { o << a; }); Matrix4d A = mk(a); REQUIRE(A.IsIdentity() == idt, "IsIdentity expected " << idt); REQUIRE(A.IsTranslation() == tr, "IsTranslation expected " << tr);
}
LAW(composition, 10000, 300000) {   // applying a product is applying its factors, right to left; handedness follows the determinant
    Matrix4d A = placed(g), B = placed(g); XYZ p = genPoint(g); g.nontrivial(); g.note([&](std::ostream& o) { o << of(A) << of(B) << p; }); NEAR3((A * B).OfPoint(p), A.OfPoint(B.OfPoint(p)), 1e-8L, "product"); NEAR3((A * B).OfVector(p), A.OfVector(B.OfVector(p)), 1e-8L, "product on vectors"); ld D = det(of(A)); if (fabsl(D) > 1e-4L) REQUIRE(A.HasReflection() == (D < 0), "HasReflection");
}
