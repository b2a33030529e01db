// U07: vector algebra of XYZ, UV, UVW and XYZW
#include "gen.h"
const char* pbt::RULE = "vectors of magnitude 1e-3 to 1e3, axis aligned, diagonal, parallel, antiparallel and zero ones, weights 0.05 to 20; a case is non-trivial when no operand is zero";
static XYZ vec(Gen& g) { static const double S[] = {10, 1, 1e-3, 1e3}; double s = S[g.weighted({4, 3, 1, 1})]; if (g.chance(1, 3)) return XYZ(g.integer(-1, 1), g.integer(-1, 1), g.integer(-1, 1)) * s; return genPoint(g, s); }
static ld mag(const XYZ& a) { return V3(a).len(); }
LAW(three_dimensional, 30000, 1000000) {
    XYZ a = vec(g), b = vec(g); if (g.chance(1, 6)) b = a * g.real(-2, 2); double d = g.real(0.1, 5) * (g.boolean() ? 1 : -1); g.nontrivial(mag(a) > 0 && mag(b) > 0); g.note([&](std::ostream& o) { o << a << b << d; }); V3 A(a), B(b); ld s = mag(a) + mag(b) + 1e-3L, t = 1e-13L * s, t2 = 1e-13L * s * s;
    NEAR3(a + b, A + B, t, "+"); NEAR3(a.Add(b), A + B, t, "Add"); NEAR3(a - b, A - B, t, "-"); NEAR3(a.Substract(b), A - B, t, "Substract"); NEAR3(-a, A * -1, 0, "unary -"); NEAR3(a.Negative(), A * -1, 0, "Negative"); NEAR3(a * d, A * d, t * 5, "* scalar"); NEAR3(d * a, A * d, t * 5, "scalar *"); NEAR3(a / d, A / d, t * 10, "/ scalar"); NEAR1(a * b, A.dot(B), t2, "dot"); NEAR1(a.DotProduct(b), A.dot(B), t2, "DotProduct"); NEAR3(a.CrossProduct(b), A.cross(B), t2, "CrossProduct"); NEAR3(a ^ b, A.cross(B), t2, "^");
    XYZ c = a; c += b; NEAR3(c, A + B, t, "+="); c = a; c -= b; NEAR3(c, A - B, t, "-="); c = a; c *= d; NEAR3(c, A * d, t * 5, "*="); c = a; c /= d; NEAR3(c, A / d, t * 10, "/="); NEAR1(a.Length(), A.len(), t, "Length"); NEAR1(a.SqrLength(), A.dot(A), t2, "SqrLength"); NEAR1(a.Distance(b), (A - B).len(), t, "Distance");
    XYZ n = a.Normalize(); if (mag(a) > 0) { NEAR3(n, A / A.len(), 1e-12L, "Normalize"); REQUIRE(n.IsUnit(), "IsUnit of a normalised vector"); } else NEAR3(n, V3(), 0, "Normalize of zero"); if (fabsl(mag(a) - 1) > 3e-6L) REQUIRE(!a.IsUnit(), "IsUnit"); double e = g.boolean() ? 1e-6 : g.real(1e-4, 2); if (fabsl(mag(a) - e) > 1e-9L * (1 + e)) REQUIRE(a.IsZero(e) == (mag(a) < e), "IsZero");
    if (mag(a) > 1e-4L && mag(b) > 1e-4L) { ld co = A.dot(B) / A.len() / B.len(), si = A.cross(B).len() / A.len() / B.len(); NEAR1(a.AngleTo(b), atan2l(si, co), 1e-7L, "AngleTo"); } else if (mag(a) == 0 || mag(b) == 0) NEAR1(a.AngleTo(b), 0, 0, "AngleTo with zero");
    bool same = true, sure = true; for (int k = 0; k < 3; k++) { ld dd = fabsl((ld)a[k] - b[k]), w = 1e-6L * (1 + std::max(fabsl((ld)a[k]), fabsl((ld)b[k]))); if (fabsl(dd - w) < 1e-9L * w) sure = false; if (dd > w) same = false; } if (sure) REQUIRE(a.IsAlmostEqualTo(b) == same, "IsAlmostEqualTo");
    XYZ q; NEAR3(q, V3(), 0, "default"); q.SetX(a[0]); q.SetY(a[1]); q.SetZ(a[2]); NEAR3(q, A, 0, "setters"); REQUIRE(q.GetX() == a.X() && q.GetY() == a.Y() && q.GetZ() == a.Z(), "getters"); q.X() = b[0]; q.Y() = b[1]; q.Z() = b[2]; NEAR3(q, B, 0, "references"); q[1] = d; REQUIRE(q.Y() == d && q.X() == b[0] && q.Z() == b[2], "index");
}
LAW(orthogonal, 20000, 500000) { XYZ a = vec(g); if (mag(a) == 0) pbt::discard("zero"); g.nontrivial(); g.note([&](std::ostream& o) { o << a; }); XYZ r = XYZ::CreateRandomOrthogonal(a); NEAR1(mag(r), 1, 1e-9L, "length"); NEAR1(V3(r).dot(V3(a) / mag(a)), 0, 1e-9L, "orthogonality"); }
LAW(two_dimensional, 30000, 1000000) {
    XYZ a3 = vec(g), b3 = vec(g); UV a(a3[0], a3[1]), b(b3[0], b3[1]); double d = g.real(0.1, 5) * (g.boolean() ? 1 : -1); V3 A(a[0], a[1], 0), B(b[0], b[1], 0); g.nontrivial(A.len() > 0 && B.len() > 0); g.note([&](std::ostream& o) { o << a << b << d; }); ld s = A.len() + B.len() + 1e-3L, t = 1e-13L * s * 10, t2 = 1e-13L * s * s; auto v = [](const UV& u) { return V3(u[0], u[1], 0); };
    NEAR3(v(a + b), A + B, t, "+"); NEAR3(v(a.Add(b)), A + B, t, "Add"); NEAR3(v(a - b), A - B, t, "-"); NEAR3(v(a.Substract(b)), A - B, t, "Substract"); NEAR3(v(-a), A * -1, 0, "unary -"); NEAR3(v(a.Negative()), A * -1, 0, "Negative"); NEAR3(v(a * d), A * d, t, "* scalar"); NEAR3(v(d * a), A * d, t, "scalar *"); NEAR3(v(a / d), A / d, t, "/ scalar"); NEAR1(a * b, A.dot(B), t2, "dot"); NEAR1(a.DotProduct(b), A.dot(B), t2, "DotProduct"); NEAR1(a.CrossProduct(b), A.cross(B).z, t2, "CrossProduct"); NEAR1(a ^ b, A.cross(B).z, t2, "^"); UV c = a; c += b; NEAR3(v(c), A + B, t, "+="); c = a; c -= b; NEAR3(v(c), A - B, t, "-="); c = a; c *= d; NEAR3(v(c), A * d, t, "*="); c = a; c /= d; NEAR3(v(c), A / d, t, "/=");
    NEAR1(a.Length(), A.len(), t, "Length"); NEAR1(a.SqrLength(), A.dot(A), t2, "SqrLength"); NEAR1(a.Distance(b), (A - B).len(), t, "Distance"); UV n = a.Normalize(); if (A.len() > 0) { NEAR3(v(n), A / A.len(), 1e-12L, "Normalize"); REQUIRE(n.IsUnit(), "IsUnit"); } else NEAR3(v(n), V3(), 0, "Normalize of zero"); if (fabsl(A.len() - 1) > 3e-6L) REQUIRE(!a.IsUnit(), "not unit"); double e = g.real(1e-4, 2); if (fabsl(A.len() - e) > 1e-9L) REQUIRE(a.IsZero(e) == (A.len() < e), "IsZero"); bool same = true, sure = true; for (int k = 0; k < 2; k++) { ld dd = fabsl((ld)a[k] - b[k]), w = 1e-6L * (1 + std::max(fabsl((ld)a[k]), fabsl((ld)b[k]))); if (fabsl(dd - w) < 1e-9L * w) sure = false; if (dd > w) same = false; } if (sure) REQUIRE(a.IsAlmostEqualTo(b) == same, "IsAlmostEqualTo");
    UV q; NEAR3(v(q), V3(), 0, "default"); q.SetU(a[0]); q.SetV(a[1]); REQUIRE(q.GetU() == a.U() && q.GetV() == a.V() && q.U() == a[0] && q.V() == a[1], "getters"); q.U() = d; REQUIRE(q[0] == d && q[1] == a[1], "references"); q.V() = 7; REQUIRE(q.GetV() == 7 && q[0] == d, "references"); UVW w(a[0], b[0], d), z; REQUIRE(z.U() == 0 && z.V() == 0 && z.W() == 0, "UVW default"); REQUIRE(w.GetU() == a[0] && w.GetV() == b[0] && w.GetW() == d && w.U() == a[0] && w.V() == b[0] && w.W() == d, "UVW"); z.SetU(1); z.SetV(d); z.SetW(b[1]); REQUIRE(z.U() == 1 && z.V() == d && z.W() == b[1], "UVW setters"); z.U() = b[0]; z.V() = 3; z.W() = 4; REQUIRE(z.GetU() == b[0] && z.GetV() == 3 && z.GetW() == 4, "UVW references");
}
LAW(homogeneous, 30000, 1000000) {
    XYZ p = vec(g), q = vec(g); double w = g.real(0.05, 20), u = g.real(0.05, 20), d = g.real(0.1, 5); XYZW a(p, w), b(q, u); g.nontrivial(mag(p) > 0 && w != 1); g.note([&](std::ostream& o) { o << p << ";" << w << " " << q << ";" << u << " " << d; }); V3 P(p), Q(q); ld t = 1e-12L * (mag(p) + mag(q) + 1e-3L) * 20; NEAR3(a.ToXYZ(false), P * w, t, "weighted coordinates"); NEAR3(a.ToXYZ(true), P, t, "ToXYZ"); REQUIRE(a.GetW() == w && a.W() == w && a[3] == w, "weight"); REQUIRE(a.GetWX() == a.WX() && a.WX() == a[0] && a.GetWY() == a.WY() && a.WY() == a[1] && a.GetWZ() == a.WZ() && a.WZ() == a[2], "getters");
    const XYZW& ca = a; REQUIRE(ca.WX() == a[0] && ca.WY() == a[1] && ca.WZ() == a[2] && ca.W() == a[3], "accessors of a constant"); const UV cu(p[0], q[1]); const UVW cw(p[0], q[1], d); const XYZ& cp = p; REQUIRE(cu.U() == p[0] && cu.V() == q[1] && cw.U() == p[0] && cw.V() == q[1] && cw.W() == d && cp.X() == p[0] && cp.Y() == p[1] && cp.Z() == p[2], "accessors of a constant"); for (int k = 0; k < 4; k++) REQUIRE(ca[k] == a[k] && (k > 2 || cp[k] == p[k]) && (k > 1 || cu[k] == (k ? q[1] : p[0])), "index of a constant"); XYZW raw(p[0], p[1], p[2], w); NEAR3(raw.ToXYZ(false), P, 0, "homogeneous constructor"); NEAR3(raw.ToXYZ(true), P / w, t * 20, "its point"); auto h = [&](const XYZW& x, const V3& v, ld ww, const char* what) { NEAR3(x.ToXYZ(false), v, t * 10, what); NEAR1(x.GetW(), ww, 1e-11L * 100, what << " weight"); }; h(a + b, P * w + Q * u, (ld)w + u, "+"); h(a - b, P * w - Q * u, (ld)w - u, "-"); h(a * d, P * w * d, (ld)w * d, "* scalar"); h(d * a, P * w * d, (ld)w * d, "scalar *"); h(a / d, P * w / d, (ld)w / d, "/ scalar"); XYZW c = a; c += b; h(c, P * w + Q * u, (ld)w + u, "+="); V3 D = P * w - Q * u; NEAR1(a.Distance(b), sqrtl(D.dot(D) + ((ld)w - u) * ((ld)w - u)), t * 10, "Distance");
    c = a; c.SetW(u); REQUIRE(c.GetW() == u, "SetW"); NEAR3(c.ToXYZ(true), P, t * 10, "SetW moves the point"); REQUIRE(a.IsAlmostEqualTo(c), "same point, other weight"); if ((P - Q).len() > 1e-5L * (1 + mag(p) + mag(q)) * 2) REQUIRE(!a.IsAlmostEqualTo(b), "different points"); XYZW z; REQUIRE(z[0] == 0 && z[1] == 0 && z[2] == 0 && z[3] == 0, "default"); z.WX() = 1; z.WY() = 2; z.WZ() = d; z.W() = w; REQUIRE(z[0] == 1 && z[1] == 2 && z[2] == d && z[3] == w, "references"); XYZW zero(p[0], p[1], p[2], 0.0); NEAR3(zero.ToXYZ(true), P, 0, "direction (weight 0)");
}
