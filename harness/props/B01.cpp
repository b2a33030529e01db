// B01: the C interface (dotnet/CAPI) gives exactly the results of the C++ interface
// EXTRA_SOURCES: dotnet/CAPI/src
// EXTRA_INCLUDES: dotnet/CAPI/include
#include "gen.h"
#include <optional>
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "KnotVectorUtils.h"
#include "Projection.h"
#include "ValidationUtils.h"
#include "Polynomials.h"
#include "Matrix4d.h"
#include "LNEnums.h"
#include "BezierCurve_CAPI.h"
#include "BezierSurface_CAPI.h"
#include "Interpolation_CAPI.h"
#include "Intersection_CAPI.h"
#include "KnotVectorUtils_CAPI.h"
#include "NurbsCurve_CAPI.h"
#include "NurbsSurface_CAPI.h"
#include "Polynomials_CAPI.h"
#include "Projection_CAPI.h"
#include "UV_CAPI.h"
#include "ValidationUtils_CAPI.h"
#include "XYZW_CAPI.h"
#include "XYZ_CAPI.h"
#include "Matrix4d_CAPI.h"
const char* pbt::RULE = "the C call and the C++ call were both made on the same generated input; every case is non-trivial";
// conversions of the harness, independent of those under test
static XYZ_C c3(const XYZ& p) { return {p[0], p[1], p[2]}; }
static UV_C c2(const UV& p) { return {p[0], p[1]}; }
static std::vector<XYZ_C> cs3(const std::vector<XYZ>& v) { std::vector<XYZ_C> r; for (auto& p : v) r.push_back(c3(p)); return r; }
static std::vector<XYZ_C> cs3(const std::vector<std::vector<XYZ>>& v) { std::vector<XYZ_C> r; for (auto& q : v) for (auto& p : q) r.push_back(c3(p)); return r; }
static std::vector<XYZW_C> cs4(const std::vector<XYZW>& v) { std::vector<XYZW_C> r; for (auto& p : v) r.push_back({p[0], p[1], p[2], p[3]}); return r; }
struct CC { std::vector<double> U; std::vector<XYZW_C> P; int p; CC(const LN_NurbsCurve& c) : U(c.KnotVector), P(cs4(c.ControlPoints)), p(c.Degree) {} operator LN_NurbsCurve_C() const { LN_NurbsCurve_C c; c.degree = p; c.knot_vector = U.data(); c.knot_vector_count = (int)U.size(); c.control_points = P.data(); c.control_point_count = (int)P.size(); return c; } };
struct CS { std::vector<double> U, V; std::vector<XYZW_C> P; int p, q, r, c; CS(const LN_NurbsSurface& s) : U(s.KnotVectorU), V(s.KnotVectorV), p(s.DegreeU), q(s.DegreeV), r((int)s.ControlPoints.size()), c((int)s.ControlPoints[0].size()) { for (auto& a : s.ControlPoints) for (auto& b : a) P.push_back({b[0], b[1], b[2], b[3]}); } operator LN_NurbsSurface_C() const { LN_NurbsSurface_C s; s.degree_u = p; s.degree_v = q; s.knot_vector_u = U.data(); s.knot_vector_count_u = (int)U.size(); s.knot_vector_v = V.data(); s.knot_vector_count_v = (int)V.size(); s.control_points = P.data(); s.cp_rows = r; s.cp_cols = c; return s; } };
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool eq(int a, int b) { return a == b; }
static bool eq(XYZ_C a, const XYZ& b) { return eq(a.x, b[0]) && eq(a.y, b[1]) && eq(a.z, b[2]); }
static bool eq(UV_C a, const UV& b) { return eq(a.u, b[0]) && eq(a.v, b[1]); }
static bool eq(const XYZW_C& a, const XYZW& b) { return eq(a.wx, b[0]) && eq(a.wy, b[1]) && eq(a.wz, b[2]) && eq(a.w, b[3]); }
static bool eq(Matrix4d_C a, const Matrix4d& b) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (!eq(a.m[4 * i + j], b.GetElement(i, j))) return false; return true; }
static bool eq(const LN_NurbsCurve_C& a, const LN_NurbsCurve& b) { if (a.degree != b.Degree || a.knot_vector_count != (int)b.KnotVector.size() || a.control_point_count != (int)b.ControlPoints.size()) return false; for (int i = 0; i < a.knot_vector_count; i++) if (!eq(a.knot_vector[i], b.KnotVector[i])) return false; for (int i = 0; i < a.control_point_count; i++) if (!eq(a.control_points[i], b.ControlPoints[i])) return false; return true; }
static bool eq(const LN_NurbsSurface_C& a, const LN_NurbsSurface& b) { int R = (int)b.ControlPoints.size(), C = R ? (int)b.ControlPoints[0].size() : 0; if (a.degree_u != b.DegreeU || a.degree_v != b.DegreeV || a.knot_vector_count_u != (int)b.KnotVectorU.size() || a.knot_vector_count_v != (int)b.KnotVectorV.size() || a.cp_rows != R || a.cp_cols != C) return false; for (int i = 0; i < a.knot_vector_count_u; i++) if (!eq(a.knot_vector_u[i], b.KnotVectorU[i])) return false; for (int i = 0; i < a.knot_vector_count_v; i++) if (!eq(a.knot_vector_v[i], b.KnotVectorV[i])) return false; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (!eq(a.control_points[i * C + j], b.ControlPoints[i][j])) return false; return true; }
template <class A, class B> static bool eqn(const A* a, int n, const std::vector<B>& b) { if (n != (int)b.size()) return false; for (int i = 0; i < n; i++) if (!eq(a[i], b[i])) return false; return true; }
template <class F, class H> static void same2(F cf, H pf, const char* what) {
    std::optional<decltype(cf())> a; std::optional<decltype(pf())> b;
    try { a = cf(); } catch (const std::exception&) {}
    try { b = pf(); } catch (const std::exception&) {}
    REQUIRE(a.has_value() == b.has_value(), what << (a ? " does not refuse, C++ does" : " refuses, C++ does not"));
    if (a) REQUIRE(eq(*a, *b), what << " differs from the C++ result");
}
#define SAME(ccall, cppcall) same2([&] { return ccall; }, [&] { return cppcall; }, #ccall)
#define FLAG(c, cpp) do { int c_ = (c); bool d_ = (cpp); REQUIRE((c_ != 0) == d_, #c " returns " << c_ << ", C++ " << d_); } while (0)
// both interfaces refuse or both work
template <class F> static bool refuses(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
#define CURVEOP(ccall, cppcall) do { LN_NurbsCurve want; LN_NurbsCurve_C out{}; bool rf1_ = refuses([&] { cppcall; }), rf2_ = refuses([&] { ccall; }); REQUIRE(rf1_ == rf2_, #ccall " refuses " << rf2_ << ", C++ " << rf1_); if (!rf1_) REQUIRE(eq(out, want), #ccall " differs from the C++ result"); } while (0)
#define SURFOP(ccall, cppcall) do { LN_NurbsSurface want; LN_NurbsSurface_C out{}; bool rf1_ = refuses([&] { cppcall; }), rf2_ = refuses([&] { ccall; }); REQUIRE(rf1_ == rf2_, #ccall " refuses " << rf2_ << ", C++ " << rf1_); if (!rf1_) REQUIRE(eq(out, want), #ccall " differs from the C++ result"); } while (0)
// operations that report success: the object counts only then
#define CURVEOK(ccall, cppcall) do { LN_NurbsCurve want; LN_NurbsCurve_C out{}; bool ra_ = false; int rb_ = 0; bool rf1_ = refuses([&] { ra_ = cppcall; }), rf2_ = refuses([&] { rb_ = ccall; }); REQUIRE(rf1_ == rf2_, #ccall " refuses"); if (!rf1_) { REQUIRE(ra_ == (rb_ != 0), #ccall " returns " << rb_ << ", C++ " << ra_); if (ra_) REQUIRE(eq(out, want), #ccall " differs from the C++ result"); } } while (0)
#define SURFOK(ccall, cppcall) do { LN_NurbsSurface want; LN_NurbsSurface_C out{}; bool ra_ = false; int rb_ = 0; bool rf1_ = refuses([&] { ra_ = cppcall; }), rf2_ = refuses([&] { rb_ = ccall; }); REQUIRE(rf1_ == rf2_, #ccall " refuses"); if (!rf1_) { REQUIRE(ra_ == (rb_ != 0), #ccall " returns " << rb_ << ", C++ " << ra_); if (ra_) REQUIRE(eq(out, want), #ccall " differs from the C++ result"); } } while (0)
static CurveOpt small() { CurveOpt o; o.maxDegree = 5; o.knots.many = false; o.knots.maxInterior = 4; return o; }

LAW(values, 20000, 600000) {
    XYZ a = genPoint(g, 10), b = genPoint(g, 10); double s = g.coord(3), w = 0.2 + g.unit(), e = std::pow(10.0, -g.integer(1, 9)); UV p(g.coord(5), g.coord(5)), q(g.coord(5), g.coord(5)); g.nontrivial(); if (g.chance(1, 4)) b = a + e * genPoint(g, 2); if (g.chance(1, 4)) q = UV(p[0] + e * g.coord(2), p[1]); if (g.chance(1, 6)) { a = a.Normalize(); p = p.Normalize(); } if (g.chance(1, 8)) { a = e * a; p = e * p; }
    XYZ_C A = c3(a), B = c3(b); UV_C P = c2(p), Q = c2(q);
    SAME(LNLIB_XYZ_create(a[0], a[1], a[2]), a); SAME(LNLIB_XYZ_get_x(A), a[0]); SAME(LNLIB_XYZ_get_y(A), a[1]); SAME(LNLIB_XYZ_get_z(A), a[2]); SAME(LNLIB_XYZ_set_x(A, s), XYZ(s, a[1], a[2])); SAME(LNLIB_XYZ_set_y(A, s), XYZ(a[0], s, a[2])); SAME(LNLIB_XYZ_set_z(A, s), XYZ(a[0], a[1], s));
    FLAG(LNLIB_XYZ_is_zero(A, e), a.IsZero(e)); FLAG(LNLIB_XYZ_is_unit(A, e), a.IsUnit(e)); FLAG(LNLIB_XYZ_is_almost_equal(A, B, e), MathUtils::IsAlmostEqualTo(a.GetX(), b.GetX(), e) && MathUtils::IsAlmostEqualTo(a.GetY(), b.GetY(), e) && MathUtils::IsAlmostEqualTo(a.GetZ(), b.GetZ(), e)); SAME(LNLIB_XYZ_length(A), a.Length()); SAME(LNLIB_XYZ_sqr_length(A), a.SqrLength()); SAME(LNLIB_XYZ_angle_to(A, B, e), a.AngleTo(b)); SAME(LNLIB_XYZ_normalize(A), XYZ(a).Normalize()); SAME(LNLIB_XYZ_add(A, B), a + b); SAME(LNLIB_XYZ_subtract(A, B), a - b); SAME(LNLIB_XYZ_negative(A), -a); SAME(LNLIB_XYZ_dot_product(A, B), a.DotProduct(b)); SAME(LNLIB_XYZ_cross_product(A, B), a.CrossProduct(b)); SAME(LNLIB_XYZ_distance(A, B), a.Distance(b)); SAME(LNLIB_XYZ_multiply(A, s), a * s); if (s != 0) SAME(LNLIB_XYZ_divide(A, s), a / s);
    SAME(LNLIB_UV_create(p[0], p[1]), p); SAME(LNLIB_UV_get_u(P), p[0]); SAME(LNLIB_UV_get_v(P), p[1]); SAME(LNLIB_UV_set_u(P, s), UV(s, p[1])); SAME(LNLIB_UV_set_v(P, s), UV(p[0], s)); SAME(LNLIB_UV_add(P, Q), p + q); SAME(LNLIB_UV_subtract(P, Q), p - q); SAME(LNLIB_UV_negative(P), -p); SAME(LNLIB_UV_normalize(P), UV(p).Normalize()); SAME(LNLIB_UV_scale(P, s), p * s); if (s != 0) SAME(LNLIB_UV_divide(P, s), p / s); SAME(LNLIB_UV_length(P), p.Length()); SAME(LNLIB_UV_sqr_length(P), p.SqrLength()); SAME(LNLIB_UV_distance(P, Q), p.Distance(q)); FLAG(LNLIB_UV_is_zero(P, e), p.IsZero(e)); FLAG(LNLIB_UV_is_unit(P, e), p.IsUnit(e)); FLAG(LNLIB_UV_is_almost_equal(P, Q, e), MathUtils::IsAlmostEqualTo(p.GetU(), q.GetU(), e) && MathUtils::IsAlmostEqualTo(p.GetV(), q.GetV(), e)); SAME(LNLIB_UV_dot_product(P, Q), p.DotProduct(q)); SAME(LNLIB_UV_cross_product(P, Q), p.CrossProduct(q));
    XYZW x(a, w), y(b, 0.5 + w); XYZW_C X{x[0], x[1], x[2], x[3]}, Y{y[0], y[1], y[2], y[3]}; SAME(LNLIB_XYZW_create(x[0], x[1], x[2], x[3]), x); SAME(LNLIB_XYZW_create_from_xyz(A, w), x); SAME(LNLIB_XYZW_to_xyz(X, 1), x.ToXYZ(true)); SAME(LNLIB_XYZW_to_xyz(X, 0), x.ToXYZ(false)); FLAG(LNLIB_XYZW_is_almost_equal(X, Y, e), MathUtils::IsAlmostEqualTo(x.GetWX(), y.GetWX(), e) && MathUtils::IsAlmostEqualTo(x.GetWY(), y.GetWY(), e) && MathUtils::IsAlmostEqualTo(x.GetWZ(), y.GetWZ(), e) && MathUtils::IsAlmostEqualTo(x.GetW(), y.GetW(), e)); SAME(LNLIB_XYZW_add(X, Y), x + y); SAME(LNLIB_XYZW_subtract(X, Y), x - y); SAME(LNLIB_XYZW_multiply(X, s), x * s); if (s != 0) SAME(LNLIB_XYZW_divide(X, s), x / s); SAME(LNLIB_XYZW_distance(X, Y), x.Distance(y)); SAME(LNLIB_XYZW_get_wx(X), x[0]); SAME(LNLIB_XYZW_get_wy(X), x[1]); SAME(LNLIB_XYZW_get_wz(X), x[2]); SAME(LNLIB_XYZW_get_w(X), x[3]);
    XYZW_C set = LNLIB_XYZW_set_w(X, 0.5 + w); XYZ loc = x.ToXYZ(true); NEAR3(V3(XYZ(set.wx, set.wy, set.wz)), V3(loc) * (0.5L + w), 1e-12L * (1 + a.Length()), "set_w keeps the point"); SAME(set.w, 0.5 + w);
    if (a.Length() > 1e-3) { auto o = LNLIB_XYZ_create_random_orthogonal(A); V3 v(XYZ(o.x, o.y, o.z)); NEAR1(v.len(), 1, 1e-9L, "unit"); NEAR1(v.dot(V3(a)) / a.Length(), 0, 1e-9L, "orthogonal"); }
}
LAW(matrices, 10000, 300000) {
    auto M = [&] { Matrix4d m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.SetElement(i, j, g.coord(3)); return m; }; auto cm = [](const Matrix4d& m) { Matrix4d_C c; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c.m[4 * i + j] = m.GetElement(i, j); return c; }; Matrix4d m = M(), n = M(); int kind = g.integer(0, 3); if (kind == 1) m = Matrix4d(); if (kind == 2) m = Matrix4d::CreateTranslation(genPoint(g, 5)); if (kind == 3) for (int j = 0; j < 4; j++) { m.SetElement(1, j, 2 * m.GetElement(0, j)); }
    XYZ a = genPoint(g, 5), b = genPoint(g, 5), c = genPoint(g, 5), d = genPoint(g, 5); if (a.Length() < 0.1) a = XYZ(0, 0, 1); double r = g.coord(4); g.nontrivial();
    SAME(LNLIB_MATRIX_create(), Matrix4d()); SAME(LNLIB_MATRIX_create_from_xyz(c3(a), c3(b), c3(c), c3(d)), Matrix4d(a, b, c, d)); SAME(LNLIB_MATRIX_create_translation(c3(a)), Matrix4d::CreateTranslation(a)); SAME(LNLIB_MATRIX_create_rotation(c3(a), r), Matrix4d::CreateRotation(a, r)); SAME(LNLIB_MATRIX_create_rotation_at_point(c3(b), c3(a), r), Matrix4d::CreateRotationAtPoint(b, a, r)); SAME(LNLIB_MATRIX_create_scale(c3(a)), Matrix4d::CreateScale(a)); SAME(LNLIB_MATRIX_create_reflection(c3(a)), Matrix4d::CreateReflection(a)); SAME(LNLIB_MATRIX_create_reflection_by_distance(c3(a), r), Matrix4d::CreateReflection(a, r));
    Matrix4d_C C = cm(m), N = cm(n); SAME(LNLIB_MATRIX_get_basis_x(C), m.GetBasisX()); SAME(LNLIB_MATRIX_get_basis_y(C), m.GetBasisY()); SAME(LNLIB_MATRIX_get_basis_z(C), m.GetBasisZ()); SAME(LNLIB_MATRIX_get_basis_w(C), m.GetBasisW()); { Matrix4d k = m; k.SetBasisX(a); SAME(LNLIB_MATRIX_set_basis_x(C, c3(a)), k); k = m; k.SetBasisY(a); SAME(LNLIB_MATRIX_set_basis_y(C, c3(a)), k); k = m; k.SetBasisZ(a); SAME(LNLIB_MATRIX_set_basis_z(C, c3(a)), k); k = m; k.SetBasisW(a); SAME(LNLIB_MATRIX_set_basis_w(C, c3(a)), k); }
    SAME(LNLIB_MATRIX_of_point(C, c3(b)), m.OfPoint(b)); SAME(LNLIB_MATRIX_of_vector(C, c3(b)), m.OfVector(b)); SAME(LNLIB_MATRIX_multiply(C, N), m.Multiply(n)); SAME(LNLIB_MATRIX_get_transpose(C), m.GetTranspose()); SAME(LNLIB_MATRIX_get_scale(C), m.GetScale()); SAME(LNLIB_MATRIX_get_determinant(C), m.GetDeterminant()); FLAG(LNLIB_MATRIX_is_identity(C), m.IsIdentity()); FLAG(LNLIB_MATRIX_has_reflection(C), m.HasReflection()); FLAG(LNLIB_MATRIX_is_translation(C), m.IsTranslation()); { Matrix4d k; Matrix4d_C K; bool ok = m.GetInverse(k); int o = LNLIB_MATRIX_get_inverse(C, &K); REQUIRE(ok == (o != 0), "inverse exists"); if (ok) SAME(K, k); }
}
LAW(polynomials_and_knots, 15000, 400000) {
    int p = genDegree(g); KnotOpt ko; ko.maxInterior = 5; Knots k = genKnots(g, p, ko); const auto& U = k.U; int n = (int)U.size(); double t = genParam(g, k); g.nontrivial(); g.note([&](std::ostream& o) { o << p << " " << U << " at " << t; });
    int sp = Polynomials::GetKnotSpanIndex(p, U, t); SAME(LNLIB_POLY_get_knot_span_index(p, U.data(), n, t), sp); SAME(LNLIB_POLY_get_knot_multiplicity(U.data(), n, t), Polynomials::GetKnotMultiplicity(U, t)); double N1[Constants::NURBSMaxDegree + 1] = {}, N2[Constants::NURBSMaxDegree + 1] = {}; Polynomials::BasisFunctions(sp, p, U, t, N1); LNLIB_POLY_basis_functions(sp, p, U.data(), n, t, N2); for (int i = 0; i <= p; i++) SAME(N2[i], N1[i]);
    auto flat = [&](double* d, int r, int c, const std::vector<std::vector<double>>& w, const char* what) { REQUIRE(d && r == (int)w.size() && c == (int)w[0].size(), what << ": size"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) REQUIRE(eq(d[i * c + j], w[i][j]), what << " differs"); delete[] d; };
    { int der = g.integer(0, p); double* d = nullptr; int r = 0, c = 0; LNLIB_POLY_basis_functions_derivatives(sp, p, der, U.data(), n, t, &d, &r, &c); flat(d, r, c, Polynomials::BasisFunctionsDerivatives(sp, p, der, U, t), "basis derivatives"); int at = g.integer(0, n - p - 2); double* e = nullptr; int sz = 0; LNLIB_POLY_one_basis_function_derivative(at, p, der, U.data(), n, t, &e, &sz); auto w = Polynomials::OneBasisFunctionDerivative(at, p, der, U, t); REQUIRE(e && eqn(e, sz, w), "one basis derivative differs"); delete[] e; SAME(LNLIB_POLY_one_basis_function(at, p, U.data(), n, t), Polynomials::OneBasisFunction(at, p, U, t)); double *f = nullptr; LNLIB_POLY_all_basis_functions(sp, p, U.data(), n, t, &f, &r, &c); flat(f, r, c, Polynomials::AllBasisFunctions(sp, p, U, t), "all basis functions"); }
    { double D[2][Constants::NURBSMaxDegree + 1] = {}; double O[2 * (Constants::NURBSMaxDegree + 1)]; Polynomials::BasisFunctionsFirstOrderDerivative(sp, p, U, t, D); LNLIB_POLY_basis_functions_first_derivative(sp, p, U.data(), n, t, O); for (int i = 0; i < 2; i++) for (int j = 0; j <= p; j++) SAME(O[i * (Constants::NURBSMaxDegree + 1) + j], D[i][j]); }
    double x = g.unit(); int i = g.integer(0, p); SAME(LNLIB_POLY_bernstein(i, p, x), Polynomials::Bernstein(i, p, x)); std::vector<double> ab(p + 1); LNLIB_POLY_all_bernstein(p, x, ab.data()); REQUIRE(eqn(ab.data(), p + 1, Polynomials::AllBernstein(p, x)), "Bernstein values differ"); std::vector<double> co; for (int j = 0; j <= p; j++) co.push_back(g.coord(3)); SAME(LNLIB_POLY_horner(p, co.data(), p + 1, x), Polynomials::Horner(p, co, x));
    { int q = g.integer(1, 4); std::vector<std::vector<double>> c(p + 1, std::vector<double>(q + 1)); std::vector<double> f; for (auto& r : c) for (auto& v : r) { v = g.coord(3); f.push_back(v); } UV uv(g.unit(), g.unit()); UV_C cuv = c2(uv); double o = 0; LNLIB_POLY_horner_uv(p, q, f.data(), &cuv, &o); SAME(o, Polynomials::Horner(p, q, c, uv)); }
    { double* d = nullptr; int r = 0, c = 0; LNLIB_POLY_bezier_to_power_matrix(p, &d, &r, &c); auto w = Polynomials::BezierToPowerMatrix(p); std::vector<double> in(d, d + r * c); flat(d, r, c, w, "Bezier to power"); double* e = nullptr; LNLIB_POLY_power_to_bezier_matrix(p, in.data(), &e, &r, &c); flat(e, r, c, Polynomials::PowerToBezierMatrix(p, w), "power to Bezier"); }
    SAME(LNLIB_KV_get_continuity(p, U.data(), n, t), KnotVectorUtils::GetContinuity(p, U, t)); double lo = g.coord(4), hi = lo + g.real(0.5, 3); std::vector<double> rs(n); LNLIB_KV_rescale(U.data(), n, lo, hi, rs.data()); REQUIRE(eqn(rs.data(), n, KnotVectorUtils::Rescale(U, lo, hi)), "rescaled knots differ"); FLAG(LNLIB_KV_is_uniform(U.data(), n), KnotVectorUtils::IsUniform(U));
    for (int in = 0; in < 2; in++) { std::vector<double> ks(n); std::vector<int> vs(n); int sz = 0; if (in) LNLIB_KV_get_internal_knot_multiplicity_map(U.data(), n, &sz, ks.data(), vs.data()); else LNLIB_KV_get_knot_multiplicity_map(U.data(), n, &sz, ks.data(), vs.data()); auto m = in ? KnotVectorUtils::GetInternalKnotMultiplicityMap(U) : KnotVectorUtils::GetKnotMultiplicityMap(U); REQUIRE(sz == (int)m.size(), "map size"); int j = 0; for (auto& e : m) { REQUIRE(eq(ks[j], e.first) && vs[j] == e.second, "multiplicity map differs"); j++; } }
    auto bad = U; if (g.chance(1, 2) && n > 3) std::swap(bad[g.integer(0, n - 1)], bad[g.integer(0, n - 1)]); FLAG(LNLIB_VALID_is_valid_knotVector(bad.data(), n), ValidationUtils::IsValidKnotVector(bad)); int d1 = g.integer(0, 6), k1 = g.integer(0, 14), c1 = g.integer(0, 9); FLAG(LNLIB_VALID_is_valid_bezier(d1, c1), ValidationUtils::IsValidBezier(d1, c1)); FLAG(LNLIB_VALID_is_valid_bspline(d1, k1, c1), ValidationUtils::IsValidBspline(d1, k1, c1)); FLAG(LNLIB_VALID_is_valid_nurbs(d1, k1, c1), ValidationUtils::IsValidNurbs(d1, k1, c1));
}
LAW(points_lines_interpolation, 15000, 400000) {
    XYZ a = genPoint(g, 10), b = genPoint(g, 10), c = genPoint(g, 10), d = genPoint(g, 10); g.nontrivial(); if (b.Length() < 0.1) b = XYZ(1, 2, 0); if (d.Length() < 0.1) d = XYZ(0, 1, 2); if (g.chance(1, 4)) d = b * g.real(0.5, 2); if (g.chance(1, 4)) c = a + b * g.coord(2); if (g.chance(1, 4)) c = a + b * g.coord(2) + d * g.coord(2);
    { double s = 0, t = 0, s2 = 0, t2 = 0; XYZ i; XYZ_C I{}; auto ty = Intersection::ComputeRays(a, b, c, d, s, t, i); auto ct = LNLIB_INTERSECT_compute_rays(c3(a), c3(b), c3(c), c3(d), &s2, &t2, &I); REQUIRE((int)ty == (int)ct, "kind of intersection"); if (ty == CurveCurveIntersectionType::Intersecting) { SAME(s2, s); SAME(t2, t); SAME(I, i); } }
    { XYZ i; XYZ_C I{}; auto ty = Intersection::ComputeLineAndPlane(b, a, c, d, i); auto ct = LNLIB_INTERSECT_compute_line_and_plane(c3(b), c3(a), c3(c), c3(d), &I); REQUIRE((int)ty == (int)ct, "kind of line and plane"); if (ty == LinePlaneIntersectionType::Intersecting) SAME(I, i); }
    SAME(LNLIB_PROJ_point_to_ray(c3(a), c3(b), c3(c)), Projection::PointToRay(a, b, c)); { XYZ q; XYZ_C Q{}; bool ok = Projection::PointToLine(a, a + b, c, q); int o = LNLIB_PROJ_point_to_line(c3(a), c3(a + b), c3(c), &Q); REQUIRE(ok == (o != 0), "projection on line"); if (ok) SAME(Q, q); } { double r = g.real(0.5, 4); XYZ s = XYZ(b).Normalize() * r; SAME(LNLIB_PROJ_stereographic(c3(s), r), Projection::Stereographic(s, r)); }
    int n = g.integer(5, 9); std::vector<XYZ> P; for (int i = 0; i < n; i++) P.push_back(XYZ(i + 0.5 * g.unit(), g.coord(3), g.coord(3))); auto C = cs3(P); std::vector<double> out(64); int sz = 0;
    SAME(LNLIB_INTERPOLATION_get_total_chord_length(C.data(), n), Interpolation::GetTotalChordLength(P)); SAME(LNLIB_INTERPOLATION_get_centripetal_length(C.data(), n), Interpolation::GetCentripetalLength(P)); LNLIB_INTERPOLATION_get_chord_parameterization(C.data(), n, out.data(), &sz); auto ps = Interpolation::GetChordParameterization(P); REQUIRE(eqn(out.data(), sz, ps), "chord parameters differ"); LNLIB_INTERPOLATION_get_centripetal_parameterization(C.data(), n, out.data(), &sz); REQUIRE(eqn(out.data(), sz, Interpolation::GetCentripetalParameterization(P)), "centripetal parameters differ");
    int p = g.integer(1, 4); LNLIB_INTERPOLATION_average_knot_vector(p, ps.data(), n, out.data(), &sz); REQUIRE(eqn(out.data(), sz, Interpolation::AverageKnotVector(p, ps)), "averaged knots differ"); int cp = g.integer(p + 1, n - 1 < p + 1 ? p + 1 : n - 1); LNLIB_INTERPOLATION_compute_knot_vector(p, cp, ps.data(), n, out.data(), &sz); REQUIRE(eqn(out.data(), sz, Interpolation::ComputeKnotVector(p, cp, ps)), "computed knots differ");
    std::vector<XYZ_C> T(64); LNLIB_INTERPOLATION_compute_tangent_by_three_points(C.data(), n, T.data(), &sz); REQUIRE(eqn(T.data(), sz, Interpolation::ComputeTangent(P)), "three-point tangents differ"); { std::vector<XYZ> w; bool ok = Interpolation::ComputeTangent(P, w); int o = LNLIB_INTERPOLATION_compute_tangent_by_five_points(C.data(), n, T.data(), &sz); REQUIRE(ok == (o != 0) && eqn(T.data(), sz, w), "five-point tangents differ"); } if (a.Distance(c) > 0.1 && a.Distance(d) > 0.1 && c.Distance(d) > 0.1) { double w = 0, w2 = 0; bool ok = Interpolation::ComputerWeightForRationalQuadraticInterpolation(a, c, d, w); int o = LNLIB_INTERPOLATION_computer_weight_for_rational_quadratic_interpolation(c3(a), c3(c), c3(d), &w2); REQUIRE(ok == (o != 0), "conic weight"); if (ok) SAME(w2, w); }
    int r = g.integer(2, 5), cc = g.integer(2, 5); std::vector<std::vector<XYZ>> G(r, std::vector<XYZ>(cc)); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) G[i][j] = XYZ(i + 0.3 * g.unit(), j + 0.3 * g.unit(), g.coord(2)); std::vector<double> u, v, ou(16), ov(16); int nu = 0, nv = 0; bool ok = Interpolation::GetSurfaceMeshParameterization(G, u, v); auto F = cs3(G); int o = LNLIB_INTERPOLATION_get_surface_mesh_parameterization(F.data(), r, cc, ou.data(), &nu, ov.data(), &nv); REQUIRE(ok == (o != 0) && eqn(ou.data(), nu, u) && eqn(ov.data(), nv, v), "mesh parameters differ");
    int bd = g.integer(1, 5); LN_BezierCurve<XYZ> bc; LN_BezierCurve<XYZW> bw; bc.Degree = bw.Degree = bd; for (int i = 0; i <= bd; i++) { bc.ControlPoints.push_back(genPoint(g, 5)); bw.ControlPoints.push_back(XYZW(bc.ControlPoints.back(), 0.3 + g.unit())); } auto B3 = cs3(bc.ControlPoints); auto B4 = cs4(bw.ControlPoints); double t = g.unit(); SAME(LNLIB_BEZIERCUR_get_point_on_curve_by_bernstein(bd, B3.data(), bd + 1, t), BezierCurve::GetPointOnCurveByBernstein(bc, t)); SAME(LNLIB_BEZIERCUR_get_point_on_curve_by_deCasteljau(bd, B3.data(), bd + 1, t), BezierCurve::GetPointOnCurveByDeCasteljau(bc, t)); SAME(LNLIB_BEZIERCUR_get_rational_point_on_curve_by_bernstein(bd, B4.data(), bd + 1, t), BezierCurve::GetPointOnCurveByBernstein(bw, t)); SAME(LNLIB_BEZIERCUR_get_rational_point_on_curve_by_deCasteljau(bd, B4.data(), bd + 1, t), BezierCurve::GetPointOnCurveByDeCasteljau(bw, t));
    LN_BezierSurface<XYZ> bs; LN_BezierSurface<XYZW> bsw; bs.DegreeU = bsw.DegreeU = r - 1; bs.DegreeV = bsw.DegreeV = cc - 1; bs.ControlPoints = G; bsw.ControlPoints.resize(r); std::vector<XYZW> fl; for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) { bsw.ControlPoints[i].push_back(XYZW(G[i][j], 0.3 + g.unit())); fl.push_back(bsw.ControlPoints[i].back()); } UV uv(g.unit(), g.unit()); auto F4 = cs4(fl); SAME(LNLIB_BEZIERSURF_get_point_on_surface_by_deCasteljau(r - 1, cc - 1, F.data(), r, cc, c2(uv)), BezierSurface::GetPointOnSurfaceByDeCasteljau(bs, uv)); SAME(LNLIB_BEZIERSURF_get_rational_point_on_surface_by_deCasteljau(r - 1, cc - 1, F4.data(), r, cc, c2(uv)), BezierSurface::GetPointOnSurfaceByDeCasteljau(bsw, uv));
    auto cps = cs4(fl); SAME(LNLIB_VALID_compute_curve_modify_tolerance(cps.data(), (int)cps.size()), ValidationUtils::ComputeCurveModifyTolerance(fl));
}
LAW(curve_queries, 2000, 100000) {
    auto c = genRegular(g, small(), 0.7); CC C(c.c); double t = genParam(g, c.k); g.nontrivial(); g.note([&](std::ostream& o) { o << c.c << " at " << t; }); XYZ q = genPoint(g, 10);
    SAME(LNLIB_NURBSCUR_get_point_on_curve(C, t), NurbsCurve::GetPointOnCurve(c.c, t)); SAME(LNLIB_NURBSCUR_get_point_on_curve_by_corner_cut(C, t), NurbsCurve::GetPointOnCurveByCornerCut(c.c, t)); { int k = g.integer(1, c.c.Degree); std::vector<XYZ_C> o(16); int n = LNLIB_NURBSCUR_compute_rational_curve_derivatives(C, k, t, o.data()); REQUIRE(eqn(o.data(), n, NurbsCurve::ComputeRationalCurveDerivatives(c.c, k, t)), "derivatives differ"); } FLAG(LNLIB_NURBSCUR_can_compute_derivative(C, t), NurbsCurve::CanComputeDerivative(c.c, t));
    SAME(LNLIB_NURBSCUR_curvature(C, t), NurbsCurve::Curvature(c.c, t)); SAME(LNLIB_NURBSCUR_torsion(C, t), NurbsCurve::Torsion(c.c, t)); SAME(LNLIB_NURBSCUR_normal(C, CURVE_NORMAL_NORMAL, t), NurbsCurve::Normal(c.c, CurveNormal::Normal, t)); SAME(LNLIB_NURBSCUR_normal(C, CURVE_NORMAL_BINORMAL, t), NurbsCurve::Normal(c.c, CurveNormal::Binormal, t)); { std::vector<XYZ_C> o(c.c.KnotVector.size()); REQUIRE(LNLIB_NURBSCUR_project_normal(C, o.data()) == (int)o.size(), "one normal per knot"); }
    FLAG(LNLIB_NURBSCUR_is_closed(C), NurbsCurve::IsClosed(c.c)); FLAG(LNLIB_NURBSCUR_is_linear(C), NurbsCurve::IsLinear(c.c)); FLAG(LNLIB_NURBSCUR_is_clamp(C), NurbsCurve::IsClamp(c.c)); FLAG(LNLIB_NURBSCUR_is_periodic(C), NurbsCurve::IsPeriodic(c.c)); if (g.chance(1, 3)) { LN_NurbsCurve arc; NurbsCurve::CreateArc(q, XYZ(1, 0, 0), XYZ(0, 1, 0), 0, g.real(0.5, 6), 3, 3, arc); LN_ArcInfo i; LNLIB_ArcInfo_C ci{}; bool ok = NurbsCurve::IsArc(arc, i); int o = LNLIB_NURBSCUR_is_arc(CC(arc), &ci); REQUIRE(ok == (o != 0), "is arc"); if (ok) { SAME(ci.radius, i.Radius); SAME(ci.center, i.Center); } }
    int idx = g.integer(c.c.Degree + 1, (int)c.c.KnotVector.size() - c.c.Degree - 2 < c.c.Degree + 1 ? c.c.Degree + 1 : (int)c.c.KnotVector.size() - c.c.Degree - 2); if (c.c.KnotVector.size() > 2 * (size_t)c.c.Degree + 2) { while (idx + 1 < (int)c.c.KnotVector.size() && c.c.KnotVector[idx + 1] == c.c.KnotVector[idx]) idx++; SAME(LNLIB_NURBSCUR_computer_remove_knot_error_bound(C, idx), NurbsCurve::ComputerRemoveKnotErrorBound(c.c, idx)); }
    { std::vector<XYZ> P; std::vector<double> K; NurbsCurve::EquallyTessellate(c.c, P, K); int cap = g.integer(0, (int)P.size() + 3); std::vector<XYZ_C> o(cap + 1, XYZ_C{7, 7, 7}); std::vector<double> ok(cap + 1, 7.5); LNLIB_NURBSCUR_equally_tessellate(C, cap, o.data(), ok.data()); for (int i = 0; i < std::min(cap, (int)P.size()); i++) { SAME(o[i], P[i]); SAME(ok[i], K[i]); } REQUIRE(o[cap].x == 7 && ok[cap] == 7.5, "writes past the given capacity"); }
    if (g.chance(1, 12)) { SAME(LNLIB_NURBSCUR_get_param_on_curve(C, c3(q)), NurbsCurve::GetParamOnCurve(c.c, q)); if (c.c.Degree > 1) { static const IntegratorType T[] = {IntegratorType::Simpson, IntegratorType::GaussLegendre, IntegratorType::Chebyshev}; int k = g.integer(0, 2); auto ct = k == 0 ? INTEGRATOR_SIMPSON : k == 1 ? INTEGRATOR_GAUSS_LEGENDRE : INTEGRATOR_CHEBYSHEV; double L = NurbsCurve::ApproximateLength(c.c, T[k]); SAME(LNLIB_NURBSCUR_approximate_length(C, ct), L); if (k == 0) return; double part = L * (0.1 + 0.8 * g.unit()); SAME(LNLIB_NURBSCUR_get_param_by_length(C, part, ct), NurbsCurve::GetParamOnCurve(c.c, part, T[k])); auto ps = NurbsCurve::GetParamsOnCurve(c.c, L / 3.5, T[k]); std::vector<double> o(ps.size() + 2); int n = LNLIB_NURBSCUR_get_params_by_equal_length(C, L / 3.5, ct, o.data()); REQUIRE(eqn(o.data(), n, ps), "parameters at equal lengths differ"); auto tp = NurbsCurve::Tessellate(c.c); std::vector<XYZ_C> to(tp.size() + 1); n = LNLIB_NURBSCUR_tessellate(C, to.data()); REQUIRE(eqn(to.data(), n, tp), "tessellation differs"); g.tag("lengths"); } }
}
LAW(curve_operations, 6000, 200000) {
    auto c = genCurve(g, small()); CC C(c.c); double lo = c.k.lo(), hi = c.k.hi(), t = genParam(g, c.k, false); int times = g.integer(1, 3); g.nontrivial(); g.note([&](std::ostream& o) { o << c.c << " at " << t << " times " << times; }); double a = lo + (hi - lo) * 0.4 * g.unit(), b = hi - (hi - lo) * 0.4 * g.unit(); XYZ q = genPoint(g, 5), d = genPoint(g, 5);
    { LN_NurbsCurve ins; LN_NurbsCurve_C co{}; int n = NurbsCurve::InsertKnot(c.c, t, times, ins), m = LNLIB_NURBSCUR_insert_knot(C, t, times, &co); REQUIRE(n == m, "insertions " << m << " instead of " << n); REQUIRE(eq(co, ins), "curve with inserted knots differs"); CC I(ins); CURVEOK(LNLIB_NURBSCUR_remove_knot(I, t, 1, &out), NurbsCurve::RemoveKnot(ins, t, 1, want)); }
    { LN_NurbsCurve ref; NurbsCurve::InsertKnot(c.c, t, 1, ref); CC I(ref); CURVEOP(LNLIB_NURBSCUR_remove_excessive_knots(I, &out), NurbsCurve::RemoveExcessiveKnots(ref, want)); }
    std::vector<double> X; for (int i = 0, n = g.integer(1, 3); i < n; i++) X.push_back(lo + (hi - lo) * (0.02 + 0.96 * g.unit())); std::sort(X.begin(), X.end()); CURVEOP(LNLIB_NURBSCUR_refine_knot_vector(C, X.data(), (int)X.size(), &out), NurbsCurve::RefineKnotVector(c.c, X, want)); CURVEOP(LNLIB_NURBSCUR_elevate_degree(C, times, &out), NurbsCurve::ElevateDegree(c.c, times, want)); CURVEOK(LNLIB_NURBSCUR_reduce_degree(C, &out), NurbsCurve::ReduceDegree(c.c, want)); { LN_NurbsCurve e; NurbsCurve::ElevateDegree(c.c, 1, e); CC E(e); CURVEOK(LNLIB_NURBSCUR_reduce_degree(E, &out), NurbsCurve::ReduceDegree(e, want)); }
    CURVEOP(LNLIB_NURBSCUR_reverse(C, &out), NurbsCurve::Reverse(c.c, want)); CURVEOP(LNLIB_NURBSCUR_reparametrize(C, a - 1, b + 2, &out), NurbsCurve::Reparametrize(c.c, a - 1, b + 2, want)); double al = g.real(0.5, 2), ga = 0.05 * g.unit(), de = 1 + g.unit(); CURVEOP(LNLIB_NURBSCUR_reparametrize_linear_rational(C, al, 0.25, ga, de, &out), NurbsCurve::Reparametrize(c.c, al, 0.25, ga, de, want)); Matrix4d m = Matrix4d::CreateRotation(XYZ(1, 2, 3), g.coord(3)); m = Matrix4d::CreateTranslation(q).Multiply(m); Matrix4d_C M; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) M.m[4 * i + j] = m.GetElement(i, j); CURVEOP(LNLIB_NURBSCUR_create_transformed(C, M, &out), NurbsCurve::CreateTransformed(c.c, m, want)); CURVEOP(LNLIB_NURBSCUR_extract(C, a, b, &out), NurbsCurve::Extract(c.c, a, b, want)); CURVEOP(LNLIB_NURBSCUR_to_unclamp_curve(C, &out), NurbsCurve::ToUnclampCurve(c.c, want)); { LN_NurbsCurve u; NurbsCurve::ToUnclampCurve(c.c, u); CC Un(u); CURVEOP(LNLIB_NURBSCUR_to_clamp_curve(Un, &out), NurbsCurve::ToClampCurve(u, want)); FLAG(LNLIB_NURBSCUR_is_clamp(Un), NurbsCurve::IsClamp(u)); }
    { LN_NurbsCurve l, r; LN_NurbsCurve_C L{}, R{}; bool ok = NurbsCurve::SplitAt(c.c, t, l, r); int o = LNLIB_NURBSCUR_split_at(C, t, &L, &R); REQUIRE(ok == (o != 0), "split"); if (ok) { REQUIRE(eq(L, l), "left part of the split differs"); REQUIRE(eq(R, r), "right part of the split differs"); CC Lc(l), Rc(r); CURVEOK(LNLIB_NURBSCUR_merge(Lc, Rc, &out), NurbsCurve::Merge(l, r, want)); } }
    { auto w = NurbsCurve::DecomposeToBeziers(c.c); int cap = g.chance(1, 4) ? g.integer(0, (int)w.size()) : (int)w.size() + 2; std::vector<LN_NurbsCurve_C> o(w.size() + 3); int n = LNLIB_NURBSCUR_decompose_to_beziers(C, o.data(), cap); REQUIRE(n == std::min(cap, (int)w.size()), "number of Bezier pieces"); for (int i = 0; i < n; i++) REQUIRE(eq(o[i], w[i]), "Bezier piece " << i << " of " << n << " differs"); }
    int mi = g.integer(0, (int)c.c.ControlPoints.size() - 1); double dist = g.real(0.1, 1); if (d.Length() < 0.2) d = XYZ(0, 0, 1); CURVEOK(LNLIB_NURBSCUR_control_point_reposition(C, t, mi, c3(d), dist, &out), NurbsCurve::ControlPointReposition(c.c, t, mi, d, dist, want)); CURVEOP(LNLIB_NURBSCUR_weight_modification(C, t, mi, dist, &out), NurbsCurve::WeightModification(c.c, t, mi, dist, want)); if (mi + 1 < (int)c.c.ControlPoints.size()) CURVEOK(LNLIB_NURBSCUR_neighbor_weights_modification(C, t, mi, dist, 1.5, &out), NurbsCurve::NeighborWeightsModification(c.c, t, mi, dist, 1.5, want));
    std::vector<double> sh; for (int i = 0, n = g.integer(3, 8); i < n; i++) sh.push_back(g.unit()); CURVEOP(LNLIB_NURBSCUR_warping(C, sh.data(), (int)sh.size(), dist, c3(d), a, b, &out), NurbsCurve::Warping(c.c, sh, dist, d, a, b, want)); CURVEOK(LNLIB_NURBSCUR_flattening(C, c3(q), c3(q + 20 * d), a, b, &out), NurbsCurve::Flattening(c.c, q, q + 20 * d, a, b, want)); CURVEOP(LNLIB_NURBSCUR_bending(C, a, b, c3(q), 3, 0.5, &out), NurbsCurve::Bending(c.c, a, b, q, 3, 0.5, want)); if (c.c.ControlPoints.size() >= 4) { std::vector<double> cp{a, b}; std::vector<XYZ> dc{q * 0.1, d * 0.1}; std::vector<int> ai{0, 1}, ad{0, 0}, fx{0}; auto D = cs3(dc); CURVEOP(LNLIB_NURBSCUR_constraint_based_modification(C, cp.data(), D.data(), ai.data(), ad.data(), fx.data(), 2, 1, &out), NurbsCurve::ConstraintBasedModification(c.c, cp, dc, ai, ad, fx, want)); }
}
LAW(curve_construction, 4000, 120000) {
    XYZ a = genPoint(g, 5), b = genPoint(g, 5), q = genPoint(g, 5), ta = genPoint(g, 2), tb = genPoint(g, 2); g.nontrivial(); double r1 = g.real(0.5, 4), r2 = g.real(0.5, 4), s = g.coord(3), e = s + g.real(0.2, 6); CURVEOP(out = LNLIB_NURBSCUR_create_line(c3(a), c3(b)), NurbsCurve::CreateLine(a, b, want)); CURVEOK(LNLIB_NURBSCUR_create_arc(c3(q), XYZ_C{1, 0, 0}, XYZ_C{0, 0, 1}, s, e, r1, r2, &out), NurbsCurve::CreateArc(q, XYZ(1, 0, 0), XYZ(0, 0, 1), s, e, r1, r2, want));
    { XYZ p0(0, 0, 0), p2(4, g.coord(1), 0), t0(1, 1 + g.unit(), 0), t2(1, -1 - g.unit(), 0), m(2, 0.5 + g.unit(), 0); CURVEOK(LNLIB_NURBSCUR_create_open_conic(c3(p0), c3(t0), c3(p2), c3(t2), c3(m), &out), NurbsCurve::CreateOpenConic(p0, t0, p2, t2, m, want)); XYZ pp; double w = 0, w2 = 0; XYZ_C PP{}; bool ok = NurbsCurve::CreateOneConicArc(p0, t0, p2, t2, m, pp, w); int o = LNLIB_NURBSCUR_create_one_conic_arc(c3(p0), c3(t0), c3(p2), c3(t2), c3(m), &PP, &w2); REQUIRE(ok == (o != 0), "conic arc"); if (ok) { SAME(PP, pp); SAME(w2, w); XYZ x, y, z; double iw = 0, iw2 = 0; XYZ_C X{}, Y{}, Z{}; NurbsCurve::SplitArc(p0, pp, w, p2, x, y, z, iw); LNLIB_NURBSCUR_split_arc(c3(p0), PP, w, c3(p2), &X, &Y, &Z, &iw2); SAME(X, x); SAME(Y, y); SAME(Z, z); SAME(iw2, iw); } }
    int n = g.integer(4, 9); std::vector<XYZ> P, T; for (int i = 0; i < n; i++) { double u = 0.6 * g.unit(); P.push_back(XYZ(2 * i + u, g.coord(3), g.coord(3))); T.push_back(XYZ(1, 0.3 * g.coord(1), 0.3 * g.coord(1))); } auto C = cs3(P), D = cs3(T); int p = g.integer(1, 3); CURVEOP(LNLIB_NURBSCUR_create_cubic_hermite(C.data(), n, D.data(), n, &out), NurbsCurve::CreateCubicHermite(P, T, want)); CURVEOP(LNLIB_NURBSCUR_global_interpolation(p, C.data(), n, &out), NurbsCurve::GlobalInterpolation(p, P, want)); int pt = g.integer(2, 3); CURVEOP(LNLIB_NURBSCUR_global_interpolation_with_tangents(pt, C.data(), D.data(), 1.0, n, &out), NurbsCurve::GlobalInterpolation(pt, P, T, 1.0, want)); CURVEOK(LNLIB_NURBSCUR_cubic_local_interpolation(C.data(), n, &out), NurbsCurve::CubicLocalInterpolation(P, want)); int cp = g.integer(p + 1, std::max(p + 1, n - 1)); CURVEOK(LNLIB_NURBSCUR_least_squares_approximation(p, C.data(), n, cp, &out), NurbsCurve::LeastSquaresApproximation(p, P, cp, want)); if (g.chance(1, 3)) CURVEOP(LNLIB_NURBSCUR_global_approximation_by_error_bound(p, C.data(), n, 0.5, &out), NurbsCurve::GlobalApproximationByErrorBound(p, P, 0.5, want));
    { std::vector<XYZW> w; std::vector<XYZW_C> o(n + 4); int sz = 0; bool ok = NurbsCurve::FitWithConic(P, 0, n - 1, T[0], T[n - 1], 2.0, w); int co = LNLIB_NURBSCUR_fit_with_conic(C.data(), n, 0, n - 1, D[0], D[n - 1], 2.0, o.data(), &sz); REQUIRE(ok == (co != 0) && eqn(o.data(), sz, w), "conic fit differs"); w.clear(); ok = NurbsCurve::FitWithCubic(P, 0, n - 1, T[0], T[n - 1], 2.0, w); co = LNLIB_NURBSCUR_fit_with_cubic(C.data(), n, 0, n - 1, D[0], D[n - 1], 2.0, o.data(), &sz); REQUIRE(ok == (co != 0) && eqn(o.data(), sz, w), "cubic fit differs"); }
    { auto c = genCurve(g, small()); CC K(c.c); std::vector<double> ps, er(6, 0.0); for (int i = 0; i < 6; i++) ps.push_back(c.k.lo() + (c.k.hi() - c.k.lo()) * i / 5); ps[5] = c.k.hi(); LN_NurbsCurve want; LN_NurbsCurve_C out{}; std::vector<double> oe(64); int sz = 0; bool r1 = refuses([&] { NurbsCurve::RemoveKnotsByGivenBound(c.c, ps, er, 0.5, want); }), r2 = refuses([&] { LNLIB_NURBSCUR_remove_knots_by_given_bound(K, ps.data(), 6, 0.5, oe.data(), &sz, &out); }); REQUIRE(r1 == r2, "refusal"); if (!r1) { REQUIRE(eq(out, want), "curve with knots removed differs"); REQUIRE(eqn(oe.data(), sz, er), "errors differ"); } }
    if (g.chance(1, 20)) { auto o = small(); o.minDegree = 2; o.maxDegree = 3; auto c = genRegular(g, o, 0.3); std::vector<XYZ> Q; std::vector<double> w; for (auto& x : c.c.ControlPoints) { XYZ y = x.ToXYZ(true); y[2] = 0; Q.push_back(y); w.push_back(x[3]); } finish(c, Q, w); CC K(c.c); CURVEOP(LNLIB_NURBSCUR_offset(K, 0.3, OFFSET_TILLER_HANSON, &out), NurbsCurve::Offset(c.c, 0.3, OffsetType::TillerAndHanson, want)); }
}
FINDING(weighted_constrained_least_squares) {
    std::vector<XYZ> P{XYZ(0, 0, 0), XYZ(1, 2, 0), XYZ(2, 1, 1), XYZ(3, -1, 0), XYZ(4, 0, 2), XYZ(5, 3, 0)}; std::vector<double> w(6, 1.0); auto C = cs3(P); LN_NurbsCurve want; LN_NurbsCurve_C out{}; bool ok = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(3, P, w, {}, {}, {}, 4, want);
    int co = LNLIB_NURBSCUR_weighted_constrained_least_squares(3, C.data(), w.data(), nullptr, nullptr, nullptr, 0, 4, &out); REQUIRE(ok == (co != 0) && eq(out, want), "LNLIB_NURBSCUR_weighted_constrained_least_squares fits only the first control_point_count of the points: it has no parameter for the number of points");
}
LAW(surface_queries, 1500, 60000) {
    SurfOpt o; o.maxDegree = 4; o.graph = true; auto s = genSurface(g, o); CS S(s.s); double u = genParam(g, s.ku), v = genParam(g, s.kv); UV uv(u, v); g.nontrivial(); g.note([&](std::ostream& os) { os << s.s << " at " << uv; }); SAME(LNLIB_NURBSSUR_get_point_on_surface(S, c2(uv)), NurbsSurface::GetPointOnSurface(s.s, uv)); { int k = g.integer(1, 3); auto w = NurbsSurface::ComputeRationalSurfaceDerivatives(s.s, k, uv); std::vector<XYZ> f; for (auto& r : w) for (auto& x : r) f.push_back(x); std::vector<XYZ_C> out(f.size() + 1); int n = LNLIB_NURBSSUR_compute_rational_surface_derivatives(S, k, c2(uv), out.data()); REQUIRE(eqn(out.data(), n, f), "derivatives differ"); } { XYZ a, b, c; XYZ_C A{}, B{}, C{}; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s.s, uv, a, b, c); LNLIB_NURBSSUR_compute_rational_surface_first_order_derivative(S, c2(uv), &A, &B, &C); SAME(A, a); SAME(B, b); SAME(C, c); }
    static const SurfaceCurvature K[] = {SurfaceCurvature::Maximum, SurfaceCurvature::Minimum, SurfaceCurvature::Gauss, SurfaceCurvature::Mean, SurfaceCurvature::Abs, SurfaceCurvature::Rms}; static const int KC[] = {SURFACE_CURVATURE_MAXIMUM, SURFACE_CURVATURE_MINIMUM, SURFACE_CURVATURE_GAUSS, SURFACE_CURVATURE_MEAN, SURFACE_CURVATURE_ABS, SURFACE_CURVATURE_RMS}; int k = g.integer(0, 5); SAME(LNLIB_NURBSSUR_curvature(S, KC[k], c2(uv)), NurbsSurface::Curvature(s.s, K[k], uv)); SAME(LNLIB_NURBSSUR_Normal(S, c2(uv)), NurbsSurface::Normal(s.s, uv)); for (int d = 0; d < 2; d++) FLAG(LNLIB_NURBSSUR_is_closed(S, d), NurbsSurface::IsClosed(s.s, d != 0)); { XYZ t = genPoint(g, 3); UV w; UV_C W{}; bool ok = NurbsSurface::GetUVTangent(s.s, uv, t, w); int co = LNLIB_NURBSSUR_get_uv_tangent(S, c2(uv), c3(t), &W); REQUIRE(ok == (co != 0), "tangent inversion"); if (ok) SAME(W, w); }
    if (g.chance(1, 25)) { XYZ q = genPoint(g, 10); SAME(LNLIB_NURBSSUR_get_param_on_surface(S, c3(q)), NurbsSurface::GetParamOnSurface(s.s, q)); SAME(LNLIB_NURBSSUR_get_param_on_surface_by_gsa(S, c3(q)), NurbsSurface::GetParamOnSurfaceByGSA(s.s, q)); SAME(LNLIB_NURBSSUR_approximate_area(S, INTEGRATOR_GAUSS_LEGENDRE), NurbsSurface::ApproximateArea(s.s, IntegratorType::GaussLegendre)); g.tag("inversion"); }
    if (g.chance(1, 25)) { std::vector<XYZ> P; std::vector<UV> Q; NurbsSurface::EquallyTessellate(s.s, P, Q); int cap = g.integer(0, (int)P.size() + 2); std::vector<XYZ_C> op(cap + 1, XYZ_C{7, 7, 7}); std::vector<UV_C> oq(cap + 1, UV_C{7, 7}); LNLIB_NURBSSUR_equally_tessellate(S, op.data(), oq.data(), cap); for (int i = 0; i < std::min(cap, (int)P.size()); i++) { SAME(op[i], P[i]); SAME(oq[i], Q[i]); } REQUIRE(op[cap].x == 7 && oq[cap].u == 7, "writes past the given capacity"); }
    if (g.chance(1, 8)) { int a = g.integer(2, 6), b = g.integer(2, 6); auto m = NurbsSurface::Triangulate(s.s, a, b, false); auto c = LNLIB_NURBSSUR_triangulate(S, a, b, 0); REQUIRE(eqn(c.vertices, c.vertices_count, m.Vertices), "vertices differ"); std::vector<int> f; for (auto& x : m.Faces) for (int i : x) f.push_back(i); REQUIRE(eqn(c.facets, c.facets_count, f), "facets differ"); REQUIRE(eqn(c.uvs, c.uvs_count, m.UVs), "uvs differ"); REQUIRE(eqn(c.normals, c.normals_count, m.Normals), "normals differ"); for (int i = 0; i < c.uv_indices_count; i++) REQUIRE(c.uv_indices[i] >= 0 && c.uv_indices[i] < c.uvs_count, "uv index"); for (int i = 0; i < c.normal_indices_count; i++) REQUIRE(c.normal_indices[i] >= 0 && c.normal_indices[i] < c.normals_count, "normal index"); if (!m.UVIndices.empty()) REQUIRE(eqn(c.uv_indices, c.uv_indices_count, m.UVIndices), "uv indices differ"); if (!m.NormalIndices.empty()) REQUIRE(eqn(c.normal_indices, c.normal_indices_count, m.NormalIndices), "normal indices differ"); g.tag("mesh"); }
}
LAW(surface_operations, 2500, 80000) {
    SurfOpt o; o.maxDegree = 4; auto s = genSurface(g, o); CS S(s.s); bool U = g.boolean(); const Knots& k = U ? s.ku : s.kv; double t = genParam(g, k, false); int times = g.integer(1, 2), du = g.integer(0, 2); g.nontrivial(); g.note([&](std::ostream& os) { os << s.s << " at " << t << (U ? " u" : " v"); });
    SURFOP(LNLIB_NURBSSUR_swap(S, &out), NurbsSurface::Swap(s.s, want)); SURFOP(LNLIB_NURBSSUR_reverse(S, du, &out), NurbsSurface::Reverse(s.s, (SurfaceDirection)du, want)); SURFOP(LNLIB_NURBSSUR_insert_knot(S, t, times, U, &out), NurbsSurface::InsertKnot(s.s, t, times, U, want)); std::vector<double> X; for (int i = 0, n = g.integer(1, 3); i < n; i++) X.push_back(k.lo() + (k.hi() - k.lo()) * (0.02 + 0.96 * g.unit())); std::sort(X.begin(), X.end()); SURFOP(LNLIB_NURBSSUR_refine_knot_vector(S, X.data(), (int)X.size(), U, &out), NurbsSurface::RefineKnotVector(s.s, X, U, want)); { LN_NurbsSurface i; NurbsSurface::InsertKnot(s.s, t, 1, U, i); CS I(i); SURFOP(LNLIB_NURBSSUR_remove_knot(I, t, 1, U, &out), NurbsSurface::RemoveKnot(i, t, 1, U, want)); } SURFOP(LNLIB_NURBSSUR_elevate_degree(S, times, U, &out), NurbsSurface::ElevateDegree(s.s, times, U, want)); { LN_NurbsSurface e; NurbsSurface::ElevateDegree(s.s, 1, U, e); CS E(e); SURFOK(LNLIB_NURBSSUR_reduce_degree(E, U, &out), NurbsSurface::ReduceDegree(e, U, want)); } SURFOP(LNLIB_NURBSSUR_reparametrize(S, -1, 2, 0.5, 3, &out), NurbsSurface::Reparametrize(s.s, -1, 2, 0.5, 3, want));
    { auto w = NurbsSurface::DecomposeToBeziers(s.s); int cap = g.chance(1, 4) ? g.integer(0, (int)w.size()) : (int)w.size() + 1; std::vector<LN_NurbsSurface_C> out(w.size() + 2); int n = LNLIB_NURBSSUR_decompose_to_beziers(S, out.data(), cap); REQUIRE(n == std::min(cap, (int)w.size()), "number of patches"); for (int i = 0; i < n; i++) REQUIRE(eq(out[i], w[i]), "Bezier patch " << i << " of " << n << " differs"); }
}
LAW(surface_construction, 2000, 60000) {
    XYZ a = genPoint(g, 5), b = genPoint(g, 5), c = genPoint(g, 5), d = genPoint(g, 5); g.nontrivial(); double rad = g.real(0.3, 6), r = g.real(0.5, 3); auto o = small(); o.maxDegree = 3; auto p = genCurve(g, o), q = genCurve(g, o); CC P(p.c), Q(q.c); SURFOP(LNLIB_NURBSSUR_create_bilinear_surface(c3(a), c3(b), c3(c), c3(d), &out), NurbsSurface::CreateBilinearSurface(a, b, c, d, want)); SURFOK(LNLIB_NURBSSUR_create_cylindrical_surface(c3(a), XYZ_C{0, 1, 0}, XYZ_C{0, 0, 1}, 0.25, 0.25 + rad, r, 3, &out), NurbsSurface::CreateCylindricalSurface(a, XYZ(0, 1, 0), XYZ(0, 0, 1), 0.25, 0.25 + rad, r, 3, want)); SURFOP(LNLIB_NURBSSUR_create_ruled_surface(P, Q, &out), NurbsSurface::CreateRuledSurface(p.c, q.c, want)); SURFOK(LNLIB_NURBSSUR_create_revolved_surface(c3(a), XYZ_C{1, 2, 2}, rad, P, &out), NurbsSurface::CreateRevolvedSurface(a, XYZ(1, 2, 2), rad, p.c, want)); SURFOP(LNLIB_NURBSSUR_create_generalized_translational_sweep_surface(P, Q, &out), NurbsSurface::CreateGeneralizedTranslationalSweepSurface(p.c, q.c, want)); SURFOK(LNLIB_NURBSSUR_create_swung_surface(P, Q, r, &out), NurbsSurface::CreateSwungSurface(p.c, q.c, r, want));
    { int R = g.integer(2, 4), C = g.integer(2, 5); std::vector<std::vector<XYZW>> G(R, std::vector<XYZW>(C)); std::vector<XYZW> f; for (auto& x : G) for (auto& y : x) { y = XYZW(genPoint(g, 3), 0.5 + g.unit()); f.push_back(y); } auto F = cs4(f); XYZW_C* res = nullptr; int rr = 0, cc = 0; LNLIB_NURBSSUR_non_uniform_scaling_query_size(F.data(), R, C, 0.5, 2, r, c3(a), &res, &rr, &cc); auto w = NurbsSurface::NonUniformScaling(G, 0.5, 2, r, a); REQUIRE(res && rr == (int)w.size() && cc == (int)w[0].size(), "size"); for (int i = 0; i < rr; i++) for (int j = 0; j < cc; j++) REQUIRE(eq(res[i * cc + j], w[i][j]), "scaled net differs"); delete[] res; }
    int R = g.integer(4, 6), C = g.integer(4, 6), pu = g.integer(1, 3), pv = g.integer(1, 3); std::vector<std::vector<XYZ>> G(R, std::vector<XYZ>(C)); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { double x = 0.3 * g.unit(), y = 0.3 * g.unit(); G[i][j] = XYZ(i + x, j + y, g.coord(2)); } auto F = cs3(G); SURFOP(LNLIB_NURBSSUR_global_interpolation(F.data(), R, C, pu, pv, &out), NurbsSurface::GlobalInterpolation(G, pu, pv, want)); SURFOK(LNLIB_NURBSSUR_bicubic_local_interpolation(F.data(), R, C, &out), NurbsSurface::BicubicLocalInterpolation(G, want)); int ru = g.integer(pu + 1, std::max(pu + 1, R - 1)), rv = g.integer(pv + 1, std::max(pv + 1, C - 1)); SURFOK(LNLIB_NURBSSUR_global_approximation(F.data(), R, C, pu, pv, ru, rv, &out), NurbsSurface::GlobalApproximation(G, pu, pv, ru, rv, want));
    { std::vector<LN_NurbsCurve> sec; std::vector<CC> keep; int n = g.integer(2, 4); for (int i = 0; i < n; i++) { auto x = genCurve(g, o); std::vector<XYZ> pts; for (auto& y : x.c.ControlPoints) pts.push_back(y.ToXYZ(true) + XYZ(0, 0, 20 * i)); finish(x, pts, std::vector<double>(pts.size(), 1.0)); sec.push_back(x.c); keep.push_back(CC(x.c)); } std::vector<LN_NurbsCurve_C> arr(keep.begin(), keep.end()); SURFOP(LNLIB_NURBSSUR_create_loft_surface(arr.data(), n, &out, 0, nullptr, 0), NurbsSurface::CreateLoftSurface(sec, want)); std::vector<double> vs; for (int i = 0; i < n; i++) vs.push_back((double)i / (n - 1)); SURFOP(LNLIB_NURBSSUR_create_loft_surface(arr.data(), n, &out, 1, vs.data(), n), NurbsSurface::CreateLoftSurface(sec, want, 1, vs)); }
    { LN_NurbsCurve arc; NurbsCurve::CreateArc(a, XYZ(1, 0, 0), XYZ(0, 1, 0), 0, Constants::Pi / 2, r, r, arc); CC A(arc); SURFOP(LNLIB_NURBSSUR_make_corner_fillet_surface(A, &out), NurbsSurface::MakeCornerFilletSurface(arc, want)); }
    { LN_NurbsCurve l, bt, rt, tp; NurbsCurve::CreateLine(d, a, l); NurbsCurve::CreateLine(a, b, bt); NurbsCurve::CreateLine(b, c, rt); NurbsCurve::CreateLine(c, d, tp); SURFOP(LNLIB_NURBSSUR_create_coons_surface(CC(l), CC(bt), CC(rt), CC(tp), &out), NurbsSurface::CreateCoonsSurface(l, bt, rt, tp, want)); }
    { int m = g.integer(2, 3), n = g.integer(2, 3); std::vector<LN_NurbsCurve> us, vs; std::vector<CC> ku, kv; std::vector<std::vector<XYZ>> I(m, std::vector<XYZ>(n)); XYZ ex(4, 0, 1), ey(1, 4, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) I[i][j] = a + ex * ((double)j / (n - 1)) + ey * ((double)i / (m - 1)); for (int i = 0; i < m; i++) { LN_NurbsCurve x; NurbsCurve::CreateLine(I[i][0], I[i][n - 1], x); us.push_back(x); ku.push_back(CC(x)); } for (int j = 0; j < n; j++) { LN_NurbsCurve x; NurbsCurve::CreateLine(I[0][j], I[m - 1][j], x); vs.push_back(x); kv.push_back(CC(x)); } std::vector<LN_NurbsCurve_C> au(ku.begin(), ku.end()), av(kv.begin(), kv.end()); auto FI = cs3(I); SURFOP(LNLIB_NURBSSUR_create_gordon_surface(au.data(), m, av.data(), n, FI.data(), &out), NurbsSurface::CreateGordonSurface(us, vs, I, want)); }
    { LN_NurbsCurve path; NurbsCurve::CreateLine(XYZ(0, 0, 0), XYZ(0, 0, 5), path); CC K(path); for (int v = 0; v < 2; v++) { LN_NurbsSurface w; LN_NurbsSurface_C out{}; if (v) { NurbsSurface::CreateSweepSurface(p.c, path, 3, 2, w); LNLIB_NURBSSUR_create_sweep_surface_by_trajectory_degree(P, K, 3, 2, &out); } else { NurbsSurface::CreateSweepSurface(p.c, path, 3, w); LNLIB_NURBSSUR_create_sweep_surface(P, K, 3, &out); } REQUIRE(out.degree_u == w.DegreeU && out.degree_v == w.DegreeV && out.cp_rows == (int)w.ControlPoints.size() && out.cp_cols == (int)w.ControlPoints[0].size() && eqn(out.knot_vector_u, out.knot_vector_count_u, w.KnotVectorU), "sweep has the same structure (its rotation is random)"); } }
}
