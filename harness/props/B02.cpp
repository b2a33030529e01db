// B02: the Python bindings (python/src) give exactly the results of the C++ interface
// EXTRA_SOURCES: python/src
// EXTRA_SOURCES: python/src/Construct
// EXTRA_INCLUDES: python/src
// HARNESS_INCLUDES: shim
#include "gen.h"
#include <optional>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "Intersection.h"
#include "KnotVectorUtils.h"
#include "Projection.h"
#include "ValidationUtils.h"
#include "Polynomials.h"
#include "Matrix4d.h"
#include "LNEnums.h"
const char* pbt::RULE = "the bound function and the C++ function were both called on the same generated input; every case is non-trivial";
namespace py = pybind11;
void pybind11_module_PyLNLib(py::module_&);
// "import PyLNLib"
static py::module_& lib() { static py::module_* m = [] { auto* m = new py::module_(); py::module_::current() = m; pybind11_module_PyLNLib(*m); return m; }(); return *m; }
static std::shared_ptr<py::class_info> cls(const std::string& n) { auto& m = lib(); auto it = m.classes.find(n); if (it == m.classes.end()) throw py::type_error("module has no attribute " + n); return it->second; }
template <class T> static const T& as(const py::object& o) { if (o.k != py::object::Inst || o.t != std::type_index(typeid(T))) throw py::type_error("value of another class"); return *static_cast<const T*>(o.p.get()); }
// a Python value is what a C++ value should look like from Python
static bool eq(const py::object& o, double v) { return o.k == py::object::Float && (o.d == v || (std::isnan(o.d) && std::isnan(v))); }
static bool eq(const py::object& o, int v) { return o.k == py::object::Int && o.i == v; }
static bool eq(const py::object& o, bool v) { return o.k == py::object::Bool && (o.i != 0) == v; }
template <class T, class = std::enable_if_t<std::is_enum_v<T>>> static bool eq(const py::object& o, T v) { return o.k == py::object::Enum && o.t == std::type_index(typeid(T)) && o.i == (long long)v; }
static bool bits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool val(const UV& a, const UV& b) { return bits(a[0], b[0]) && bits(a[1], b[1]); }
static bool val(const XYZ& a, const XYZ& b) { return bits(a[0], b[0]) && bits(a[1], b[1]) && bits(a[2], b[2]); }
static bool val(const XYZW& a, const XYZW& b) { return bits(a[0], b[0]) && bits(a[1], b[1]) && bits(a[2], b[2]) && bits(a[3], b[3]); }
static bool val(const Matrix4d& a, const Matrix4d& b) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (!bits(a.GetElement(i, j), b.GetElement(i, j))) return false; return true; }
static bool val(double a, double b) { return bits(a, b); }
static bool val(int a, int b) { return a == b; }
template <class T> static bool val(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!val(a[i], b[i])) return false; return true; }
template <class T> static bool val(const LN_BezierCurve<T>& a, const LN_BezierCurve<T>& b) { return a.Degree == b.Degree && val(a.ControlPoints, b.ControlPoints); }
template <class T> static bool val(const LN_BezierSurface<T>& a, const LN_BezierSurface<T>& b) { return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && val(a.ControlPoints, b.ControlPoints); }
template <class T> static bool val(const LN_BsplineCurve<T>& a, const LN_BsplineCurve<T>& b) { return a.Degree == b.Degree && val(a.KnotVector, b.KnotVector) && val(a.ControlPoints, b.ControlPoints); }
template <class T> static bool val(const LN_BsplineSurface<T>& a, const LN_BsplineSurface<T>& b) { return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && val(a.KnotVectorU, b.KnotVectorU) && val(a.KnotVectorV, b.KnotVectorV) && val(a.ControlPoints, b.ControlPoints); }
static bool val(const LN_Mesh& a, const LN_Mesh& b) { return val(a.Vertices, b.Vertices) && val(a.Faces, b.Faces) && val(a.UVs, b.UVs) && val(a.UVIndices, b.UVIndices) && val(a.Normals, b.Normals) && val(a.NormalIndices, b.NormalIndices); }
static bool val(const LN_ArcInfo& a, const LN_ArcInfo& b) { return bits(a.Radius, b.Radius) && val(a.Center, b.Center); }
static bool val(const LN_BoundingBox3d& a, const LN_BoundingBox3d& b) { return val(a.MinPoint, b.MinPoint) && val(a.MaxPoint, b.MaxPoint); }
static bool val(const LN_OrientedBoundingBox3d& a, const LN_OrientedBoundingBox3d& b) { for (int i = 0; i < 3; i++) if (!val(a.Axes[i], b.Axes[i]) || !bits(a.HalfExtents[i], b.HalfExtents[i])) return false; return val(a.Center, b.Center); }
template <class T, class = std::enable_if_t<std::is_class_v<T>>, class = void> static bool eq(const py::object& o, const T& v) { return o.k == py::object::Inst && o.t == std::type_index(typeid(T)) && val(as<T>(o), v); }
template <class T> static bool eq(const py::object& o, const std::vector<T>& v) { if (o.k != py::object::List || o.items.size() != v.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!eq(o.items[i], v[i])) return false; return true; }
static bool eq(const py::object& o, const std::map<double, int>& v) { if (o.k != py::object::Dict || o.items.size() != 2 * v.size()) return false; size_t i = 0; for (auto& e : v) { if (!eq(o.items[i], e.first) || !eq(o.items[i + 1], e.second)) return false; i += 2; } return true; }
struct Nothing {};
static bool eq(const py::object& o, Nothing) { return o.k == py::object::None; }
template <class... T> static bool eq(const py::object& o, const std::tuple<T...>& v) { if (o.k != py::object::Tuple || o.items.size() != sizeof...(T)) return false; size_t i = 0; return std::apply([&](auto&... x) { return (eq(o.items[i++], x) && ...); }, v); }
// an operation that reports failure gives no object to compare
struct IfOk { bool ok; std::function<bool(const py::object&)> same; };
template <class... T> static IfOk ifOk(bool ok, const T&... v) { auto t = std::make_tuple(ok, v...); return {ok, [t](const py::object& o) { return eq(o, t); }}; }
static bool eq(const py::object& o, const IfOk& v) { return v.ok ? v.same(o) : o.k == py::object::Tuple && !o.items.empty() && eq(o.items[0], false); }
// the structure of a surface whose shape is random
struct Shape { LN_NurbsSurface s; };
static bool eq(const py::object& o, const Shape& v) { const auto& a = as<LN_NurbsSurface>(o); return a.DegreeU == v.s.DegreeU && a.DegreeV == v.s.DegreeV && val(a.KnotVectorU, v.s.KnotVectorU) && a.ControlPoints.size() == v.s.ControlPoints.size() && a.ControlPoints[0].size() == v.s.ControlPoints[0].size(); }

template <class... A> static py::object call(const std::string& c, const std::string& f, const A&... a) { auto i = cls(c); auto it = i->statics.find(f); if (it == i->statics.end()) throw py::type_error("type object '" + c + "' has no attribute '" + f + "'"); return py::dispatch(it->second, c + "." + f, {py::cast(a)...}); }
template <class... A> static py::object meth(const py::object& o, const std::string& f, const A&... a) { auto i = lib().types.at(o.t); auto it = i->methods.find(f); if (it == i->methods.end()) throw py::type_error("object has no attribute '" + f + "'"); return py::dispatch(it->second, i->name + "." + f, {o, py::cast(a)...}); }
static py::object get(const py::object& o, const std::string& f) { auto i = lib().types.at(o.t); auto it = i->getters.find(f); if (it == i->getters.end()) throw py::type_error("object has no attribute '" + f + "'"); return py::dispatch({it->second}, f, {o}); }
template <class A> static void put(const py::object& o, const std::string& f, const A& a) { auto i = lib().types.at(o.t); auto it = i->setters.find(f); if (it == i->setters.end()) throw py::type_error("can't set attribute '" + f + "'"); py::dispatch({it->second}, f, {o, py::cast(a)}); }
// a call from Python refuses exactly when the C++ call does, and otherwise gives the same value
template <class F, class H> static void same(const std::string& what, F pf, H cf) {
    std::optional<py::object> a; std::optional<decltype(cf())> b; std::string why;
    try { b = cf(); } catch (const std::exception&) {}
    try { a = pf(); } catch (const std::exception& e) { why = e.what(); }
    REQUIRE(a.has_value() == b.has_value(), what << (a ? " does not refuse, C++ does" : " refuses, C++ does not: ") << why);
    if (a) REQUIRE(eq(*a, *b), what << " differs from the C++ result");
}
#define ARGS(...) __VA_ARGS__
#define PY(c, f, args, cpp) same(c "." f, [&] { return call(c, f, args); }, [&] { return cpp; })
#define PY0(c, f, cpp) same(c "." f, [&] { return call(c, f); }, [&] { return cpp; })
#define METH(T, obj, f, args, cpp) do { py::object o_ = py::cast(obj); auto x = obj; same(T "." f, [&] { return meth(o_, f, args); }, [&] { return cpp; }); REQUIRE(eq(o_, x), T "." f " leaves another object behind"); } while (0)
#define METH0(T, obj, f, cpp) do { py::object o_ = py::cast(obj); auto x = obj; same(T "." f, [&] { return meth(o_, f); }, [&] { return cpp; }); REQUIRE(eq(o_, x), T "." f " leaves another object behind"); } while (0)
#define VOID(e) ((e), Nothing())
#define OUTC(e) [&] { LN_NurbsCurve out; e; return out; }()
#define OKC(e) [&] { LN_NurbsCurve out; bool ok = e; return ifOk(ok, out); }()
#define OUTS(e) [&] { LN_NurbsSurface out; e; return out; }()
#define OKS(e) [&] { LN_NurbsSurface out; bool ok = e; return ifOk(ok, out); }()
template <class T, class V> static void field(T& obj, const char* n, V T::*p, const V& v) {
    py::object o = py::cast(obj); REQUIRE(eq(get(o, n), obj.*p), n << " read from Python differs"); put(o, n, v); obj.*p = v; REQUIRE(eq(o, obj), "assigning " << n << " from Python changes something else"); REQUIRE(eq(get(o, n), v), n << " does not come back");
}
#define FIELD(obj, n, v) field(obj, #n, &std::decay_t<decltype(obj)>::n, std::decay_t<decltype(obj.n)>(v))
template <class T> static void prop(const T& obj, const char* n, int at, double v) { py::object o = py::cast(obj); T x = obj; REQUIRE(eq(get(o, n), x[at]), n << " read from Python differs"); put(o, n, v); x[at] = v; REQUIRE(eq(o, x), "assigning " << n << " from Python changes something else"); }
template <class E> static void names(const char* c, std::vector<std::pair<const char*, E>> vs) { auto i = cls(c); REQUIRE(i->isEnum && i->type == std::type_index(typeid(E)) && i->values.size() == vs.size(), c << " has other members"); for (auto& v : vs) { auto it = i->values.find(v.first); REQUIRE(it != i->values.end() && it->second == (long long)v.second, c << "." << v.first << " is another value"); } }
static CurveOpt small() { CurveOpt o; o.maxDegree = 5; o.knots.many = false; o.knots.maxInterior = 4; return o; }

LAW(values, 10000, 300000) {
    XYZ a = genPoint(g, 10), b = genPoint(g, 10); double s = g.coord(3), w = 0.2 + g.unit(), e = std::pow(10.0, -g.integer(1, 9)); UV p(g.coord(5), g.coord(5)), q(g.coord(5), g.coord(5)); g.nontrivial(); if (g.chance(1, 4)) b = a + e * genPoint(g, 2); if (g.chance(1, 4)) q = UV(p[0] + e * g.coord(2), p[1]); if (g.chance(1, 6)) { a = a.Normalize(); p = p.Normalize(); } if (g.chance(1, 8)) { a = e * a; p = e * p; } int at = g.integer(-1, 4); g.note([&](std::ostream& o) { o << a << b << p << q << " " << s << " " << w; });
    PY0("XYZ", "__init__", XYZ()); PY("XYZ", "__init__", ARGS(a[0], a[1], a[2]), a); METH("XYZ", a, "SetX", s, VOID(x.SetX(s))); METH("XYZ", a, "SetY", s, VOID(x.SetY(s))); METH("XYZ", a, "SetZ", s, VOID(x.SetZ(s))); METH0("XYZ", a, "GetX", a[0]); METH0("XYZ", a, "GetY", a[1]); METH0("XYZ", a, "GetZ", a[2]); prop(a, "X", 0, s); prop(a, "Y", 1, s); prop(a, "Z", 2, s);
    METH0("XYZ", a, "IsZero", a.IsZero()); METH0("XYZ", a, "IsUnit", a.IsUnit()); METH("XYZ", a, "IsZero", e, a.IsZero(e)); METH("XYZ", a, "IsUnit", e, a.IsUnit(e)); METH("XYZ", a, "IsAlmostEqualTo", b, a.IsAlmostEqualTo(b)); METH0("XYZ", a, "Length", a.Length()); METH0("XYZ", a, "SqrLength", a.SqrLength()); METH("XYZ", a, "AngleTo", b, a.AngleTo(b)); METH0("XYZ", a, "Normalize", x.Normalize()); METH("XYZ", a, "Add", b, a.Add(b)); METH("XYZ", a, "Substract", b, a.Substract(b)); METH0("XYZ", a, "Negative", a.Negative()); METH("XYZ", a, "DotProduct", b, a.DotProduct(b)); METH("XYZ", a, "CrossProduct", b, a.CrossProduct(b)); METH("XYZ", a, "Distance", b, a.Distance(b));
    METH("XYZ", a, "__getitem__", g.integer(0, 2) * 0 + (at < 0 || at > 2 ? 0 : at), double(a[at < 0 || at > 2 ? 0 : at])); { int i = at < 0 || at > 2 ? 1 : at; METH("XYZ", a, "__setitem__", ARGS(i, s), VOID(x[i] = s)); }
    METH("XYZ", a, "__add__", b, a + b); METH("XYZ", a, "__sub__", b, a - b); METH("XYZ", a, "__mul__", s, a * s); METH("XYZ", a, "__rmul__", s, s * a); METH("XYZ", a, "__xor__", b, a ^ b); METH0("XYZ", a, "__neg__", -a); if (s != 0) METH("XYZ", a, "__truediv__", s, a / s);
    if (a.Length() > 1e-3) { V3 v(as<XYZ>(call("XYZ", "CreateRandomOrthogonal", a))); NEAR1(v.len(), 1, 1e-9L, "unit"); NEAR1(v.dot(V3(a)) / a.Length(), 0, 1e-9L, "orthogonal"); }
    PY0("UV", "__init__", UV()); PY("UV", "__init__", ARGS(p[0], p[1]), p); METH("UV", p, "SetU", s, VOID(x.SetU(s))); METH("UV", p, "SetV", s, VOID(x.SetV(s))); METH0("UV", p, "GetU", p[0]); METH0("UV", p, "GetV", p[1]); prop(p, "U", 0, s); prop(p, "V", 1, s); METH0("UV", p, "IsZero", p.IsZero()); METH0("UV", p, "IsUnit", p.IsUnit()); METH("UV", p, "IsZero", e, p.IsZero(e)); METH("UV", p, "IsUnit", e, p.IsUnit(e)); METH("UV", p, "IsAlmostEqualTo", q, p.IsAlmostEqualTo(q)); METH0("UV", p, "Length", p.Length()); METH0("UV", p, "SqrLength", p.SqrLength()); METH0("UV", p, "Normalize", x.Normalize()); METH("UV", p, "Add", q, p.Add(q)); METH("UV", p, "Substract", q, p.Substract(q)); METH0("UV", p, "Negative", p.Negative()); METH("UV", p, "DotProduct", q, p.DotProduct(q)); METH("UV", p, "CrossProduct", q, p.CrossProduct(q)); METH("UV", p, "Distance", q, p.Distance(q));
    { int i = g.integer(0, 1); METH("UV", p, "__getitem__", i, double(p[i])); METH("UV", p, "__setitem__", ARGS(i, s), VOID(x[i] = s)); } METH("UV", p, "__add__", q, p + q); METH("UV", p, "__sub__", q, p - q); METH("UV", p, "__mul__", s, p * s); METH("UV", p, "__rmul__", s, s * p); METH("UV", p, "__xor__", q, p ^ q); METH0("UV", p, "__neg__", -p); if (s != 0) METH("UV", p, "__truediv__", s, p / s);
    XYZW u(a, w), v(b, 0.5 + w); PY0("XYZW", "__init__", XYZW()); PY("XYZW", "__init__", ARGS(a, w), u); PY("XYZW", "__init__", ARGS(u[0], u[1], u[2], u[3]), u); METH0("XYZW", u, "GetWX", u[0]); METH0("XYZW", u, "GetWY", u[1]); METH0("XYZW", u, "GetWZ", u[2]); METH0("XYZW", u, "GetW", u[3]); METH("XYZW", u, "SetW", s, VOID(x.SetW(s))); prop(u, "WX", 0, s); prop(u, "WY", 1, s); prop(u, "WZ", 2, s); prop(u, "W", 3, s); METH("XYZW", u, "ToXYZ", true, u.ToXYZ(true)); METH("XYZW", u, "ToXYZ", false, u.ToXYZ(false)); METH("XYZW", u, "IsAlmostEqualTo", v, u.IsAlmostEqualTo(v)); METH("XYZW", u, "Distance", v, u.Distance(v)); METH("XYZW", u, "__add__", v, u + v); METH("XYZW", u, "__sub__", v, u - v); METH("XYZW", u, "__mul__", s, u * s); METH("XYZW", u, "__rmul__", s, s * u); if (s != 0) METH("XYZW", u, "__truediv__", s, u / s); { int i = g.integer(0, 3); METH("XYZW", u, "__getitem__", i, double(u[i])); METH("XYZW", u, "__setitem__", ARGS(i, s), VOID(x[i] = s)); }
}
LAW(matrices, 6000, 150000) {
    auto M = [&] { Matrix4d m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.SetElement(i, j, g.coord(3)); return m; }; Matrix4d m = M(), n = M(); int kind = g.integer(0, 3); if (kind == 1) m = Matrix4d(); if (kind == 2) m = Matrix4d::CreateTranslation(genPoint(g, 5)); if (kind == 3) for (int j = 0; j < 4; j++) m.SetElement(1, j, 2 * m.GetElement(0, j)); XYZ a = genPoint(g, 5), b = genPoint(g, 5), c = genPoint(g, 5), d = genPoint(g, 5); if (a.Length() < 0.1) a = XYZ(0, 0, 1); double r = g.coord(4); g.nontrivial(); g.note([&](std::ostream& o) { o << a << b << c << d << " " << r; }); auto E = [&](int i, int j) { return m.GetElement(i, j); };
    PY0("Matrix4d", "__init__", Matrix4d()); PY("Matrix4d", "__init__", ARGS(a, b, c, d), Matrix4d(a, b, c, d)); PY("Matrix4d", "__init__", ARGS(E(0, 0), E(0, 1), E(0, 2), E(0, 3), E(1, 0), E(1, 1), E(1, 2), E(1, 3), E(2, 0), E(2, 1), E(2, 2), E(2, 3), E(3, 0), E(3, 1), E(3, 2), E(3, 3)), m); PY("Matrix4d", "CreateReflection", a, Matrix4d::CreateReflection(a)); PY("Matrix4d", "CreateReflection", ARGS(a, r), Matrix4d::CreateReflection(a, r)); PY("Matrix4d", "CreateRotation", ARGS(a, r), Matrix4d::CreateRotation(a, r)); PY("Matrix4d", "CreateRotationAtPoint", ARGS(b, a, r), Matrix4d::CreateRotationAtPoint(b, a, r)); PY("Matrix4d", "CreateTranslation", a, Matrix4d::CreateTranslation(a)); PY("Matrix4d", "CreateScale", a, Matrix4d::CreateScale(a));
    METH("Matrix4d", m, "SetBasisX", a, VOID(x.SetBasisX(a))); METH("Matrix4d", m, "SetBasisY", a, VOID(x.SetBasisY(a))); METH("Matrix4d", m, "SetBasisZ", a, VOID(x.SetBasisZ(a))); METH("Matrix4d", m, "SetBasisW", a, VOID(x.SetBasisW(a))); METH0("Matrix4d", m, "GetBasisX", m.GetBasisX()); METH0("Matrix4d", m, "GetBasisY", m.GetBasisY()); METH0("Matrix4d", m, "GetBasisZ", m.GetBasisZ()); METH0("Matrix4d", m, "GetBasisW", m.GetBasisW()); int i = g.integer(0, 3), j = g.integer(0, 3); METH("Matrix4d", m, "GetElement", ARGS(i, j), m.GetElement(i, j)); METH("Matrix4d", m, "SetElement", ARGS(i, j, r), VOID(x.SetElement(i, j, r))); METH("Matrix4d", m, "Multiply", n, m.Multiply(n)); METH("Matrix4d", m, "OfPoint", b, m.OfPoint(b)); METH("Matrix4d", m, "OfVector", b, m.OfVector(b)); METH("Matrix4d", m, "OfWeightedPoint", XYZW(b, 0.5), m.OfWeightedPoint(XYZW(b, 0.5))); METH0("Matrix4d", m, "GetTranspose", m.GetTranspose()); METH0("Matrix4d", m, "GetScale", m.GetScale()); METH0("Matrix4d", m, "GetDeterminant", m.GetDeterminant()); METH0("Matrix4d", m, "IsIdentity", m.IsIdentity()); METH0("Matrix4d", m, "HasReflection", m.HasReflection()); METH0("Matrix4d", m, "IsTranslation", m.IsTranslation()); METH("Matrix4d", m, "__mul__", n, m * n); METH("Matrix4d", m, "__add__", n, m + n); METH("Matrix4d", m, "__sub__", n, m - n);
    { Matrix4d inv; py::object o = py::cast(m), pi = py::cast(Matrix4d()); bool ok = m.GetInverse(inv); REQUIRE(eq(meth(o, "GetInverse", pi), ok), "GetInverse reports another result"); if (ok) REQUIRE(eq(pi, inv), "inverse differs"); }
}
LAW(objects_and_names, 3000, 60000) {
    lib(); XYZ a = genPoint(g, 5), b = genPoint(g, 5); g.nontrivial(); std::vector<XYZ> P; std::vector<XYZW> W; std::vector<double> K; std::vector<int> I; std::vector<UV> T; for (int i = 0, n = g.integer(0, 4); i < n; i++) { P.push_back(genPoint(g, 5)); W.push_back(XYZW(P.back(), 0.5 + g.unit())); K.push_back(i * 0.25); I.push_back(g.integer(0, 9)); T.push_back(UV(g.unit(), g.unit())); } std::vector<std::vector<XYZ>> PP{P, P}; std::vector<std::vector<XYZW>> WW{W, W}; std::vector<std::vector<int>> II{I, I}; int d = g.integer(1, 7); g.note([&](std::ostream& o) { o << P << K << d; });
    { LN_BezierCurve<XYZ> o; FIELD(o, Degree, d); FIELD(o, ControlPoints, P); } { LN_BezierCurve<XYZW> o; FIELD(o, Degree, d); FIELD(o, ControlPoints, W); } { LN_BsplineCurve<XYZ> o; FIELD(o, Degree, d); FIELD(o, KnotVector, K); FIELD(o, ControlPoints, P); } { LN_NurbsCurve o; FIELD(o, Degree, d); FIELD(o, KnotVector, K); FIELD(o, ControlPoints, W); }
    { LN_BezierSurface<XYZ> o{}; FIELD(o, DegreeU, d); FIELD(o, DegreeV, d + 1); FIELD(o, ControlPoints, PP); } { LN_BezierSurface<XYZW> o{}; FIELD(o, DegreeU, d); FIELD(o, DegreeV, d + 1); FIELD(o, ControlPoints, WW); } { LN_BsplineSurface<XYZ> o{}; FIELD(o, DegreeU, d); FIELD(o, DegreeV, d + 1); FIELD(o, KnotVectorU, K); FIELD(o, KnotVectorV, std::vector<double>(2, 0.5)); FIELD(o, ControlPoints, PP); } { LN_NurbsSurface o{}; FIELD(o, DegreeU, d); FIELD(o, DegreeV, d + 1); FIELD(o, KnotVectorU, K); FIELD(o, KnotVectorV, std::vector<double>(2, 0.5)); FIELD(o, ControlPoints, WW); }
    { LN_Mesh o; FIELD(o, Vertices, P); FIELD(o, Faces, II); FIELD(o, UVs, T); FIELD(o, UVIndices, I); FIELD(o, Normals, P); FIELD(o, NormalIndices, I); } { LN_ArcInfo o; FIELD(o, Radius, a[0]); FIELD(o, Center, b); } LN_BoundingBox3d x; FIELD(x, MinPoint, a); FIELD(x, MaxPoint, a + XYZ(1, 1, 1) * 3.0); LN_BoundingBox3d y; y.MinPoint = b; y.MaxPoint = b + XYZ(1, 1, 1) * 2.0; { LN_BoundingBox3d z = x; METH("LN_BoundingBox3d", z, "Intersects", y, z.Intersects(y)); }
    LN_OrientedBoundingBox3d o{}; FIELD(o, Center, a); py::object po = py::cast(o); put(po, "Axes", std::vector<XYZ>{a, b, a + b}); o.Axes[0] = a; o.Axes[1] = b; o.Axes[2] = a + b; put(po, "HalfExtents", std::vector<double>{1.5, a[0], b[0]}); o.HalfExtents[0] = 1.5; o.HalfExtents[1] = a[0]; o.HalfExtents[2] = b[0]; REQUIRE(eq(po, o), "oriented box fields"); REQUIRE(eq(get(po, "Axes"), std::vector<XYZ>{a, b, a + b}) && eq(get(po, "HalfExtents"), std::vector<double>{1.5, a[0], b[0]}), "oriented box fields do not come back");
    for (const char* n : {"LN_BezierCurve_XYZ", "LN_BezierCurve_XYZW", "LN_BsplineCurve_XYZ", "LN_NurbsCurve", "LN_BezierSurface_XYZ", "LN_BezierSurface_XYZW", "LN_BsplineSurface_XYZ", "LN_NurbsSurface", "LN_Mesh", "LN_ArcInfo", "LN_BoundingBox3d", "LN_OrientedBoundingBox3d"}) REQUIRE(call(n, "__init__").t == cls(n)->type, n << "() is of another class"); REQUIRE(cls("LN_NurbsCurve")->type == std::type_index(typeid(LN_NurbsCurve)) && cls("LN_NurbsSurface")->type == std::type_index(typeid(LN_NurbsSurface)) && cls("LN_BezierCurve_XYZ")->type == std::type_index(typeid(LN_BezierCurve<XYZ>)) && cls("LN_BezierSurface_XYZW")->type == std::type_index(typeid(LN_BezierSurface<XYZW>)), "class names");
    names<CurveCurveIntersectionType>("CurveCurveIntersectionType", {{"Intersecting", CurveCurveIntersectionType::Intersecting}, {"Parallel", CurveCurveIntersectionType::Parallel}, {"Coincident", CurveCurveIntersectionType::Coincident}, {"Skew", CurveCurveIntersectionType::Skew}}); names<LinePlaneIntersectionType>("LinePlaneIntersectionType", {{"Intersecting", LinePlaneIntersectionType::Intersecting}, {"Parallel", LinePlaneIntersectionType::Parallel}, {"On", LinePlaneIntersectionType::On}}); names<CurveNormal>("CurveNormal", {{"Normal", CurveNormal::Normal}, {"Binormal", CurveNormal::Binormal}}); names<SurfaceDirection>("SurfaceDirection", {{"All", SurfaceDirection::All}, {"UDirection", SurfaceDirection::UDirection}, {"VDirection", SurfaceDirection::VDirection}}); names<SurfaceCurvature>("SurfaceCurvature", {{"Maximum", SurfaceCurvature::Maximum}, {"Minimum", SurfaceCurvature::Minimum}, {"Gauss", SurfaceCurvature::Gauss}, {"Mean", SurfaceCurvature::Mean}, {"Abs", SurfaceCurvature::Abs}, {"Rms", SurfaceCurvature::Rms}}); names<IntegratorType>("IntegratorType", {{"Simpson", IntegratorType::Simpson}, {"GaussLegendre", IntegratorType::GaussLegendre}, {"Chebyshev", IntegratorType::Chebyshev}}); names<OffsetType>("OffsetType", {{"TillerAndHanson", OffsetType::TillerAndHanson}, {"PieglAndTiller", OffsetType::PieglAndTiller}}); names<ExtensionType>("ExtensionType", {{"Tangent", ExtensionType::Tangent}, {"Arc", ExtensionType::Arc}, {"Natural", ExtensionType::Natural}}); names<VolumeDirection>("VolumeDirection", {{"U", VolumeDirection::U}, {"V", VolumeDirection::V}, {"W", VolumeDirection::W}});
}
LAW(polynomials_and_knots, 6000, 150000) {
    int p = genDegree(g); KnotOpt ko; ko.maxInterior = 5; Knots k = genKnots(g, p, ko); const auto& U = k.U; int n = (int)U.size(); double t = genParam(g, k), x = g.unit(); g.nontrivial(); g.note([&](std::ostream& o) { o << p << " " << U << " at " << t; }); int sp = Polynomials::GetKnotSpanIndex(p, U, t), der = g.integer(0, p), at = g.integer(0, n - p - 2), i = g.integer(0, p); std::vector<double> co; for (int j = 0; j <= p; j++) co.push_back(g.coord(3)); int q = g.integer(1, 4); std::vector<std::vector<double>> c(p + 1, std::vector<double>(q + 1)); for (auto& r : c) for (auto& v : r) v = g.coord(3); UV uv(g.unit(), g.unit());
    PY("Polynomials", "Horner", ARGS(p, co, x), Polynomials::Horner(p, co, x)); PY("Polynomials", "Horner", ARGS(p, q, c, uv), Polynomials::Horner(p, q, c, uv)); PY("Polynomials", "Bernstein", ARGS(i, p, x), Polynomials::Bernstein(i, p, x)); PY("Polynomials", "AllBernstein", ARGS(p, x), Polynomials::AllBernstein(p, x)); PY("Polynomials", "GetKnotMultiplicity", ARGS(U, t), Polynomials::GetKnotMultiplicity(U, t)); PY("Polynomials", "GetKnotSpanIndex", ARGS(p, U, t), sp); PY("Polynomials", "BasisFunctionsDerivatives", ARGS(sp, p, der, U, t), Polynomials::BasisFunctionsDerivatives(sp, p, der, U, t)); PY("Polynomials", "OneBasisFunction", ARGS(at, p, U, t), Polynomials::OneBasisFunction(at, p, U, t)); PY("Polynomials", "OneBasisFunctionDerivative", ARGS(at, p, der, U, t), Polynomials::OneBasisFunctionDerivative(at, p, der, U, t)); PY("Polynomials", "AllBasisFunctions", ARGS(sp, p, U, t), Polynomials::AllBasisFunctions(sp, p, U, t)); PY("Polynomials", "BezierToPowerMatrix", p, Polynomials::BezierToPowerMatrix(p)); auto m = Polynomials::BezierToPowerMatrix(p); PY("Polynomials", "PowerToBezierMatrix", ARGS(p, m), Polynomials::PowerToBezierMatrix(p, m));
    double N[Constants::NURBSMaxDegree + 1] = {}, D[2][Constants::NURBSMaxDegree + 1] = {}; Polynomials::BasisFunctions(sp, p, U, t, N); Polynomials::BasisFunctionsFirstOrderDerivative(sp, p, U, t, D); auto pn = call("Polynomials", "BasisFunctions", sp, p, U, t), pd = call("Polynomials", "BasisFunctionsFirstOrderDerivative", sp, p, U, t); REQUIRE((int)pn.items.size() > p && pd.items.size() == 2 && (int)pd.items[0].items.size() > p && (int)pd.items[1].items.size() > p, "basis values are missing"); for (int j = 0; j <= p; j++) REQUIRE(eq(pn.items[j], N[j]) && eq(pd.items[0].items[j], D[0][j]) && eq(pd.items[1].items[j], D[1][j]), "basis functions differ");
    double lo = g.coord(4), hi = lo + g.real(0.5, 3); PY("KnotVectorUtils", "GetContinuity", ARGS(p, U, t), KnotVectorUtils::GetContinuity(p, U, t)); PY("KnotVectorUtils", "Rescale", ARGS(U, lo, hi), KnotVectorUtils::Rescale(U, lo, hi)); double s0 = k.lo() + (k.hi() - k.lo()) * 0.4 * g.unit(), s1 = k.hi() - (k.hi() - k.lo()) * 0.4 * g.unit(); PY("KnotVectorUtils", "GetInsertedKnotElement", ARGS(p, U, s0, s1), KnotVectorUtils::GetInsertedKnotElement(p, U, s0, s1)); PY("KnotVectorUtils", "GetKnotMultiplicityMap", U, KnotVectorUtils::GetKnotMultiplicityMap(U)); PY("KnotVectorUtils", "GetInternalKnotMultiplicityMap", U, KnotVectorUtils::GetInternalKnotMultiplicityMap(U)); PY("KnotVectorUtils", "IsUniform", U, KnotVectorUtils::IsUniform(U)); Knots k2 = genKnots(g, p, ko); auto R = KnotVectorUtils::Rescale(k2.U, U.front(), U.back()); PY("KnotVectorUtils", "GetInsertedKnotElement", ARGS(U, R), ([&] { std::vector<double> a, b; KnotVectorUtils::GetInsertedKnotElement(U, R, a, b); return std::make_tuple(a, b); }())); std::vector<std::vector<double>> both{U, R}; PY("KnotVectorUtils", "GetInsertedKnotElements", both, KnotVectorUtils::GetInsertedKnotElements(both)); int ins = g.integer(1, 5); PY("KnotVectorUtils", "GetInsertedKnotElements", ARGS(ins, U), KnotVectorUtils::GetInsertedKnotElements(ins, U));
    auto bad = U; if (g.chance(1, 2) && n > 3) std::swap(bad[g.integer(0, n - 1)], bad[g.integer(0, n - 1)]); int d1 = g.integer(0, 6), k1 = g.integer(0, 14), c1 = g.integer(0, 9); PY("ValidationUtils", "IsValidKnotVector", bad, ValidationUtils::IsValidKnotVector(bad)); PY("ValidationUtils", "IsValidBezier", ARGS(d1, c1), ValidationUtils::IsValidBezier(d1, c1)); PY("ValidationUtils", "IsValidBspline", ARGS(d1, k1, c1), ValidationUtils::IsValidBspline(d1, k1, c1)); PY("ValidationUtils", "IsValidNurbs", ARGS(d1, k1, c1), ValidationUtils::IsValidNurbs(d1, k1, c1)); PY("ValidationUtils", "IsValidDegreeReduction", d1, ValidationUtils::IsValidDegreeReduction(d1));
    std::vector<XYZW> W; for (int j = 0; j < 4; j++) W.push_back(XYZW(genPoint(g, 5), 0.3 + g.unit())); PY("ValidationUtils", "ComputeCurveModifyTolerance", W, ValidationUtils::ComputeCurveModifyTolerance(W));
}
LAW(lines_and_beziers, 8000, 200000) {
    XYZ a = genPoint(g, 10), b = genPoint(g, 10), c = genPoint(g, 10), d = genPoint(g, 10); g.nontrivial(); if (b.Length() < 0.1) b = XYZ(1, 2, 0); if (d.Length() < 0.1) d = XYZ(0, 1, 2); if (g.chance(1, 4)) d = b * g.real(0.5, 2); if (g.chance(1, 4)) c = a + b * g.coord(2); if (g.chance(1, 4)) c = a + b * g.coord(2) + d * g.coord(2); g.note([&](std::ostream& o) { o << a << b << c << d; });
    PY("Intersection", "ComputeRays", ARGS(a, b, c, d), ([&] { double s = 0, t = 0; XYZ i; auto ty = Intersection::ComputeRays(a, b, c, d, s, t, i); return std::make_tuple(ty, s, t, i); }())); PY("Intersection", "ComputeLineAndPlane", ARGS(b, a, c, d), ([&] { XYZ i; auto ty = Intersection::ComputeLineAndPlane(b, a, c, d, i); return std::make_tuple(ty, i); }())); PY("Projection", "PointToRay", ARGS(a, b, c), Projection::PointToRay(a, b, c)); PY("Projection", "PointToLine", ARGS(a, a + b, c), ([&] { XYZ q; bool ok = Projection::PointToLine(a, a + b, c, q); return ifOk(ok, q); }())); { double r = g.real(0.5, 4); XYZ s = XYZ(b).Normalize() * r; PY("Projection", "Stereographic", ARGS(s, r), Projection::Stereographic(s, r)); }
    int bd = g.integer(1, 5); LN_BezierCurve<XYZ> bc; LN_BezierCurve<XYZW> bw; bc.Degree = bw.Degree = bd; for (int i = 0; i <= bd; i++) { bc.ControlPoints.push_back(genPoint(g, 5)); bw.ControlPoints.push_back(XYZW(bc.ControlPoints.back(), 0.3 + g.unit())); } double t = g.unit(); PY("BezierCurve", "GetPointOnCurveByBernstein_XYZ", ARGS(bc, t), BezierCurve::GetPointOnCurveByBernstein(bc, t)); PY("BezierCurve", "GetPointOnCurveByBernstein_XYZW", ARGS(bw, t), BezierCurve::GetPointOnCurveByBernstein(bw, t)); PY("BezierCurve", "GetPointOnCurveByDeCasteljau_XYZ", ARGS(bc, t), BezierCurve::GetPointOnCurveByDeCasteljau(bc, t)); PY("BezierCurve", "GetPointOnCurveByDeCasteljau_XYZW", ARGS(bw, t), BezierCurve::GetPointOnCurveByDeCasteljau(bw, t));
    int r = g.integer(2, 5), cc = g.integer(2, 5); LN_BezierSurface<XYZ> bs; LN_BezierSurface<XYZW> bsw; bs.DegreeU = bsw.DegreeU = r - 1; bs.DegreeV = bsw.DegreeV = cc - 1; bs.ControlPoints.resize(r); bsw.ControlPoints.resize(r); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) { bs.ControlPoints[i].push_back(genPoint(g, 5)); bsw.ControlPoints[i].push_back(XYZW(bs.ControlPoints[i].back(), 0.3 + g.unit())); } UV uv(g.unit(), g.unit()); PY("BezierSurface", "GetPointOnSurfaceByDeCasteljau_XYZ", ARGS(bs, uv), BezierSurface::GetPointOnSurfaceByDeCasteljau(bs, uv)); PY("BezierSurface", "GetPointOnSurfaceByDeCasteljau_XYZW", ARGS(bsw, uv), BezierSurface::GetPointOnSurfaceByDeCasteljau(bsw, uv));
}
LAW(curve_queries, 2000, 60000) {
    auto gc = genRegular(g, small(), 0.7); const auto& c = gc.c; double t = genParam(g, gc.k); g.nontrivial(); g.note([&](std::ostream& o) { o << c << " at " << t; }); XYZ q = genPoint(g, 10); int k = g.integer(1, c.Degree);
    PY("NurbsCurve", "Check", c, VOID(NurbsCurve::Check(c))); { auto bad = c; if (g.boolean()) bad.Degree++; else bad.KnotVector[0] += 1e9; PY("NurbsCurve", "Check", bad, VOID(NurbsCurve::Check(bad))); } PY("NurbsCurve", "GetPointOnCurve", ARGS(c, t), NurbsCurve::GetPointOnCurve(c, t)); PY("NurbsCurve", "GetPointOnCurve", ARGS(c, gc.k.hi() + 1.0), NurbsCurve::GetPointOnCurve(c, gc.k.hi() + 1.0)); PY("NurbsCurve", "GetPointOnCurveByCornerCut", ARGS(c, t), NurbsCurve::GetPointOnCurveByCornerCut(c, t)); PY("NurbsCurve", "ComputeRationalCurveDerivatives", ARGS(c, k, t), NurbsCurve::ComputeRationalCurveDerivatives(c, k, t)); PY("NurbsCurve", "CanComputeDerivative", ARGS(c, t), NurbsCurve::CanComputeDerivative(c, t)); PY("NurbsCurve", "Curvature", ARGS(c, t), NurbsCurve::Curvature(c, t)); PY("NurbsCurve", "Torsion", ARGS(c, t), NurbsCurve::Torsion(c, t)); for (auto n : {CurveNormal::Normal, CurveNormal::Binormal}) PY("NurbsCurve", "Normal", ARGS(c, n, t), NurbsCurve::Normal(c, n, t)); REQUIRE(call("NurbsCurve", "ProjectNormal", c).items.size() == NurbsCurve::ProjectNormal(c).size(), "one normal per knot");
    PY("NurbsCurve", "IsClosed", c, NurbsCurve::IsClosed(c)); PY("NurbsCurve", "IsLinear", c, NurbsCurve::IsLinear(c)); PY("NurbsCurve", "IsClamp", c, NurbsCurve::IsClamp(c)); PY("NurbsCurve", "IsPeriodic", c, NurbsCurve::IsPeriodic(c)); PY("NurbsCurve", "DecomposeToBeziers", c, NurbsCurve::DecomposeToBeziers(c)); PY("NurbsCurve", "EquallyTessellate", c, ([&] { std::vector<XYZ> P; std::vector<double> K; NurbsCurve::EquallyTessellate(c, P, K); return std::make_tuple(P, K); }())); if (g.chance(1, 3)) { LN_NurbsCurve arc; NurbsCurve::CreateArc(q, XYZ(1, 0, 0), XYZ(0, 1, 0), 0, g.real(0.5, 6), 3, 3, arc); PY("NurbsCurve", "IsArc", arc, ([&] { LN_ArcInfo i; bool ok = NurbsCurve::IsArc(arc, i); return ifOk(ok, i); }())); }
    int idx = g.integer(c.Degree + 1, std::max(c.Degree + 1, (int)c.KnotVector.size() - c.Degree - 2)); if (c.KnotVector.size() > 2 * (size_t)c.Degree + 2) { while (idx + 1 < (int)c.KnotVector.size() && c.KnotVector[idx + 1] == c.KnotVector[idx]) idx++; PY("NurbsCurve", "ComputerRemoveKnotErrorBound", ARGS(c, idx), NurbsCurve::ComputerRemoveKnotErrorBound(c, idx)); }
    if (g.chance(1, 12)) { PY("NurbsCurve", "GetParamOnCurve", ARGS(c, q), NurbsCurve::GetParamOnCurve(c, q)); if (c.Degree > 1) { static const IntegratorType T[] = {IntegratorType::Simpson, IntegratorType::GaussLegendre, IntegratorType::Chebyshev}; IntegratorType ty = T[g.integer(0, 2)]; double L = NurbsCurve::ApproximateLength(c); double lo = gc.k.lo() + (gc.k.hi() - gc.k.lo()) * 0.3 * g.unit(), hi = gc.k.hi() - (gc.k.hi() - gc.k.lo()) * 0.3 * g.unit(); PY("NurbsCurve", "ApproximateLength", c, L); PY("NurbsCurve", "ApproximateLength", ARGS(c, ty), NurbsCurve::ApproximateLength(c, ty)); PY("NurbsCurve", "ApproximateLength", ARGS(c, lo, hi), NurbsCurve::ApproximateLength(c, lo, hi)); PY("NurbsCurve", "ApproximateLength", ARGS(c, lo, hi, ty), NurbsCurve::ApproximateLength(c, lo, hi, ty)); if (ty == IntegratorType::Simpson) ty = IntegratorType::Chebyshev; double part = L * (0.1 + 0.8 * g.unit()); PY("NurbsCurve", "GetParamOnCurve", ARGS(c, part), NurbsCurve::GetParamOnCurve(c, part)); PY("NurbsCurve", "GetParamOnCurve", ARGS(c, part, ty), NurbsCurve::GetParamOnCurve(c, part, ty)); PY("NurbsCurve", "GetParamsOnCurve", ARGS(c, L / 3.5), NurbsCurve::GetParamsOnCurve(c, L / 3.5)); PY("NurbsCurve", "GetParamsOnCurve", ARGS(c, L / 3.5, ty), NurbsCurve::GetParamsOnCurve(c, L / 3.5, ty)); PY("NurbsCurve", "Tessellate", c, NurbsCurve::Tessellate(c)); g.tag("lengths"); } }
}
LAW(curve_operations, 3000, 90000) {
    auto gc = genCurve(g, small()); const auto& c = gc.c; double lo = gc.k.lo(), hi = gc.k.hi(), t = genParam(g, gc.k, false); int times = g.integer(1, 3); g.nontrivial(); g.note([&](std::ostream& o) { o << c << " at " << t << " times " << times; }); double a = lo + (hi - lo) * 0.4 * g.unit(), b = hi - (hi - lo) * 0.4 * g.unit(); XYZ q = genPoint(g, 5), d = genPoint(g, 5); if (d.Length() < 0.2) d = XYZ(0, 0, 1);
    PY("NurbsCurve", "InsertKnot", ARGS(c, t, times), ([&] { LN_NurbsCurve out; int n = NurbsCurve::InsertKnot(c, t, times, out); return std::make_tuple(n, out); }())); { LN_NurbsCurve i; NurbsCurve::InsertKnot(c, t, 1, i); PY("NurbsCurve", "RemoveKnot", ARGS(i, t, 1), OKC(NurbsCurve::RemoveKnot(i, t, 1, out))); PY("NurbsCurve", "RemoveExcessiveKnots", i, OUTC(NurbsCurve::RemoveExcessiveKnots(i, out))); } PY("NurbsCurve", "RemoveKnot", ARGS(c, t, times), OKC(NurbsCurve::RemoveKnot(c, t, times, out)));
    std::vector<double> X; for (int i = 0, n = g.integer(1, 3); i < n; i++) X.push_back(lo + (hi - lo) * (0.02 + 0.96 * g.unit())); std::sort(X.begin(), X.end()); PY("NurbsCurve", "RefineKnotVector", ARGS(c, X), OUTC(NurbsCurve::RefineKnotVector(c, X, out))); PY("NurbsCurve", "ElevateDegree", ARGS(c, times), OUTC(NurbsCurve::ElevateDegree(c, times, out))); { LN_NurbsCurve e; NurbsCurve::ElevateDegree(c, 1, e); PY("NurbsCurve", "ReduceDegree", e, OKC(NurbsCurve::ReduceDegree(e, out))); PY("NurbsCurve", "ReduceDegree", c, OKC(NurbsCurve::ReduceDegree(c, out))); }
    PY("NurbsCurve", "Reverse", c, OUTC(NurbsCurve::Reverse(c, out))); PY("NurbsCurve", "Reparametrize", ARGS(c, a - 1, b + 2), OUTC(NurbsCurve::Reparametrize(c, a - 1, b + 2, out))); double al = g.real(0.5, 2), ga = 0.05 * g.unit(), de = 1 + g.unit(); PY("NurbsCurve", "Reparametrize", ARGS(c, al, 0.25, ga, de), OUTC(NurbsCurve::Reparametrize(c, al, 0.25, ga, de, out))); Matrix4d r = Matrix4d::CreateRotation(XYZ(1, 2, 3), g.coord(3)), m = Matrix4d::CreateTranslation(q).Multiply(r); PY("NurbsCurve", "CreateTransformed", ARGS(c, m), OUTC(NurbsCurve::CreateTransformed(c, m, out))); PY("NurbsCurve", "Extract", ARGS(c, a, b), OUTC(NurbsCurve::Extract(c, a, b, out))); PY("NurbsCurve", "ToUnclampCurve", c, OUTC(NurbsCurve::ToUnclampCurve(c, out))); { LN_NurbsCurve u; NurbsCurve::ToUnclampCurve(c, u); PY("NurbsCurve", "ToClampCurve", u, OUTC(NurbsCurve::ToClampCurve(u, out))); PY("NurbsCurve", "IsClamp", u, NurbsCurve::IsClamp(u)); }
    PY("NurbsCurve", "SplitAt", ARGS(c, t), ([&] { LN_NurbsCurve l, r; bool ok = NurbsCurve::SplitAt(c, t, l, r); return ifOk(ok, l, r); }())); { LN_NurbsCurve l, r; if (NurbsCurve::SplitAt(c, t, l, r)) PY("NurbsCurve", "Merge", ARGS(l, r), OKC(NurbsCurve::Merge(l, r, out))); } double de2 = g.real(0.05, 0.5); bool st = g.boolean(); for (auto ty : {ExtensionType::Tangent, ExtensionType::Arc, ExtensionType::Natural}) if (g.chance(1, 6)) PY("NurbsCurve", "Extend", ARGS(c, de2, st, ty), OUTC(NurbsCurve::Extend(c, de2, st, ty, out)));
    int mi = g.integer(0, (int)c.ControlPoints.size() - 1); double dist = g.real(0.1, 1); PY("NurbsCurve", "ControlPointReposition", ARGS(c, t, mi, d, dist), OKC(NurbsCurve::ControlPointReposition(c, t, mi, d, dist, out))); PY("NurbsCurve", "WeightModification", ARGS(c, t, mi, dist), OUTC(NurbsCurve::WeightModification(c, t, mi, dist, out))); if (mi + 1 < (int)c.ControlPoints.size()) PY("NurbsCurve", "NeighborWeightsModification", ARGS(c, t, mi, dist, 1.5), OKC(NurbsCurve::NeighborWeightsModification(c, t, mi, dist, 1.5, out))); std::vector<double> sh; for (int i = 0, n = g.integer(3, 8); i < n; i++) sh.push_back(g.unit()); PY("NurbsCurve", "Warping", ARGS(c, sh, dist, d, a, b), OUTC(NurbsCurve::Warping(c, sh, dist, d, a, b, out))); PY("NurbsCurve", "Flattening", ARGS(c, q, q + 20 * d, a, b), OKC(NurbsCurve::Flattening(c, q, q + 20 * d, a, b, out))); PY("NurbsCurve", "Bending", ARGS(c, a, b, q, 3.0, 0.5), OUTC(NurbsCurve::Bending(c, a, b, q, 3, 0.5, out))); if (c.ControlPoints.size() >= 4) { std::vector<double> cp{a, b}; std::vector<XYZ> dc{q * 0.1, d * 0.1}; std::vector<int> ai{0, 1}, ad{0, 0}, fx{0}; PY("NurbsCurve", "ConstraintBasedModification", ARGS(c, cp, dc, ai, ad, fx), OUTC(NurbsCurve::ConstraintBasedModification(c, cp, dc, ai, ad, fx, out))); }
    { std::vector<double> ps; for (int i = 0; i < 6; i++) ps.push_back(lo + (hi - lo) * i / 5); ps.back() = hi; PY("NurbsCurve", "RemoveKnotsByGivenBound", ARGS(c, ps, 0.5), ([&] { std::vector<double> e(ps.size(), 0.0); LN_NurbsCurve out; NurbsCurve::RemoveKnotsByGivenBound(c, ps, e, 0.5, out); return std::make_tuple(e, out); }())); }
}
LAW(curve_construction, 3000, 90000) {
    XYZ a = genPoint(g, 5), b = genPoint(g, 5), q = genPoint(g, 5); g.nontrivial(); double r1 = g.real(0.5, 4), r2 = g.real(0.5, 4), s = g.coord(3), e = s + g.real(0.2, 6); PY("NurbsCurve", "CreateLine", ARGS(a, b), OUTC(NurbsCurve::CreateLine(a, b, out))); XYZ X(1, 0, 0), Z(0, 0, 1); PY("NurbsCurve", "CreateArc", ARGS(q, X, Z, s, e, r1, r2), OKC(NurbsCurve::CreateArc(q, X, Z, s, e, r1, r2, out)));
    { XYZ p0(0, 0, 0), p2(4, g.coord(1), 0), t0(1, 1 + g.unit(), 0), t2(1, -1 - g.unit(), 0), m(2, 0.5 + g.unit(), 0); if (g.chance(1, 8)) t2 = t0; if (g.chance(1, 8)) m = XYZ(2, 0.5, 1); PY("NurbsCurve", "CreateOpenConic", ARGS(p0, t0, p2, t2, m), OKC(NurbsCurve::CreateOpenConic(p0, t0, p2, t2, m, out))); XYZ pp; double w = 0; bool ok = NurbsCurve::CreateOneConicArc(p0, t0, p2, t2, m, pp, w); PY("NurbsCurve", "CreateOneConicArc", ARGS(p0, t0, p2, t2, m), std::make_tuple(ok, pp, w)); if (ok) PY("NurbsCurve", "SplitArc", ARGS(p0, pp, w, p2, 0.0), ([&] { XYZ x, y, z; double iw = 0; NurbsCurve::SplitArc(p0, pp, w, p2, x, y, z, iw); return std::make_tuple(x, y, z, iw); }())); }
    int n = g.integer(4, 9); std::vector<XYZ> P, T; for (int i = 0; i < n; i++) { double u = 0.6 * g.unit(), v = g.coord(3), w = g.coord(3); P.push_back(XYZ(2 * i + u, v, w)); v = 0.3 * g.coord(1); w = 0.3 * g.coord(1); T.push_back(XYZ(1, v, w)); } g.note([&](std::ostream& o) { o << P << T; }); int p = g.integer(1, 3), pt = g.integer(2, 3); std::vector<double> ps; for (int i = 0; i < n; i++) ps.push_back((double)i / (n - 1)); PY("NurbsCurve", "CreateCubicHermite", ARGS(P, T), OUTC(NurbsCurve::CreateCubicHermite(P, T, out))); PY("NurbsCurve", "GlobalInterpolation", ARGS(p, P), OUTC(NurbsCurve::GlobalInterpolation(p, P, out))); PY("NurbsCurve", "GlobalInterpolation", ARGS(p, P, ps), OUTC(NurbsCurve::GlobalInterpolation(p, P, out, ps))); PY("NurbsCurve", "GlobalInterpolation", ARGS(pt, P, T, 1.0), OUTC(NurbsCurve::GlobalInterpolation(pt, P, T, 1.0, out))); PY("NurbsCurve", "CubicLocalInterpolation", P, OKC(NurbsCurve::CubicLocalInterpolation(P, out))); int cp = g.integer(p + 1, std::max(p + 1, n - 1)); PY("NurbsCurve", "LeastSquaresApproximation", ARGS(p, P, cp), OKC(NurbsCurve::LeastSquaresApproximation(p, P, cp, out))); std::vector<double> w; for (int i = 0; i < n; i++) w.push_back(0.5 + g.unit()); std::vector<int> ti{0}; std::vector<XYZ> tt{T[0]}; std::vector<double> tw{1.0}; PY("NurbsCurve", "WeightedAndContrainedLeastSquaresApproximation", ARGS(p, P, w, tt, ti, tw, cp), OKC(NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, P, w, tt, ti, tw, cp, out))); if (g.chance(1, 3)) PY("NurbsCurve", "GlobalApproximationByErrorBound", ARGS(p, P, 0.5), OUTC(NurbsCurve::GlobalApproximationByErrorBound(p, P, 0.5, out)));
    PY("NurbsCurve", "FitWithConic", ARGS(P, 0, n - 1, T[0], T[n - 1], 2.0), ([&] { std::vector<XYZW> m; bool ok = NurbsCurve::FitWithConic(P, 0, n - 1, T[0], T[n - 1], 2.0, m); return ifOk(ok, m); }())); PY("NurbsCurve", "FitWithCubic", ARGS(P, 0, n - 1, T[0], T[n - 1], 2.0), ([&] { std::vector<XYZW> m; bool ok = NurbsCurve::FitWithCubic(P, 0, n - 1, T[0], T[n - 1], 2.0, m); return ifOk(ok, m); }()));
    if (g.chance(1, 20)) { auto o = small(); o.minDegree = 2; o.maxDegree = 3; auto c = genRegular(g, o, 0.3); std::vector<XYZ> Q; std::vector<double> w; for (auto& x : c.c.ControlPoints) { XYZ y = x.ToXYZ(true); y[2] = 0; Q.push_back(y); w.push_back(x[3]); } finish(c, Q, w); auto th = OffsetType::TillerAndHanson, pt = OffsetType::PieglAndTiller; PY("NurbsCurve", "Offset", ARGS(c.c, 0.3, th), OUTC(NurbsCurve::Offset(c.c, 0.3, th, out))); LN_NurbsCurve arc; NurbsCurve::CreateArc(q, X, Z, 0, 1.2, 3, 3, arc); PY("NurbsCurve", "Offset", ARGS(arc, 0.3, pt), OUTC(NurbsCurve::Offset(arc, 0.3, pt, out))); g.tag("offset"); }
}
LAW(surface_queries, 1000, 30000) {
    SurfOpt so; so.maxDegree = 4; so.graph = true; auto gs = genSurface(g, so); const auto& s = gs.s; UV uv(genParam(g, gs.ku), 0); uv[1] = genParam(g, gs.kv); g.nontrivial(); g.note([&](std::ostream& os) { os << s << " at " << uv; }); int k = g.integer(1, 3); bool U = g.boolean(); double iso = U ? uv[0] : uv[1]; PY("NurbsSurface", "Check", s, VOID(NurbsSurface::Check(s))); { auto bad = s; bad.DegreeU++; PY("NurbsSurface", "Check", bad, VOID(NurbsSurface::Check(bad))); } PY("NurbsSurface", "GetPointOnSurface", ARGS(s, uv), NurbsSurface::GetPointOnSurface(s, uv)); PY("NurbsSurface", "GetIsoCurve", ARGS(s, iso, U), NurbsSurface::GetIsoCurve(s, iso, U)); PY("NurbsSurface", "ComputeRationalSurfaceDerivatives", ARGS(s, k, uv), NurbsSurface::ComputeRationalSurfaceDerivatives(s, k, uv)); PY("NurbsSurface", "ComputeRationalSurfaceFirstOrderDerivative", ARGS(s, uv), ([&] { XYZ a, b, c; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, uv, a, b, c); return std::make_tuple(a, b, c); }())); static const SurfaceCurvature K[] = {SurfaceCurvature::Maximum, SurfaceCurvature::Minimum, SurfaceCurvature::Gauss, SurfaceCurvature::Mean, SurfaceCurvature::Abs, SurfaceCurvature::Rms}; SurfaceCurvature cv = K[g.integer(0, 5)]; PY("NurbsSurface", "Curvature", ARGS(s, cv, uv), NurbsSurface::Curvature(s, cv, uv)); PY("NurbsSurface", "GetBoundingBox", s, NurbsSurface::GetBoundingBox(s)); PY("NurbsSurface", "GetOrientedBoundingBox", s, NurbsSurface::GetOrientedBoundingBox(s)); PY("NurbsSurface", "Normal", ARGS(s, uv), NurbsSurface::Normal(s, uv)); PY("NurbsSurface", "IsClosed", ARGS(s, U), NurbsSurface::IsClosed(s, U)); XYZ t = genPoint(g, 3); PY("NurbsSurface", "GetUVTangent", ARGS(s, uv, t), ([&] { UV w; bool ok = NurbsSurface::GetUVTangent(s, uv, t, w); return ifOk(ok, w); }()));
    if (g.chance(1, 25)) { XYZ q = genPoint(g, 10); PY("NurbsSurface", "GetParamOnSurface", ARGS(s, q), NurbsSurface::GetParamOnSurface(s, q)); PY("NurbsSurface", "GetParamOnSurfaceByGSA", ARGS(s, q), NurbsSurface::GetParamOnSurfaceByGSA(s, q)); PY("NurbsSurface", "ApproximateArea", s, NurbsSurface::ApproximateArea(s)); IntegratorType ty = g.boolean() ? IntegratorType::GaussLegendre : IntegratorType::Chebyshev; PY("NurbsSurface", "ApproximateArea", ARGS(s, ty), NurbsSurface::ApproximateArea(s, ty)); PY("NurbsSurface", "EquallyTessellate", s, ([&] { std::vector<XYZ> P; std::vector<UV> Q; NurbsSurface::EquallyTessellate(s, P, Q); return std::make_tuple(P, Q); }())); g.tag("inversion"); }
    if (g.chance(1, 8)) { int a = g.integer(2, 6), b = g.integer(2, 6); PY("NurbsSurface", "Triangulate", ARGS(s, a, b, false), NurbsSurface::Triangulate(s, a, b, false)); g.tag("mesh"); }
}
LAW(surface_operations, 1500, 45000) {
    SurfOpt so; so.maxDegree = 4; auto gs = genSurface(g, so); const auto& s = gs.s; bool U = g.boolean(); const Knots& k = U ? gs.ku : gs.kv; double t = genParam(g, k, false); int times = g.integer(1, 2); auto du = (SurfaceDirection)g.integer(0, 2); g.nontrivial(); g.note([&](std::ostream& os) { os << s << " at " << t << (U ? " u" : " v"); });
    PY("NurbsSurface", "Swap", s, OUTS(NurbsSurface::Swap(s, out))); PY("NurbsSurface", "Reverse", ARGS(s, du), OUTS(NurbsSurface::Reverse(s, du, out))); PY("NurbsSurface", "InsertKnot", ARGS(s, t, times, U), OUTS(NurbsSurface::InsertKnot(s, t, times, U, out))); std::vector<double> X; for (int i = 0, n = g.integer(1, 3); i < n; i++) X.push_back(k.lo() + (k.hi() - k.lo()) * (0.02 + 0.96 * g.unit())); std::sort(X.begin(), X.end()); PY("NurbsSurface", "RefineKnotVector", ARGS(s, X, U), OUTS(NurbsSurface::RefineKnotVector(s, X, U, out))); { LN_NurbsSurface i; NurbsSurface::InsertKnot(s, t, 1, U, i); PY("NurbsSurface", "RemoveKnot", ARGS(i, t, 1, U), OUTS(NurbsSurface::RemoveKnot(i, t, 1, U, out))); } PY("NurbsSurface", "ElevateDegree", ARGS(s, times, U), OUTS(NurbsSurface::ElevateDegree(s, times, U, out))); { LN_NurbsSurface e; NurbsSurface::ElevateDegree(s, 1, U, e); PY("NurbsSurface", "ReduceDegree", ARGS(e, U), OKS(NurbsSurface::ReduceDegree(e, U, out))); } PY("NurbsSurface", "Reparametrize", ARGS(s, -1.0, 2.0, 0.5, 3.0), OUTS(NurbsSurface::Reparametrize(s, -1, 2, 0.5, 3, out))); PY("NurbsSurface", "DecomposeToBeziers", s, NurbsSurface::DecomposeToBeziers(s));
}
LAW(surface_construction, 1500, 45000) {
    XYZ a = genPoint(g, 5), b = genPoint(g, 5), c = genPoint(g, 5), d = genPoint(g, 5), Y(0, 1, 0), Z(0, 0, 1), ax(1, 2, 2); g.nontrivial(); double rad = g.real(0.3, 6), r = g.real(0.5, 3); auto o = small(); o.maxDegree = 3; auto p = genCurve(g, o), q = genCurve(g, o); g.note([&](std::ostream& os) { os << p.c << q.c; }); PY("NurbsSurface", "CreateBilinearSurface", ARGS(a, b, c, d), OUTS(NurbsSurface::CreateBilinearSurface(a, b, c, d, out))); PY("NurbsSurface", "CreateCylindricalSurface", ARGS(a, Y, Z, 0.25, 0.25 + rad, r, 3.0), OKS(NurbsSurface::CreateCylindricalSurface(a, Y, Z, 0.25, 0.25 + rad, r, 3, out))); PY("NurbsSurface", "CreateRuledSurface", ARGS(p.c, q.c), OUTS(NurbsSurface::CreateRuledSurface(p.c, q.c, out))); PY("NurbsSurface", "CreateRevolvedSurface", ARGS(a, ax, rad, p.c), OKS(NurbsSurface::CreateRevolvedSurface(a, ax, rad, p.c, out))); PY("NurbsSurface", "CreateGeneralizedTranslationalSweepSurface", ARGS(p.c, q.c), OUTS(NurbsSurface::CreateGeneralizedTranslationalSweepSurface(p.c, q.c, out))); PY("NurbsSurface", "CreateSwungSurface", ARGS(p.c, q.c, r), OKS(NurbsSurface::CreateSwungSurface(p.c, q.c, r, out)));
    { int R = g.integer(2, 4), C = g.integer(2, 5); std::vector<std::vector<XYZW>> G(R, std::vector<XYZW>(C)); for (auto& x : G) for (auto& y : x) { XYZ z = genPoint(g, 3); y = XYZW(z, 0.5 + g.unit()); } PY("NurbsSurface", "NonUniformScaling", ARGS(G, 0.5, 2.0, r, a), NurbsSurface::NonUniformScaling(G, 0.5, 2, r, a)); }
    int R = g.integer(4, 6), C = g.integer(4, 6), pu = g.integer(1, 3), pv = g.integer(1, 3); std::vector<std::vector<XYZ>> G(R, std::vector<XYZ>(C)); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { double x = 0.3 * g.unit(), y = 0.3 * g.unit(); G[i][j] = XYZ(i + x, j + y, g.coord(2)); } PY("NurbsSurface", "GlobalInterpolation", ARGS(G, pu, pv), OUTS(NurbsSurface::GlobalInterpolation(G, pu, pv, out))); PY("NurbsSurface", "BicubicLocalInterpolation", G, OKS(NurbsSurface::BicubicLocalInterpolation(G, out))); int ru = g.integer(pu + 1, std::max(pu + 1, R - 1)), rv = g.integer(pv + 1, std::max(pv + 1, C - 1)); PY("NurbsSurface", "GlobalApproximation", ARGS(G, pu, pv, ru, rv), OKS(NurbsSurface::GlobalApproximation(G, pu, pv, ru, rv, out)));
    { std::vector<LN_NurbsCurve> sec; int n = g.integer(2, 4); for (int i = 0; i < n; i++) { auto x = genCurve(g, o); std::vector<XYZ> pts; for (auto& y : x.c.ControlPoints) pts.push_back(y.ToXYZ(true) + XYZ(0, 0, 20 * i)); finish(x, pts, std::vector<double>(pts.size(), 1.0)); sec.push_back(x.c); } PY("NurbsSurface", "CreateLoftSurface", sec, OUTS(NurbsSurface::CreateLoftSurface(sec, out))); std::vector<double> vs; for (int i = 0; i < n; i++) vs.push_back((double)i / (n - 1)); PY("NurbsSurface", "CreateLoftSurface", ARGS(sec, 1), OUTS(NurbsSurface::CreateLoftSurface(sec, out, 1))); PY("NurbsSurface", "CreateLoftSurface", ARGS(sec, 1, vs), OUTS(NurbsSurface::CreateLoftSurface(sec, out, 1, vs))); }
    { LN_NurbsCurve arc; NurbsCurve::CreateArc(a, XYZ(1, 0, 0), XYZ(0, 1, 0), 0, Constants::Pi / 2, r, r, arc); PY("NurbsSurface", "MakeCornerFilletSurface", arc, OUTS(NurbsSurface::MakeCornerFilletSurface(arc, out))); }
    { LN_NurbsCurve l, bt, rt, tp; NurbsCurve::CreateLine(d, a, l); NurbsCurve::CreateLine(a, b, bt); NurbsCurve::CreateLine(b, c, rt); NurbsCurve::CreateLine(c, d, tp); PY("NurbsSurface", "CreateCoonsSurface", ARGS(l, bt, rt, tp), OUTS(NurbsSurface::CreateCoonsSurface(l, bt, rt, tp, out))); }
    { int m = g.integer(2, 3), n = g.integer(2, 3); std::vector<LN_NurbsCurve> us, vs; std::vector<std::vector<XYZ>> I(m, std::vector<XYZ>(n)); XYZ ex(4, 0, 1), ey(1, 4, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) I[i][j] = a + ex * ((double)j / (n - 1)) + ey * ((double)i / (m - 1)); for (int i = 0; i < m; i++) { LN_NurbsCurve x; NurbsCurve::CreateLine(I[i][0], I[i][n - 1], x); us.push_back(x); } for (int j = 0; j < n; j++) { LN_NurbsCurve x; NurbsCurve::CreateLine(I[0][j], I[m - 1][j], x); vs.push_back(x); } PY("NurbsSurface", "CreateGordonSurface", ARGS(us, vs, I), OUTS(NurbsSurface::CreateGordonSurface(us, vs, I, out))); }
    { LN_NurbsCurve path; NurbsCurve::CreateLine(XYZ(0, 0, 0), XYZ(0, 0, 5), path); PY("NurbsSurface", "CreateSweepSurface", ARGS(p.c, path, 3), Shape{OUTS(NurbsSurface::CreateSweepSurface(p.c, path, 3, out))}); PY("NurbsSurface", "CreateSweepSurface", ARGS(p.c, path, 3, 2), Shape{OUTS(NurbsSurface::CreateSweepSurface(p.c, path, 3, 2, out))}); }
}
