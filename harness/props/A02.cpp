// A02: the result of a call depends on its arguments alone: not on what the output held before, on earlier calls, on left-over memory or on calls in other threads; and inputs are left as they were
#include "gen.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "ControlPointsUtils.h"
#include "FFT.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "KnotVectorUtils.h"
#include "Matrix4d.h"
#include "Projection.h"
#include "Voronoi.h"
#include "MathUtils.h"
#include <map>
#include <thread>
const char* pbt::RULE = "every case carries out a list of library calls on generated arguments several times under different circumstances; all are non-trivial";
static const bool tame = (extreme() = false);   // each call is made up to seven times: keep the arguments cheap
// what a call produced, bit by bit
struct Ser {
    std::vector<uint64_t> v; void put(double x) { uint64_t u; if (x == 0) x = 0; std::memcpy(&u, &x, 8); v.push_back(u); } void put(int x) { v.push_back((uint64_t)(int64_t)x); } void put(bool x) { v.push_back(x); } void put(size_t x) { v.push_back(x); }
    void put(const XYZ& p) { for (int i = 0; i < 3; i++) put(p[i]); } void put(const XYZW& p) { for (int i = 0; i < 4; i++) put(p[i]); } void put(const UV& p) { put(p[0]); put(p[1]); } void put(const UVW& p) { put(p.GetU()); put(p.GetV()); put(p.GetW()); }
    template <class T> void put(const std::vector<T>& a) { put(a.size()); for (const auto& x : a) put((T)x); }
    template <class T> void put(const LN_BsplineCurve<T>& c) { put(c.Degree); put(c.KnotVector); put(c.ControlPoints); }
    template <class T> void put(const LN_BsplineSurface<T>& c) { put(c.DegreeU); put(c.DegreeV); put(c.KnotVectorU); put(c.KnotVectorV); put(c.ControlPoints); }
    void put(const LN_NurbsVolume& c) { put(c.DegreeU); put(c.DegreeV); put(c.DegreeW); put(c.KnotVectorU); put(c.KnotVectorV); put(c.KnotVectorW); put(c.ControlPoints); }
    void put(const LN_Mesh& m) { put(m.Vertices); put(m.Faces); put(m.UVs); put(m.UVIndices); put(m.Normals); put(m.NormalIndices); }
    void put(const std::map<double, int>& m) { put(m.size()); for (auto& e : m) { put(e.first); put(e.second); } }
};
// what the outputs hold before a call
struct Dirt { LN_NurbsCurve c, c2; LN_NurbsSurface s; LN_NurbsVolume v; std::vector<double> d; std::vector<XYZ> x; std::vector<XYZW> w; double n = 0; XYZ p; };
static Dirt genDirt(Gen& g) { Dirt d; CurveOpt o; o.maxDegree = 4; d.c = genCurve(g, o).c; d.c2 = genCurve(g, o).c; SurfOpt so; so.maxDegree = 3; d.s = genSurface(g, so).s; VolOpt vo; vo.maxDegree = 2; d.v = genVolume(g, vo).v; for (int i = g.integer(1, 9); i > 0; i--) { d.d.push_back(g.coord(5)); d.x.push_back(genPoint(g)); d.w.push_back(XYZW(genPoint(g), 2)); } d.n = g.coord(9); d.p = genPoint(g); return d; }
struct Op { const char* name; std::function<void(const Dirt&, Ser&)> f; };
// left-over memory: what uninitialised locals and fresh blocks of the heap hold
static __attribute__((noinline)) void scribble(unsigned char b) { volatile unsigned char a[1 << 15]; for (size_t i = 0; i < sizeof a; i++) a[i] = b; asm volatile("" :: "r"(a) : "memory"); }
static Ser call(const Op& op, const Dirt& d) {
    Ser s; try { op.f(d, s); } catch (const pbt::Failure&) { throw; } catch (const std::invalid_argument&) { s.v.assign(1, 0xE1); } catch (const std::out_of_range&) { s.v.assign(1, 0xE2); } catch (const std::exception&) { s.v.assign(1, 0xE3); } return s;
}
// plain vectors handed out by reference (EquallyTessellate, FitWithConic) are filled up, not replaced, by design: they start empty
static void judge(Gen& g, const std::vector<Op>& all, const std::function<void(Ser&)>& inputs) {
    std::vector<Op> ops; for (int i = 0; i < 6; i++) { auto& op = all[g.integer(0, (int)all.size() - 1)]; ops.push_back(op); g.tag(op.name); } g.note([&](std::ostream& o) { for (auto& op : ops) o << ", " << op.name; });
    g.nontrivial(); Dirt clean, dirt = genDirt(g); Ser before; inputs(before); std::vector<Ser> first; auto same = [&](const Ser& a, size_t i, const char* how) { if (a.v == first[i].v) return; size_t k = 0; while (k < a.v.size() && k < first[i].v.size() && a.v[k] == first[i].v[k]) k++; auto show = [&](const Ser& s) { std::ostringstream o; if (k < s.v.size()) { double x; std::memcpy(&x, &s.v[k], 8); o << x << " (0x" << std::hex << s.v[k] << ")"; } else o << "nothing"; return o.str(); }; REQUIRE(false, ops[i].name << " gives another result " << how << ": value " << k << " of " << first[i].v.size() << " was " << show(first[i]) << ", is " << show(a)); };
    for (auto& op : ops) { scribble(0); first.push_back(call(op, clean)); } Ser after; inputs(after); REQUIRE(after.v == before.v, "an input was changed");
    for (size_t i = 0; i < ops.size(); i++) same(call(ops[i], dirt), i, "when its output held something else before");
    unsigned char pat[3] = {0xFF, 0x41, 0xBF}; for (size_t k = ops.size(); k-- > 0;) { scribble(pat[k % 3]); same(call(ops[k], clean), k, "the second time"); }
    if (g.chance(1, 3)) { g.tag("threads"); std::vector<std::vector<Ser>> r(4, std::vector<Ser>(ops.size())); std::vector<std::thread> th; for (int t = 0; t < 4; t++) th.emplace_back([&, t] { size_t n = ops.size(); for (size_t k = 0; k < n; k++) { size_t i = t % 2 ? n - 1 - k : k; r[t][i] = call(ops[i], t < 2 ? clean : dirt); } }); for (auto& t : th) t.join(); for (int t = 0; t < 4; t++) for (size_t i = 0; i < ops.size(); i++) same(r[t][i], i, "while other threads call the library"); }
    Ser end; inputs(end); REQUIRE(end.v == before.v, "an input was changed");
}
#define OP(name, ...) ops.push_back({name, [&](const Dirt& d, Ser& o) { __VA_ARGS__; }})
LAW(curves, 1600, 80000) {
    CurveOpt co; co.minDegree = 2; co.maxDegree = 5; auto a = genRegular(g, co), b = genRegular(g, co); auto &c = a.c, &e = b.c; double lo = a.k.lo(), hi = a.k.hi(), t = genParam(g, a.k), ti = genParam(g, a.k, false, false), t0 = lo + (hi - lo) * g.real(0, 0.4), t1 = lo + (hi - lo) * g.real(0.6, 1), off = g.real(-0.5, 0.5) * a.scale, w = g.real(0.1, 0.6) * a.scale; XYZ P = genPoint(g, a.scale), Q = genPoint(g, a.scale), D = genPoint(g, 1) + XYZ(0, 0, 1.5); int n = (int)c.ControlPoints.size(), k = g.integer(0, n - 1); Matrix4d M = Matrix4d::CreateTranslation(P); std::vector<double> shape(n, 0.5); double L = (hi - lo);
    std::vector<double> ins{ti, (t0 + t1) / 2}; std::sort(ins.begin(), ins.end()); g.note([&](std::ostream& s) { s << c << " and " << e << " t " << t << " " << ti; }); LN_NurbsCurve ref2; NurbsCurve::InsertKnot(c, ti, 1, ref2); const LN_NurbsCurve& fine = ref2; LN_NurbsCurve el; NurbsCurve::ElevateDegree(c, 1, el);
    LN_NurbsCurve un; NurbsCurve::ToUnclampCurve(c, un); LN_NurbsCurve tail = e; { XYZ s = NurbsCurve::GetPointOnCurve(c, hi) - NurbsCurve::GetPointOnCurve(e, e.KnotVector[0]); Matrix4d T = Matrix4d::CreateTranslation(s); LN_NurbsCurve x; NurbsCurve::CreateTransformed(e, T, x); tail = x; }
    std::vector<Op> ops;
    OP("GetPointOnCurve", o.put(NurbsCurve::GetPointOnCurve(c, t))); OP("ComputeRationalCurveDerivatives", o.put(NurbsCurve::ComputeRationalCurveDerivatives(c, 3, t))); OP("CanComputeDerivative", o.put(NurbsCurve::CanComputeDerivative(c, t))); OP("Curvature", o.put(NurbsCurve::Curvature(c, t))); OP("Torsion", o.put(NurbsCurve::Torsion(c, t))); OP("Normal", o.put(NurbsCurve::Normal(c, CurveNormal::Normal, t))); OP("GetPointOnCurveByCornerCut", o.put(NurbsCurve::GetPointOnCurveByCornerCut(c, t)));
    OP("InsertKnot", LN_NurbsCurve r = d.c; o.put(NurbsCurve::InsertKnot(c, ti, 1, r)); o.put(r)); OP("RefineKnotVector", LN_NurbsCurve r = d.c; NurbsCurve::RefineKnotVector(c, ins, r); o.put(r)); OP("DecomposeToBeziers", for (auto& q : NurbsCurve::DecomposeToBeziers(c)) o.put(q)); OP("RemoveKnot", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::RemoveKnot(fine, ti, 1, r); o.put(ok); if (ok) o.put(r)); OP("RemoveExcessiveKnots", LN_NurbsCurve r = d.c; NurbsCurve::RemoveExcessiveKnots(fine, r); o.put(r)); OP("ElevateDegree", LN_NurbsCurve r = d.c; NurbsCurve::ElevateDegree(c, 2, r); o.put(r)); OP("ReduceDegree", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::ReduceDegree(el, r); o.put(ok); if (ok) o.put(r));
    OP("EquallyTessellate", std::vector<XYZ> x; std::vector<double> y; NurbsCurve::EquallyTessellate(c, x, y); o.put(x); o.put(y)); OP("IsClosed", o.put(NurbsCurve::IsClosed(c))); OP("GetParamOnCurve", o.put(NurbsCurve::GetParamOnCurve(c, P))); OP("GetAllParamsOnCurve", o.put(NurbsCurve::GetAllParamsOnCurve(c, NurbsCurve::GetPointOnCurve(c, t)))); OP("CreateTransformed", LN_NurbsCurve r = d.c; NurbsCurve::CreateTransformed(c, M, r); o.put(r)); OP("Reparametrize", LN_NurbsCurve r = d.c; NurbsCurve::Reparametrize(c, 2, 5, r); o.put(r)); OP("Reparametrize rationally", LN_NurbsCurve r = d.c; NurbsCurve::Reparametrize(c, 2, 0, 0.1, 1 + fabs(hi) + fabs(lo), r); o.put(r)); OP("Reverse", LN_NurbsCurve r = d.c; NurbsCurve::Reverse(c, r); o.put(r));
    OP("SplitAt", LN_NurbsCurve r = d.c, q = d.c2; bool ok = NurbsCurve::SplitAt(c, ti, r, q); o.put(ok); if (ok) { o.put(r); o.put(q); }); OP("Extract", LN_NurbsCurve r = d.c; NurbsCurve::Extract(c, t0, t1, r); o.put(r)); OP("Merge", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::Merge(c, tail, r); o.put(ok); if (ok) o.put(r)); OP("Offset by Tiller and Hanson", LN_NurbsCurve r = d.c; NurbsCurve::Offset(c, off, OffsetType::TillerAndHanson, r); o.put(r));
    OP("ControlPointReposition", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::ControlPointReposition(c, t, k, D, w, r); o.put(ok); if (ok) o.put(r)); OP("WeightModification", LN_NurbsCurve r = d.c; NurbsCurve::WeightModification(c, t, k, w * 0.1, r); o.put(r)); OP("NeighborWeightsModification", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::NeighborWeightsModification(c, t, std::min(k, n - 2), w * 0.1, 0.5, r); o.put(ok); if (ok) o.put(r)); OP("Warping", LN_NurbsCurve r = d.c; NurbsCurve::Warping(c, shape, w, D, t0, t1, r); o.put(r)); OP("Flattening", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::Flattening(c, P, Q, t0, t1, r); o.put(ok); if (ok) o.put(r)); OP("Bending", LN_NurbsCurve r = d.c; NurbsCurve::Bending(c, t0, t1, P, a.scale * 2, 0.5, r); o.put(r)); OP("ConstraintBasedModification", LN_NurbsCurve r = d.c; NurbsCurve::ConstraintBasedModification(c, {t}, {P}, {0}, {0}, {}, r); o.put(r));
    OP("IsClamp", o.put(NurbsCurve::IsClamp(c))); OP("ToClampCurve", LN_NurbsCurve r = d.c; NurbsCurve::ToClampCurve(un, r); o.put(r)); OP("IsPeriodic", o.put(NurbsCurve::IsPeriodic(c))); OP("ToUnclampCurve", LN_NurbsCurve r = d.c; NurbsCurve::ToUnclampCurve(c, r); o.put(r)); OP("IsLinear", o.put(NurbsCurve::IsLinear(c))); OP("IsArc", LN_ArcInfo i; i.Radius = d.n; i.Center = d.p; i.IsCircle = d.n > 0; bool ok = NurbsCurve::IsArc(c, i); o.put(ok); if (ok) { o.put(i.Radius); o.put(i.Center); o.put(i.IsCircle); });
    for (auto ty : {IntegratorType::Simpson, IntegratorType::GaussLegendre, IntegratorType::Chebyshev}) { ops.push_back({"ApproximateLength", [&, ty](const Dirt&, Ser& o) { o.put(NurbsCurve::ApproximateLength(c, ty)); }}); ops.push_back({"ApproximateLength of a part", [&, ty](const Dirt&, Ser& o) { o.put(NurbsCurve::ApproximateLength(c, t0, t1, ty)); }}); }
    OP("GetParamOnCurve by length", o.put(NurbsCurve::GetParamOnCurve(c, NurbsCurve::ApproximateLength(c) * 0.4))); OP("GetParamsOnCurve", o.put(NurbsCurve::GetParamsOnCurve(c, NurbsCurve::ApproximateLength(c) / 3)));
    for (auto ty : {ExtensionType::Tangent, ExtensionType::Arc, ExtensionType::Natural}) for (bool st : {false, true}) ops.push_back({ty == ExtensionType::Natural ? "Extend naturally" : "Extend", [&, ty, st](const Dirt& d, Ser& o) { LN_NurbsCurve r = d.c; NurbsCurve::Extend(c, w, st, ty, r); o.put(r); }});
    OP("RemoveKnotsByGivenBound", LN_NurbsCurve r = d.c; std::vector<double> er{0, 0}; NurbsCurve::RemoveKnotsByGivenBound(fine, {t0, t1}, er, w, r); o.put(r); o.put(er)); OP("ComputerRemoveKnotErrorBound", int i = fine.Degree + 1; if (i < (int)fine.KnotVector.size() - fine.Degree - 1) o.put(NurbsCurve::ComputerRemoveKnotErrorBound(fine, i)));
    judge(g, ops, [&](Ser& s) { s.put(c); s.put(e); s.put(fine); s.put(el); s.put(un); s.put(tail); s.put(ins); s.put(shape); s.put(P); s.put(Q); s.put(D); });
}
LAW(slow_curves, 100, 3000) {
    CurveOpt co; co.minDegree = 2; co.maxDegree = 3; co.knots.maxInterior = 2; co.weights = WOne; auto a = genRegular(g, co, 0.3); auto& c = a.c; for (auto& q : c.ControlPoints) q = XYZW(q.ToXYZ(true) * (1 / a.scale), 1); double off = g.real(-0.2, 0.2); g.note([&](std::ostream& s) { s << c << " offset " << off; });
    std::vector<Op> ops; OP("Offset by Piegl and Tiller", LN_NurbsCurve r = d.c; NurbsCurve::Offset(c, off, OffsetType::PieglAndTiller, r); o.put(r)); OP("Tessellate", o.put(NurbsCurve::Tessellate(c))); judge(g, ops, [&](Ser& s) { s.put(c); });
}
LAW(created_curves, 1500, 20000) {
    int n = g.integer(5, 9), p = g.integer(1, 4); double mag = genMag(g); std::vector<XYZ> pts, tan; for (int i = 0; i < n; i++) { double y = g.coord(mag), z = g.coord(mag); pts.push_back(XYZ(mag * i, y, z)); tan.push_back(XYZ(mag, g.coord(mag), g.coord(mag))); } XYZ P = genPoint(g, mag), X(1, 0, 0), Y(0, 1, 0); double s0 = g.real(0, 3), s1 = s0 + g.real(0.2, 3.2), r1 = g.real(0.5, 2) * mag, r2 = g.boolean() ? r1 : g.real(0.5, 2) * mag; std::vector<double> wp(n, 1.0), wt{1.0}; std::vector<XYZ> ct{tan[2]}; std::vector<int> ci{2}; g.note([&](std::ostream& o) { o << "p " << p << " through " << pts; });
    std::vector<Op> ops; OP("CreateLine", LN_NurbsCurve r = d.c; NurbsCurve::CreateLine(P, pts[0] + XYZ(0, 0, 3 * mag), r); o.put(r)); OP("CreateCubicHermite", LN_NurbsCurve r = d.c; NurbsCurve::CreateCubicHermite(pts, tan, r); o.put(r)); OP("CreateArc", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::CreateArc(P, X, Y, s0, s1, r1, r2, r); o.put(ok); if (ok) o.put(r));
    XYZ cs(0, 0, 0), ce(mag, 0, 0), cp(mag / 2, mag * 0.4, 0), ts(1, 2, 0), te(1, -2, 0); OP("CreateOneConicArc", XYZ q = d.p; double w = d.n; bool ok = NurbsCurve::CreateOneConicArc(cs, ts, ce, te, cp, q, w); o.put(ok); if (ok) { o.put(q); o.put(w); }); OP("SplitArc", XYZ a = d.p, b = d.p, c = d.p; double w = d.n; NurbsCurve::SplitArc(cs, XYZ(mag / 2, mag, 0), 0.7, ce, a, b, c, w); o.put(a); o.put(b); o.put(c); o.put(w)); OP("CreateOpenConic", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::CreateOpenConic(cs, ts, ce, te, cp, r); o.put(ok); if (ok) o.put(r));
    OP("GlobalInterpolation", LN_NurbsCurve r = d.c; NurbsCurve::GlobalInterpolation(p, pts, r); o.put(r)); OP("GlobalInterpolation with tangents", LN_NurbsCurve r = d.c; NurbsCurve::GlobalInterpolation(2 + p % 2, pts, tan, 1.0, r); o.put(r)); OP("CubicLocalInterpolation", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::CubicLocalInterpolation(pts, r); o.put(ok); if (ok) o.put(r)); OP("LeastSquaresApproximation", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::LeastSquaresApproximation(p, pts, std::max(p + 1, n - 2), r); o.put(ok); if (ok) o.put(r)); OP("WeightedAndContrainedLeastSquaresApproximation", LN_NurbsCurve r = d.c; bool ok = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, pts, wp, ct, ci, wt, std::max(p + 1, n - 3), r); o.put(ok); if (ok) o.put(r));
    OP("GlobalApproximationByErrorBound", LN_NurbsCurve r = d.c; NurbsCurve::GlobalApproximationByErrorBound(p, pts, mag * 0.05, r); o.put(r)); OP("FitWithConic", std::vector<XYZW> m; bool ok = NurbsCurve::FitWithConic(pts, 0, 2, tan[0], tan[2], mag * 5, m); o.put(ok); if (ok) o.put(m)); OP("FitWithCubic", std::vector<XYZW> m; bool ok = NurbsCurve::FitWithCubic(pts, 0, 3, tan[0], tan[3], mag * 9, m); o.put(ok); if (ok) o.put(m));
    OP("GetChordParameterization", o.put(Interpolation::GetChordParameterization(pts))); OP("GetCentripetalParameterization", o.put(Interpolation::GetCentripetalParameterization(pts))); OP("ComputeTangent", o.put(Interpolation::ComputeTangent(pts))); OP("ComputeTangent of five points", std::vector<XYZ> t = d.x; bool ok = Interpolation::ComputeTangent(pts, t); o.put(ok); if (ok) o.put(t)); OP("ComputerWeightForRationalQuadraticInterpolation", double w = d.n; bool ok = Interpolation::ComputerWeightForRationalQuadraticInterpolation(pts[0], P, pts[1], w); o.put(ok); if (ok) o.put(w)); OP("AverageKnotVector", o.put(Interpolation::AverageKnotVector(p, Interpolation::GetChordParameterization(pts)))); OP("ComputeKnotVector", o.put(Interpolation::ComputeKnotVector(p, std::max(p + 1, n - 2), Interpolation::GetChordParameterization(pts))));
    judge(g, ops, [&](Ser& s) { s.put(pts); s.put(tan); s.put(wp); s.put(wt); s.put(ct); s.put(ci); s.put(P); });
}
LAW(surfaces, 500, 30000) {
    SurfOpt so; so.maxDegree = 3; so.graph = true; auto a = genSurface(g, so); auto& c = a.s; UV uv(genParam(g, a.ku), genParam(g, a.kv)); double ui = genParam(g, a.ku, false, false), vi = genParam(g, a.kv, false, false); XYZ P = genPoint(g, a.scale); bool U = g.boolean(); double x = U ? ui : vi; LN_NurbsSurface fine, el; NurbsSurface::InsertKnot(c, x, 1, U, fine); NurbsSurface::ElevateDegree(c, 1, U, el); XYZ tg = genPoint(g, 1); g.note([&](std::ostream& o) { o << c << " at " << uv; });
    std::vector<Op> ops; OP("GetIsoCurve", o.put(NurbsSurface::GetIsoCurve(c, x, U))); OP("GetPointOnSurface", o.put(NurbsSurface::GetPointOnSurface(c, uv))); OP("ComputeRationalSurfaceDerivatives", o.put(NurbsSurface::ComputeRationalSurfaceDerivatives(c, 3, uv))); OP("ComputeRationalSurfaceFirstOrderDerivative", XYZ a = d.p, b = d.p, e = d.p; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(c, uv, a, b, e); o.put(a); o.put(b); o.put(e)); for (int k = 0; k < 6; k++) ops.push_back({"Curvature", [&, k](const Dirt&, Ser& o) { o.put(NurbsSurface::Curvature(c, (SurfaceCurvature)k, uv)); }});
    OP("GetBoundingBox", auto b = NurbsSurface::GetBoundingBox(c); o.put(b.MinPoint); o.put(b.MaxPoint)); OP("GetOrientedBoundingBox", auto b = NurbsSurface::GetOrientedBoundingBox(c); o.put(b.Center); for (int i = 0; i < 3; i++) { o.put(b.Axes[i]); o.put(b.HalfExtents[i]); }); OP("Normal", o.put(NurbsSurface::Normal(c, uv))); OP("Swap", LN_NurbsSurface r = d.s; NurbsSurface::Swap(c, r); o.put(r)); for (auto dir : {SurfaceDirection::All, SurfaceDirection::UDirection, SurfaceDirection::VDirection}) ops.push_back({"Reverse", [&, dir](const Dirt& d, Ser& o) { LN_NurbsSurface r = d.s; NurbsSurface::Reverse(c, dir, r); o.put(r); }});
    OP("InsertKnot", LN_NurbsSurface r = d.s; NurbsSurface::InsertKnot(c, x, 1, U, r); o.put(r)); OP("RefineKnotVector", LN_NurbsSurface r = d.s; NurbsSurface::RefineKnotVector(c, {x}, U, r); o.put(r)); OP("DecomposeToBeziers", for (auto& q : NurbsSurface::DecomposeToBeziers(c)) o.put(q)); OP("RemoveKnot", LN_NurbsSurface r = d.s; NurbsSurface::RemoveKnot(fine, x, 1, U, r); o.put(r)); OP("ElevateDegree", LN_NurbsSurface r = d.s; NurbsSurface::ElevateDegree(c, 1, U, r); o.put(r)); OP("ReduceDegree", LN_NurbsSurface r = d.s; bool ok = NurbsSurface::ReduceDegree(el, U, r); o.put(ok); if (ok) o.put(r));
    OP("IsClosed", o.put(NurbsSurface::IsClosed(c, U))); OP("GetParamOnSurface", o.put(NurbsSurface::GetParamOnSurface(c, P))); OP("GetParamOnSurfaceByGSA", o.put(NurbsSurface::GetParamOnSurfaceByGSA(c, P))); OP("Reparametrize", LN_NurbsSurface r = d.s; NurbsSurface::Reparametrize(c, 1, 2, 3, 5, r); o.put(r)); OP("GetUVTangent", UV t(d.n, d.n); bool ok = NurbsSurface::GetUVTangent(c, uv, tg, t); o.put(ok); if (ok) o.put(t)); OP("NonUniformScaling", o.put(NurbsSurface::NonUniformScaling(c.ControlPoints, 2, 3, 4, P)));
    judge(g, ops, [&](Ser& s) { s.put(c); s.put(fine); s.put(el); s.put(P); s.put(uv); });
}
LAW(slow_surfaces, 32, 1500) {
    SurfOpt so; so.maxDegree = 3; so.graph = true; so.knots.maxInterior = 1; auto a = genSurface(g, so); auto& c = a.s; XYZ P = NurbsSurface::GetPointOnSurface(c, UV(genParam(g, a.ku), genParam(g, a.kv))), Q = genPoint(g, a.scale); g.note([&](std::ostream& o) { o << c; }); std::vector<Op> ops;
    OP("EquallyTessellate", std::vector<XYZ> x; std::vector<UV> y; NurbsSurface::EquallyTessellate(c, x, y); o.put(x); o.put(y)); VolOpt vo; vo.maxDegree = 2; vo.box = true; vo.knots.maxInterior = 0; auto V = genVolume(g, vo); XYZ PV = NurbsVolume::GetPointOnVolume(V.v, UVW(genParam(g, V.k[0]), genParam(g, V.k[1]), genParam(g, V.k[2]))); OP("GetParamOnVolume", o.put(NurbsVolume::GetParamOnVolume(V.v, PV))); OP("GetAllParamsOnSurface", o.put(NurbsSurface::GetAllParamsOnSurface(c, P))); for (auto ty : {IntegratorType::Simpson, IntegratorType::GaussLegendre, IntegratorType::Chebyshev}) ops.push_back({"ApproximateArea", [&, ty](const Dirt&, Ser& o) { o.put(NurbsSurface::ApproximateArea(c, ty)); }}); OP("Triangulate", o.put(NurbsSurface::Triangulate(c, 6, 5, false))); OP("Triangulate by Delaunay", o.put(NurbsSurface::Triangulate(c, 6, 5, true))); OP("ComputeSignedDistanceFunction", o.put(NurbsSurface::ComputeSignedDistanceFunction(c, Q)));
    judge(g, ops, [&](Ser& s) { s.put(c); s.put(P); s.put(Q); s.put(V.v); });
}
LAW(created_surfaces, 800, 30000) {
    CurveOpt co; co.minDegree = 2; co.maxDegree = 3; co.knots.maxInterior = 2; auto a = genRegular(g, co), b = genRegular(g, co); auto &c = a.c, &e = b.c; double mag = genMag(g); int R = g.integer(4, 6), K = g.integer(4, 6); std::vector<std::vector<XYZ>> net; for (int i = 0; i < R; i++) { net.push_back({}); for (int j = 0; j < K; j++) net.back().push_back(XYZ(i * mag, j * mag, g.coord(mag))); } XYZ P = genPoint(g, mag); double s0 = g.real(0, 3), s1 = s0 + g.real(0.2, 3.2); LN_NurbsCurve arc; NurbsCurve::CreateArc(P, XYZ(1, 0, 0), XYZ(0, 1, 0), 0, g.real(0.5, 2), mag, mag, arc);
    std::vector<LN_NurbsCurve> sec; for (int i = 0; i < 3; i++) { LN_NurbsCurve x; Matrix4d T = Matrix4d::CreateTranslation(XYZ(0, 0, (i + 1) * a.scale)); NurbsCurve::CreateTransformed(i == 1 ? e : c, T, x); NurbsCurve::Reparametrize(LN_NurbsCurve(x), 0, 1, x); sec.push_back(x); }
    std::vector<LN_NurbsCurve> uc, vc; { int n = 4; std::vector<double> pr{0, 1.0 / 3, 2.0 / 3, 1}; std::vector<std::vector<XYZ>> q(n, std::vector<XYZ>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q[i][j] = XYZ(i * mag, j * mag, 0.3 * mag * ((i * 7 + j * 5) % 4)); net.resize(4); for (int i = 0; i < 4; i++) net[i] = q[i]; for (int i = 0; i < n; i++) { LN_NurbsCurve x; NurbsCurve::GlobalInterpolation(3, {q[0][i], q[1][i], q[2][i], q[3][i]}, x, pr); uc.push_back(x); NurbsCurve::GlobalInterpolation(3, q[i], x, pr); vc.push_back(x); } }
    g.note([&](std::ostream& o) { o << c << " " << e; }); std::vector<Op> ops; OP("CreateBilinearSurface", LN_NurbsSurface r = d.s; NurbsSurface::CreateBilinearSurface(net[0][0], net[0][1], net[1][0], net[1][1], r); o.put(r)); OP("CreateCylindricalSurface", LN_NurbsSurface r = d.s; bool ok = NurbsSurface::CreateCylindricalSurface(P, XYZ(1, 0, 0), XYZ(0, 1, 0), s0, s1, mag, 2 * mag, r); o.put(ok); if (ok) o.put(r)); OP("CreateRuledSurface", LN_NurbsSurface r = d.s; NurbsSurface::CreateRuledSurface(sec[0], sec[1], r); o.put(r)); OP("CreateRevolvedSurface", LN_NurbsSurface r = d.s; bool ok = NurbsSurface::CreateRevolvedSurface(P, XYZ(0, 0, 1), s1, c, r); o.put(ok); if (ok) o.put(r));
    OP("GlobalInterpolation", LN_NurbsSurface r = d.s; NurbsSurface::GlobalInterpolation(net, 3, 2, r); o.put(r)); OP("BicubicLocalInterpolation", LN_NurbsSurface r = d.s; bool ok = NurbsSurface::BicubicLocalInterpolation(net, r); o.put(ok); if (ok) o.put(r)); OP("GlobalApproximation", LN_NurbsSurface r = d.s; bool ok = NurbsSurface::GlobalApproximation(net, 2, 2, 3, 3, r); o.put(ok); if (ok) o.put(r)); OP("CreateSwungSurface", LN_NurbsSurface r = d.s; bool ok = NurbsSurface::CreateSwungSurface(c, e, 1.5, r); o.put(ok); if (ok) o.put(r)); OP("CreateLoftSurface", LN_NurbsSurface r = d.s; NurbsSurface::CreateLoftSurface(sec, r); o.put(r)); OP("CreateGeneralizedTranslationalSweepSurface", LN_NurbsSurface r = d.s; NurbsSurface::CreateGeneralizedTranslationalSweepSurface(c, e, r); o.put(r));
    OP("CreateGordonSurface", LN_NurbsSurface r = d.s; NurbsSurface::CreateGordonSurface(uc, vc, net, r); o.put(r)); OP("CreateCoonsSurface", LN_NurbsSurface r = d.s; NurbsSurface::CreateCoonsSurface(vc[0], uc[0], vc[3], uc[3], r); o.put(r)); OP("GetSurfaceMeshParameterization", std::vector<double> x = d.d, y = d.d; bool ok = Interpolation::GetSurfaceMeshParameterization(net, x, y); o.put(ok); if (ok) { o.put(x); o.put(y); });
    judge(g, ops, [&](Ser& s) { s.put(c); s.put(e); s.put(net); s.put(sec); s.put(uc); s.put(vc); s.put(arc); s.put(P); });
}
LAW(volumes, 500, 15000) {
    VolOpt vo; vo.maxDegree = 3; vo.box = true; auto a = genVolume(g, vo); auto& c = a.v; UVW q(genParam(g, a.k[0]), genParam(g, a.k[1]), genParam(g, a.k[2])); int k = g.integer(0, 2); auto dir = (VolumeDirection)(1 + k); static const VolumeDirection DIRS[] = {VolumeDirection::U, VolumeDirection::V, VolumeDirection::W}; dir = DIRS[k]; double x = genParam(g, a.k[k], false, false); XYZ P = NurbsVolume::GetPointOnVolume(c, q); g.note([&](std::ostream& o) { o << c << " direction " << k << " at " << x; }); std::vector<Op> ops;
    OP("GetPointOnVolume", o.put(NurbsVolume::GetPointOnVolume(c, q))); OP("ComputeVolumeRationalDerivatives", o.put(NurbsVolume::ComputeVolumeRationalDerivatives(c, 2, q))); OP("InsertKnot", LN_NurbsVolume r = d.v; NurbsVolume::InsertKnot(c, x, 1, dir, r); o.put(r)); OP("SplitAt", LN_NurbsVolume r = d.v, y = d.v; bool ok = NurbsVolume::SplitAt(c, x, dir, r, y); o.put(ok); if (ok) { o.put(r); o.put(y); }); OP("Extract", LN_NurbsSurface r = d.s; bool ok = NurbsVolume::Extract(c, x, dir, r); o.put(ok); if (ok) o.put(r)); OP("RefineKnotVector", LN_NurbsVolume r = d.v; NurbsVolume::RefineKnotVector(c, {x}, dir, r); o.put(r)); OP("ElevateDegree", LN_NurbsVolume r = d.v; NurbsVolume::ElevateDegree(c, 1, dir, r); o.put(r)); OP("IsClosed", o.put(NurbsVolume::IsClosed(c, dir))); OP("Reverse", LN_NurbsVolume r = d.v; NurbsVolume::Reverse(c, dir, r); o.put(r)); OP("Swap", LN_NurbsVolume r = d.v; NurbsVolume::Swap(c, dir, DIRS[(k + 1) % 3], r); o.put(r));
    judge(g, ops, [&](Ser& s) { s.put(c); s.put(P); s.put(q); });
}
LAW(utilities, 6000, 100000) {
    int p = genDegree(g, 1, 5); auto k = genKnots(g, p), k2 = genKnots(g, p); const auto &K = k.U, &K2 = k2.U; double t = genParam(g, k), ti = genParam(g, k, false, false); int n = g.integer(1, 5); std::vector<std::vector<double>> A(n, std::vector<double>(n)), B(n, std::vector<double>(2)); for (auto& r : A) for (auto& x : r) x = g.coord(3); for (int i = 0; i < n; i++) A[i][i] += 9; for (auto& r : B) for (auto& x : r) x = g.coord(3); XYZ P = genPoint(g), Q = genPoint(g), D = genPoint(g, 1) + XYZ(0, 0, 1.5), E = genPoint(g, 1) + XYZ(1.5, 0, 0); std::vector<XYZW> W; std::vector<XYZ> X; for (int i = 0; i <= p; i++) { X.push_back(genPoint(g)); W.push_back(XYZW(X.back(), 1 + g.unit())); } LN_BezierCurve<XYZ> z; z.Degree = p; z.ControlPoints = X; double bt = g.unit(); g.note([&](std::ostream& o) { o << p << K << " at " << t; });
    std::vector<Op> ops; OP("GetContinuity", o.put(KnotVectorUtils::GetContinuity(p, K, t))); OP("Rescale", o.put(KnotVectorUtils::Rescale(K, 2, 7))); OP("GetInsertedKnotElement of a range", o.put(KnotVectorUtils::GetInsertedKnotElement(p, K, std::min(t, ti), std::max(t, ti)))); OP("GetKnotMultiplicityMap", o.put(KnotVectorUtils::GetKnotMultiplicityMap(K))); OP("GetInternalKnotMultiplicityMap", o.put(KnotVectorUtils::GetInternalKnotMultiplicityMap(K))); OP("GetInsertedKnotElements of several", o.put(KnotVectorUtils::GetInsertedKnotElements({K, K2}))); OP("GetInsertedKnotElements by number", o.put(KnotVectorUtils::GetInsertedKnotElements(3, K))); OP("IsUniform", o.put(KnotVectorUtils::IsUniform(K)));
    OP("GetKnotSpanIndex", o.put(Polynomials::GetKnotSpanIndex(p, K, t))); OP("GetKnotMultiplicity", o.put(Polynomials::GetKnotMultiplicity(K, t))); int sp = Polynomials::GetKnotSpanIndex(p, K, t); OP("BasisFunctions", double N[8]; for (double& x : N) x = d.n; Polynomials::BasisFunctions(sp, p, K, t, N); for (int i = 0; i <= p; i++) o.put(N[i])); OP("BasisFunctionsDerivatives", o.put(Polynomials::BasisFunctionsDerivatives(sp, p, 3, K, t))); OP("BasisFunctionsFirstOrderDerivative", double N[2][Constants::NURBSMaxDegree + 1]; for (auto& r : N) for (double& x : r) x = d.n; Polynomials::BasisFunctionsFirstOrderDerivative(sp, p, K, t, N); for (auto& r : N) for (int i = 0; i <= p; i++) o.put(r[i])); OP("OneBasisFunction", o.put(Polynomials::OneBasisFunction(sp - p / 2, p, K, t))); OP("OneBasisFunctionDerivative", o.put(Polynomials::OneBasisFunctionDerivative(sp - p / 2, p, 2, K, t))); OP("AllBasisFunctions", o.put(Polynomials::AllBasisFunctions(sp, p, K, t))); OP("BezierToPowerMatrix", auto m = Polynomials::BezierToPowerMatrix(p); o.put(m)); OP("PowerToBezierMatrix", o.put(Polynomials::PowerToBezierMatrix(p, Polynomials::BezierToPowerMatrix(p))));
    OP("MatrixMultiply", o.put(MathUtils::MatrixMultiply(A, A))); OP("GetDeterminant", o.put(MathUtils::GetDeterminant(A))); OP("MakeInverse", std::vector<std::vector<double>> r; bool ok = MathUtils::MakeInverse(A, r); o.put(ok); if (ok) o.put(r)); OP("SolveLinearSystem", o.put(MathUtils::SolveLinearSystem(A, B))); OP("Binomial", o.put(MathUtils::Binomial(p + 3, 2))); OP("ComputeRays", double a = d.n, b = d.n; XYZ q = d.p; auto ty = Intersection::ComputeRays(P, D, Q, E, a, b, q); o.put((int)ty); if (ty == CurveCurveIntersectionType::Intersecting) { o.put(a); o.put(b); o.put(q); }); OP("ComputeLineAndPlane", XYZ q = d.p; auto ty = Intersection::ComputeLineAndPlane(D, P, Q, E, q); o.put((int)ty); if (ty == LinePlaneIntersectionType::Intersecting) o.put(q)); OP("PointToRay", o.put(Projection::PointToRay(P, D, Q))); OP("PointToLine", XYZ q = d.p; bool ok = Projection::PointToLine(P, P + D * 5.0, Q, q); o.put(ok); if (ok) o.put(q));
    OP("Bernstein form", o.put(BezierCurve::GetPointOnCurveByBernstein(z, bt))); OP("de Casteljau", o.put(BezierCurve::GetPointOnCurveByDeCasteljau(z, bt))); OP("ToXYZ", o.put(ControlPointsUtils::ToXYZ(W))); OP("ComputerMiddleControlPointsOnQuadraticCurve", std::vector<XYZW> m; bool ok = BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(P, D, P + E * 3.0, D - E * 2.0, m); o.put(ok); if (ok) o.put(m));
    OP("Voronoi", VoronoiDiagramGenerator v; float xs[6], ys[6]; for (int i = 0; i < 6; i++) { xs[i] = (float)(X[i % X.size()][0] + i); ys[i] = (float)(X[i % X.size()][1] + (i * i) % 5); } v.setGenerateVoronoi(true); v.setGenerateDelaunay(true); o.put(v.generateVoronoi(xs, ys, 6, -30, 30, -30, 30, 0, true)); v.resetIterator(); float a, b, e, f; while (v.getNext(a, b, e, f)) { o.put((double)a); o.put((double)b); o.put((double)e); o.put((double)f); } o.put(v.getTriangles()));
    judge(g, ops, [&](Ser& s) { s.put(K); s.put(K2); s.put(A); s.put(B); s.put(X); s.put(W); s.put(P); s.put(Q); s.put(D); s.put(E); });
}
