// A01: what a call says about its arguments is enforced: one invalid argument and the call is refused with an exception, otherwise it is carried out
#include "gen.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "Intersection.h"
#include "KnotVectorUtils.h"
const char* pbt::RULE = "every case makes one well-formed call and several that differ from it in a single invalid argument";
// refused: std::invalid_argument or std::out_of_range (both std::logic_error), nothing else and not silence
template <class F> static void refused(const char* what, F f) {
    bool threw = false; try { f(); } catch (const std::invalid_argument&) { threw = true; } catch (const std::out_of_range&) { threw = true; } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { REQUIRE(false, what << ": refused with an unrelated error: " << e.what()); }
    REQUIRE(threw, what << ": accepted");
}
template <class F> static void accepted(const char* what, F f) { try { f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { REQUIRE(false, what << ": refused: " << e.what()); } }
// a value below lo or above hi by more than the tolerance of 1e-6
static double outside(Gen& g, double lo, double hi) { double d = std::pow(10.0, g.real(-5, 2)); return g.boolean() ? lo - d : hi + d; }
static int notPositive(Gen& g) { return g.chance(1, 2) ? 0 : -g.integer(1, 5); }
static std::vector<double> unsorted(Gen& g, std::vector<double> U) { int n = (int)U.size(); int i = g.integer(0, n - 2); int j = i + 1; while (j < n && U[j] == U[i]) j++; if (j == n) { i = 0; while (U[i + 1] == U[i]) i++; j = i + 1; i = g.integer(0, i); } std::swap(U[i], U[j]); return U; }
static XYZ zero(Gen& g) { return g.boolean() ? XYZ(0, 0, 0) : XYZ(1e-9, -1e-9, 0); }
LAW(check_curve, 6000, 200000) {
    auto a = genCurve(g); auto& c = a.c; g.nontrivial(); accepted("NurbsCurve::Check", [&] { NurbsCurve::Check(c); }); LN_BsplineCurve<XYZ> b; b.Degree = c.Degree; b.KnotVector = c.KnotVector; for (auto& q : c.ControlPoints) b.ControlPoints.push_back(q.ToXYZ(true)); accepted("BsplineCurve::Check", [&] { BsplineCurve::Check(b); });
    LN_BezierCurve<XYZ> z; z.Degree = c.Degree; for (int i = 0; i <= c.Degree; i++) z.ControlPoints.push_back(b.ControlPoints[i]); accepted("BezierCurve::Check", [&] { BezierCurve::Check(z); });
    auto bad = [&](const char* what, auto edit) { auto x = c; auto y = b; edit(x); edit(y); refused(what, [&] { NurbsCurve::Check(x); }); refused(what, [&] { BsplineCurve::Check(y); }); };
    int d = notPositive(g); std::vector<double> W = unsorted(g, c.KnotVector); int k = g.integer(1, 3); g.note([&](std::ostream& o) { o << "degree " << d << " knots " << W << " by " << k; });
    bad("degree not positive", [&](auto& x) { x.Degree = d; }); bad("degree too high for the points", [&](auto& x) { x.Degree += k; }); bad("no knots", [&](auto& x) { x.KnotVector.clear(); }); bad("unsorted knots", [&](auto& x) { x.KnotVector = W; }); bad("no points", [&](auto& x) { x.ControlPoints.clear(); });
    bad("too many points", [&](auto& x) { for (int i = 0; i < k; i++) x.ControlPoints.push_back(x.ControlPoints[0]); }); bad("too few points", [&](auto& x) { x.ControlPoints.pop_back(); }); bad("too many knots", [&](auto& x) { for (int i = 0; i < k; i++) x.KnotVector.push_back(x.KnotVector.back()); }); bad("too few knots", [&](auto& x) { x.KnotVector.pop_back(); });
    auto badz = [&](const char* what, auto edit) { auto x = z; edit(x); refused(what, [&] { BezierCurve::Check(x); }); }; badz("Bezier degree not positive", [&](auto& x) { x.Degree = d; }); badz("Bezier without points", [&](auto& x) { x.ControlPoints.clear(); }); badz("Bezier with too many points", [&](auto& x) { x.ControlPoints.push_back(XYZ()); }); badz("Bezier with too few points", [&](auto& x) { x.ControlPoints.pop_back(); });
}
LAW(check_surface, 4000, 150000) {
    auto a = genSurface(g); auto& s = a.s; g.nontrivial(); accepted("NurbsSurface::Check", [&] { NurbsSurface::Check(s); }); LN_BsplineSurface<XYZ> b; b.DegreeU = s.DegreeU; b.DegreeV = s.DegreeV; b.KnotVectorU = s.KnotVectorU; b.KnotVectorV = s.KnotVectorV; for (auto& r : s.ControlPoints) { b.ControlPoints.push_back({}); for (auto& q : r) b.ControlPoints.back().push_back(q.ToXYZ(true)); } accepted("BsplineSurface::Check", [&] { BsplineSurface::Check(b); });
    LN_BezierSurface<XYZ> z; z.DegreeU = s.DegreeU; z.DegreeV = s.DegreeV; for (int i = 0; i <= z.DegreeU; i++) z.ControlPoints.push_back(std::vector<XYZ>(b.ControlPoints[i].begin(), b.ControlPoints[i].begin() + z.DegreeV + 1)); accepted("BezierSurface::Check", [&] { BezierSurface::Check(z); });
    auto bad = [&](const char* what, auto edit) { auto x = s; auto y = b; edit(x); edit(y); refused(what, [&] { NurbsSurface::Check(x); }); refused(what, [&] { BsplineSurface::Check(y); }); };
    int d = notPositive(g), k = g.integer(1, 3); auto WU = unsorted(g, s.KnotVectorU), WV = unsorted(g, s.KnotVectorV);
    bad("degree u not positive", [&](auto& x) { x.DegreeU = d; }); bad("degree v not positive", [&](auto& x) { x.DegreeV = d; }); bad("degree u too high", [&](auto& x) { x.DegreeU += k; }); bad("degree v too high", [&](auto& x) { x.DegreeV += k; }); bad("no knots u", [&](auto& x) { x.KnotVectorU.clear(); }); bad("no knots v", [&](auto& x) { x.KnotVectorV.clear(); }); bad("unsorted u", [&](auto& x) { x.KnotVectorU = WU; }); bad("unsorted v", [&](auto& x) { x.KnotVectorV = WV; }); bad("no points", [&](auto& x) { x.ControlPoints.clear(); });
    bad("too many rows", [&](auto& x) { x.ControlPoints.push_back(x.ControlPoints[0]); }); bad("too few rows", [&](auto& x) { x.ControlPoints.pop_back(); }); bad("too many columns", [&](auto& x) { for (auto& r : x.ControlPoints) r.push_back(r[0]); }); bad("too few columns", [&](auto& x) { for (auto& r : x.ControlPoints) r.pop_back(); }); bad("too many knots u", [&](auto& x) { for (int i = 0; i < k; i++) x.KnotVectorU.push_back(x.KnotVectorU.back()); }); bad("too few knots v", [&](auto& x) { x.KnotVectorV.pop_back(); });
    auto badz = [&](const char* what, auto edit) { auto x = z; edit(x); refused(what, [&] { BezierSurface::Check(x); }); }; badz("Bezier degree u", [&](auto& x) { x.DegreeU = d; }); badz("Bezier degree v", [&](auto& x) { x.DegreeV = d; }); badz("Bezier without points", [&](auto& x) { x.ControlPoints.clear(); }); badz("Bezier rows", [&](auto& x) { x.ControlPoints.push_back(x.ControlPoints[0]); }); badz("Bezier columns", [&](auto& x) { for (auto& r : x.ControlPoints) r.pop_back(); });
}
LAW(curve_parameters, 5000, 200000) {
    CurveOpt o; o.minDegree = 2; auto a = genRegular(g, o); auto& c = a.c; g.nontrivial(); double t = genParam(g, a.k), x = outside(g, a.k.lo(), a.k.hi()); g.note([&](std::ostream& s) { s << " t " << t << " outside " << x; }); LN_BsplineCurve<XYZW> h; h.Degree = c.Degree; h.KnotVector = c.KnotVector; h.ControlPoints = c.ControlPoints; LN_NurbsCurve r, r2; int n = (int)c.ControlPoints.size();
    struct F { const char* what; std::function<void(double)> f; }; std::vector<F> fs = {
        {"GetPointOnCurve", [&](double u) { NurbsCurve::GetPointOnCurve(c, u); }}, {"ComputeRationalCurveDerivatives", [&](double u) { NurbsCurve::ComputeRationalCurveDerivatives(c, 2, u); }}, {"Curvature", [&](double u) { NurbsCurve::Curvature(c, u); }}, {"Torsion", [&](double u) { NurbsCurve::Torsion(c, u); }}, {"GetPointOnCurveByCornerCut", [&](double u) { NurbsCurve::GetPointOnCurveByCornerCut(c, u); }},
        {"BsplineCurve::GetPointOnCurve", [&](double u) { BsplineCurve::GetPointOnCurve(h, u); }}, {"BsplineCurve::ComputeDerivatives", [&](double u) { BsplineCurve::ComputeDerivatives(h, 1, u); }}, {"ComputeDerivativesByAllBasisFunctions", [&](double u) { BsplineCurve::ComputeDerivativesByAllBasisFunctions(h, 1, u); }},
        {"GetKnotMultiplicity", [&](double u) { Polynomials::GetKnotMultiplicity(c.KnotVector, u); }}, {"GetKnotSpanIndex", [&](double u) { Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, u); }}, {"BasisFunctions", [&](double u) { double N[8]; Polynomials::BasisFunctions(c.Degree, c.Degree, c.KnotVector, u, N); }}, {"BasisFunctionsDerivatives", [&](double u) { Polynomials::BasisFunctionsDerivatives(c.Degree, c.Degree, 1, c.KnotVector, u); }}, {"BasisFunctionsFirstOrderDerivative", [&](double u) { double D[2][Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctionsFirstOrderDerivative(c.Degree, c.Degree, c.KnotVector, u, D); }},
        {"OneBasisFunction", [&](double u) { Polynomials::OneBasisFunction(0, c.Degree, c.KnotVector, u); }}, {"OneBasisFunctionDerivative", [&](double u) { Polynomials::OneBasisFunctionDerivative(0, c.Degree, 1, c.KnotVector, u); }}, {"AllBasisFunctions", [&](double u) { Polynomials::AllBasisFunctions(c.Degree, c.Degree, c.KnotVector, u); }}};
    for (auto& f : fs) { accepted(f.what, [&] { f.f(t); }); refused(f.what, [&] { f.f(x); }); }
    refused("Normal", [&] { NurbsCurve::Normal(c, CurveNormal::Binormal, x); }); refused("InsertKnot", [&] { NurbsCurve::InsertKnot(c, x, 1, r); }); refused("RemoveKnot", [&] { NurbsCurve::RemoveKnot(c, x, 1, r); }); refused("Extract from", [&] { NurbsCurve::Extract(c, x, a.k.hi(), r); }); refused("Extract to", [&] { NurbsCurve::Extract(c, a.k.lo(), x, r); });
    refused("Extract of a reversed range", [&] { NurbsCurve::Extract(c, a.k.hi(), a.k.lo(), r); }); refused("Extract of an empty range", [&] { NurbsCurve::Extract(c, t, t, r); }); REQUIRE(!NurbsCurve::SplitAt(c, x, r, r2), "SplitAt outside the domain"); accepted("Extract", [&] { NurbsCurve::Extract(c, a.k.lo(), a.k.hi(), r); });
    int k = g.integer(0, n - 1); XYZ dir(0.3, 0.4, 0.5); refused("ControlPointReposition", [&] { NurbsCurve::ControlPointReposition(c, x, k, dir, 0.5, r); }); refused("WeightModification", [&] { NurbsCurve::WeightModification(c, x, k, 0.5, r); }); refused("NeighborWeightsModification", [&] { NurbsCurve::NeighborWeightsModification(c, x, std::min(k, n - 2), 0.5, 0.5, r); });
    double lo = a.k.lo(), hi = a.k.hi(); std::vector<double> shape(n, 0.5); XYZ P(0, 0, -9), Q(1, 0, -9); for (int e = 0; e < 3; e++) { double s0 = e == 0 ? x : e == 1 ? lo : hi, s1 = e == 0 ? hi : e == 1 ? x : lo; refused("Warping range", [&] { NurbsCurve::Warping(c, shape, 0.5, XYZ(0, 0, 1), s0, s1, r); }); refused("Flattening range", [&] { NurbsCurve::Flattening(c, P, Q, s0, s1, r); }); refused("Bending range", [&] { NurbsCurve::Bending(c, s0, s1, P, 1.0, 0.5, r); }); }
    int d = notPositive(g); for (auto& f : std::vector<F>{{"derivative order of a curve", [&](double u) { NurbsCurve::ComputeRationalCurveDerivatives(c, d, u); }}, {"derivative order", [&](double u) { BsplineCurve::ComputeDerivatives(h, d, u); }}, {"derivative order, all basis functions", [&](double u) { BsplineCurve::ComputeDerivativesByAllBasisFunctions(h, d, u); }}, {"derivative control points", [&](double) { BsplineCurve::ComputeControlPointsOfDerivatives(h, d, 0, n - 1); }}}) refused(f.what, [&] { f.f(t); });
    refused("derivative control points of a reversed range", [&] { BsplineCurve::ComputeControlPointsOfDerivatives(h, 1, n - 1, 0); }); refused("derivative control points from a negative index", [&] { BsplineCurve::ComputeControlPointsOfDerivatives(h, 1, -1, n - 1); });
    LN_BezierCurve<XYZW> z; z.Degree = c.Degree; z.ControlPoints.assign(c.ControlPoints.begin(), c.ControlPoints.begin() + c.Degree + 1); double y = outside(g, 0, 1), ok = g.unit(); accepted("Bernstein form", [&] { BezierCurve::GetPointOnCurveByBernstein(z, ok); }); refused("Bernstein form", [&] { BezierCurve::GetPointOnCurveByBernstein(z, y); }); refused("de Casteljau", [&] { BezierCurve::GetPointOnCurveByDeCasteljau(z, y); });
}
LAW(curve_edits, 4000, 150000) {
    CurveOpt o; o.minDegree = 1; o.maxDegree = 5; auto a = genRegular(g, o); auto& c = a.c; g.nontrivial(); int d = notPositive(g), n = (int)c.ControlPoints.size(); LN_NurbsCurve r; double t = genParam(g, a.k, false, false); XYZ zv = zero(g); double zd = g.boolean() ? 0 : 1e-9; g.note([&](std::ostream& s) { s << " times " << d << " t " << t; });
    accepted("InsertKnot", [&] { NurbsCurve::InsertKnot(c, t, 1, r); }); refused("InsertKnot times", [&] { NurbsCurve::InsertKnot(c, t, d, r); }); accepted("RefineKnotVector", [&] { NurbsCurve::RefineKnotVector(c, {t}, r); }); refused("RefineKnotVector of nothing", [&] { NurbsCurve::RefineKnotVector(c, {}, r); }); refused("RemoveKnot times", [&] { NurbsCurve::RemoveKnot(c, t, d, r); }); accepted("ElevateDegree", [&] { NurbsCurve::ElevateDegree(c, 1, r); }); refused("ElevateDegree times", [&] { NurbsCurve::ElevateDegree(c, d, r); });
    double al = g.real(0.5, 2), be = g.coord(1), ga = g.coord(1); refused("singular map", [&] { NurbsCurve::Reparametrize(c, al, be, al * 0.5, be * 0.5, r); }); refused("reversing map", [&] { NurbsCurve::Reparametrize(c, al, be, ga, (ga * be - g.real(0.1, 2)) / al, r); });
    int m = (int)c.KnotVector.size(); refused("knot index below", [&] { NurbsCurve::ComputerRemoveKnotErrorBound(c, d == 0 ? -1 : d); }); refused("knot index above", [&] { NurbsCurve::ComputerRemoveKnotErrorBound(c, m - d); });
    std::vector<double> pr{t}, er{0}, none; refused("no parameters", [&] { auto e = none; NurbsCurve::RemoveKnotsByGivenBound(c, none, e, 1, r); }); refused("errors missing", [&] { auto e = none; NurbsCurve::RemoveKnotsByGivenBound(c, pr, e, 1, r); }); refused("error bound", [&] { auto e = er; NurbsCurve::RemoveKnotsByGivenBound(c, pr, e, -zd, r); }); accepted("RemoveKnotsByGivenBound", [&] { auto e = er; NurbsCurve::RemoveKnotsByGivenBound(c, pr, e, 1, r); });
    XYZ dir = genPoint(g, 3); if (V3(dir).len() < 0.1L) dir = XYZ(1, 0, 0); int below = d == 0 ? -1 : d, above = n - d, k = g.integer(0, n - 1);
    for (int i : {below, above}) { refused("ControlPointReposition index", [&] { NurbsCurve::ControlPointReposition(c, t, i, dir, 0.5, r); }); refused("WeightModification index", [&] { NurbsCurve::WeightModification(c, t, i, 0.5, r); }); refused("NeighborWeightsModification index", [&] { NurbsCurve::NeighborWeightsModification(c, t, i == above ? i - 1 : i, 0.5, 0.5, r); }); }
    refused("zero direction", [&] { NurbsCurve::ControlPointReposition(c, t, k, zv, 0.5, r); }); refused("zero distance", [&] { NurbsCurve::ControlPointReposition(c, t, k, dir, zd, r); }); refused("zero distance, weight", [&] { NurbsCurve::WeightModification(c, t, k, zd, r); }); refused("zero distance, neighbours", [&] { NurbsCurve::NeighborWeightsModification(c, t, std::min(k, n - 2), zd, 0.5, r); }); refused("zero scale", [&] { NurbsCurve::NeighborWeightsModification(c, t, std::min(k, n - 2), 0.5, zd, r); });
    std::vector<double> shape(n, 0.5); auto wrong = shape; if (g.boolean()) wrong.push_back(1); else wrong.pop_back(); double lo = a.k.lo(), hi = a.k.hi(); accepted("Warping", [&] { NurbsCurve::Warping(c, shape, 0.5, XYZ(0, 0, 1), lo, hi, r); }); refused("warp shape", [&] { NurbsCurve::Warping(c, wrong, 0.5, XYZ(0, 0, 1), lo, hi, r); }); refused("warp distance", [&] { NurbsCurve::Warping(c, shape, zd, XYZ(0, 0, 1), lo, hi, r); }); refused("plane normal", [&] { NurbsCurve::Warping(c, shape, 0.5, zv, lo, hi, r); });
    XYZ P = genPoint(g, 9); refused("flattening line", [&] { NurbsCurve::Flattening(c, P, P, lo, hi, r); });
    refused("no constraint parameters", [&] { NurbsCurve::ConstraintBasedModification(c, {}, {dir}, {0}, {0}, {}, r); }); refused("no constraints", [&] { NurbsCurve::ConstraintBasedModification(c, {t}, {}, {0}, {0}, {}, r); }); refused("constraint indices", [&] { NurbsCurve::ConstraintBasedModification(c, {t}, {dir}, {0, 0}, {0, 0}, {}, r); }); refused("constraint degrees", [&] { NurbsCurve::ConstraintBasedModification(c, {t}, {dir}, {0}, {}, {}, r); }); accepted("ConstraintBasedModification", [&] { NurbsCurve::ConstraintBasedModification(c, {t}, {dir}, {0}, {0}, {}, r); });
}
LAW(curve_makers, 5000, 200000) {
    g.nontrivial(); XYZ a = genPoint(g, 10), b = genPoint(g, 10), t0 = genPoint(g, 3), t1 = genPoint(g, 3); if (V3(a - b).len() < 0.1L || V3(t0).len() < 0.1L || V3(t1).len() < 0.1L) pbt::discard("degenerate"); LN_NurbsCurve r; XYZ zv = zero(g), pj; double pw; int neg = notPositive(g); double nz = g.chance(1, 2) ? 0 : -g.real(0.01, 3);
    accepted("CreateLine", [&] { NurbsCurve::CreateLine(a, b, r); }); refused("CreateLine of a point", [&] { NurbsCurve::CreateLine(a, a, r); });
    double th = g.coord(3), s0 = g.coord(3), sw = g.real(0.1, 6.2); XYZ ex(cos(th), sin(th), 0), ey(-sin(th), cos(th), 0); double R0 = g.real(0.1, 5), R1 = g.real(0.1, 5); accepted("CreateArc", [&] { NurbsCurve::CreateArc(a, ex, ey, s0, s0 + sw, R0, R1, r); }); refused("x axis", [&] { NurbsCurve::CreateArc(a, zv, ey, s0, s0 + sw, R0, R1, r); }); refused("y axis", [&] { NurbsCurve::CreateArc(a, ex, zv, s0, s0 + sw, R0, R1, r); }); refused("reversed angles", [&] { NurbsCurve::CreateArc(a, ex, ey, s0 + sw, s0, R0, R1, r); }); refused("equal angles", [&] { NurbsCurve::CreateArc(a, ex, ey, s0, s0, R0, R1, r); }); double over = 2 * Constants::Pi + std::pow(10.0, g.real(-4, 1)); refused("more than a turn", [&] { NurbsCurve::CreateArc(a, ex, ey, s0, s0 + over, R0, R1, r); }); refused("x radius", [&] { NurbsCurve::CreateArc(a, ex, ey, s0, s0 + sw, nz, R1, r); }); refused("y radius", [&] { NurbsCurve::CreateArc(a, ex, ey, s0, s0 + sw, R0, nz, r); });
    refused("conic start tangent", [&] { NurbsCurve::CreateOneConicArc(a, zv, b, t1, t0, pj, pw); }); refused("conic end tangent", [&] { NurbsCurve::CreateOneConicArc(a, t0, b, zv, t0, pj, pw); }); refused("open conic start tangent", [&] { NurbsCurve::CreateOpenConic(a, zv, b, t1, t0, r); }); refused("open conic end tangent", [&] { NurbsCurve::CreateOpenConic(a, t0, b, zv, t0, r); });
    double p0, p1; XYZ X; accepted("ComputeRays", [&] { Intersection::ComputeRays(a, t0, b, t1, p0, p1, X); }); refused("first direction", [&] { Intersection::ComputeRays(a, zv, b, t1, p0, p1, X); }); refused("second direction", [&] { Intersection::ComputeRays(a, t0, b, zv, p0, p1, X); });
    int p = g.integer(2, 5), n = p + g.integer(2, 6); std::vector<XYZ> Q, T; double x = 0; for (int i = 0; i < n; i++) { Q.push_back(XYZ(x, g.coord(3), g.coord(3))); T.push_back(XYZ(1, g.coord(1), g.coord(1))); x += g.real(0.5, 2); } std::vector<XYZ> few(Q.begin(), Q.begin() + g.integer(1, p)), none; auto Tx = T; if (g.boolean()) Tx.pop_back(); else Tx.push_back(T[0]); std::vector<double> pr(n + (g.boolean() ? 1 : -1)); for (size_t i = 0; i < pr.size(); i++) pr[i] = i / (pr.size() - 1.0); g.note([&](std::ostream& s) { s << "p " << p << " points " << Q; });
    if (n > 3) accepted("CreateCubicHermite", [&] { NurbsCurve::CreateCubicHermite(Q, T, r); }); std::vector<XYZ> three(Q.begin(), Q.begin() + 3), t3(T.begin(), T.begin() + 3); refused("Hermite of three points", [&] { NurbsCurve::CreateCubicHermite(three, t3, r); }); refused("Hermite tangents", [&] { NurbsCurve::CreateCubicHermite(Q, Tx, r); });
    int big = 8 + g.integer(0, 3); std::vector<XYZ> many; for (int i = 0; i < big + 3; i++) many.push_back(XYZ(i, g.coord(1), g.coord(1)));
    accepted("GlobalInterpolation", [&] { NurbsCurve::GlobalInterpolation(p, Q, r); }); refused("interpolation degree", [&] { NurbsCurve::GlobalInterpolation(-g.integer(1, 3), Q, r); }); refused("interpolation degree too high", [&] { NurbsCurve::GlobalInterpolation(big, many, r); }); refused("too few points", [&] { NurbsCurve::GlobalInterpolation(p, few, r); }); refused("wrong number of parameters", [&] { NurbsCurve::GlobalInterpolation(p, Q, r, pr); });
    accepted("GlobalInterpolation with tangents", [&] { NurbsCurve::GlobalInterpolation(p <= 3 ? p : 3, Q, T, 1.0, r); }); refused("degree, tangents", [&] { NurbsCurve::GlobalInterpolation(neg, Q, T, 1.0, r); }); refused("number of tangents", [&] { NurbsCurve::GlobalInterpolation(3, Q, Tx, 1.0, r); }); std::vector<XYZ> fewT(T.begin(), T.begin() + few.size()); refused("too few points, tangents", [&] { NurbsCurve::GlobalInterpolation(p, few, fewT, 1.0, r); }); refused("tangent factor", [&] { NurbsCurve::GlobalInterpolation(3 <= n - 1 ? 3 : 2, Q, T, nz, r); });
    refused("local interpolation of nothing", [&] { NurbsCurve::CubicLocalInterpolation(none, r); });
    refused("least squares degree", [&] { NurbsCurve::LeastSquaresApproximation(-g.integer(1, 3), Q, p + 1, r); }); refused("least squares degree too high", [&] { NurbsCurve::LeastSquaresApproximation(big, many, big + 1, r); }); refused("least squares control points", [&] { NurbsCurve::LeastSquaresApproximation(p, Q, neg, r); });
    std::vector<double> W(n, 1.0), Wx(n + (g.boolean() ? 1 : -1), 1.0); std::vector<int> ti{0}; std::vector<double> tw{1.0}; std::vector<XYZ> tt{T[0]}; auto wc = [&](int deg, const std::vector<XYZ>& qq, const std::vector<double>& ww, const std::vector<int>& ii, const std::vector<double>& tww) { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(deg, qq, ww, tt, ii, tww, p + 1, r); };
    refused("weighted: degree", [&] { wc(neg, Q, W, ti, tw); }); refused("weighted: points", [&] { wc(p, few, std::vector<double>(few.size(), 1.0), ti, tw); }); refused("weighted: weights", [&] { wc(p, Q, Wx, ti, tw); }); refused("weighted: tangent indices", [&] { wc(p, Q, W, {}, tw); }); refused("weighted: tangent weights", [&] { wc(p, Q, W, ti, {}); }); refused("weighted: index below", [&] { wc(p, Q, W, {-1}, tw); }); refused("weighted: index above", [&] { wc(p, Q, W, {n}, tw); });
    refused("error bound: degree", [&] { NurbsCurve::GlobalApproximationByErrorBound(neg, Q, 0.1, r); }); refused("error bound: points", [&] { NurbsCurve::GlobalApproximationByErrorBound(p, few, 0.1, r); }); refused("error bound not positive", [&] { NurbsCurve::GlobalApproximationByErrorBound(p, Q, nz, r); });
    std::vector<XYZW> mid; for (int which = 0; which < 2; which++) { auto fit = [&](const std::vector<XYZ>& qq, int i0, int i1, const XYZ& a0, const XYZ& a1) { mid.clear(); if (which) NurbsCurve::FitWithCubic(qq, i0, i1, a0, a1, 0.1, mid); else NurbsCurve::FitWithConic(qq, i0, i1, a0, a1, 0.1, mid); }; accepted("fit", [&] { fit(Q, 0, n - 1, T[0], T[n - 1]); }); refused("fit of nothing", [&] { fit(none, 0, 1, t0, t1); }); refused("fit start index below", [&] { fit(Q, -1, n - 1, t0, t1); }); refused("fit start index above", [&] { fit(Q, n, n + 1, t0, t1); }); refused("fit end index above", [&] { fit(Q, 0, n, t0, t1); }); refused("fit of a reversed range", [&] { fit(Q, 2, 1, t0, t1); }); refused("fit of an empty range", [&] { fit(Q, 1, 1, t0, t1); }); refused("fit start tangent", [&] { fit(Q, 0, n - 1, zv, t1); }); refused("fit end tangent", [&] { fit(Q, 0, n - 1, t0, zv); }); }
}
LAW(surface_calls, 3000, 100000) {
    SurfOpt o; o.minDegree = 2; o.maxDegree = 4; o.graph = true; auto a = genSurface(g, o); auto& s = a.s; g.nontrivial(); double u = genParam(g, a.ku), v = genParam(g, a.kv), xu = outside(g, a.ku.lo(), a.ku.hi()), xv = outside(g, a.kv.lo(), a.kv.hi()); g.note([&](std::ostream& q) { q << "uv " << u << "," << v << " outside " << xu << "," << xv; }); LN_BsplineSurface<XYZW> h; h.DegreeU = s.DegreeU; h.DegreeV = s.DegreeV; h.KnotVectorU = s.KnotVectorU; h.KnotVectorV = s.KnotVectorV; h.ControlPoints = s.ControlPoints; int n = (int)s.ControlPoints.size(), m = (int)s.ControlPoints[0].size(); int d = notPositive(g);
    struct F { const char* what; std::function<void(UV)> f; }; std::vector<F> fs = {{"GetPointOnSurface", [&](UV q) { NurbsSurface::GetPointOnSurface(s, q); }}, {"ComputeRationalSurfaceDerivatives", [&](UV q) { NurbsSurface::ComputeRationalSurfaceDerivatives(s, 2, q); }}, {"first order derivative", [&](UV q) { XYZ A, B, C; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, q, A, B, C); }}, {"Curvature", [&](UV q) { NurbsSurface::Curvature(s, SurfaceCurvature::Gauss, q); }}, {"Normal", [&](UV q) { NurbsSurface::Normal(s, q); }}, {"BsplineSurface::GetPointOnSurface", [&](UV q) { BsplineSurface::GetPointOnSurface(h, q); }}, {"BsplineSurface::ComputeDerivatives", [&](UV q) { BsplineSurface::ComputeDerivatives(h, 1, q); }}, {"derivatives by all basis functions", [&](UV q) { BsplineSurface::ComputeDerivativesByAllBasisFunctions(h, 1, q); }}, {"BsplineSurface::ComputeFirstOrderDerivative", [&](UV q) { XYZW A[2][2]; BsplineSurface::ComputeFirstOrderDerivative(h, q, A); }}};
    for (auto& f : fs) { accepted(f.what, [&] { f.f(UV(u, v)); }); refused(f.what, [&] { f.f(UV(xu, v)); }); refused(f.what, [&] { f.f(UV(u, xv)); }); }
    refused("derivative order", [&] { NurbsSurface::ComputeRationalSurfaceDerivatives(s, d, UV(u, v)); }); refused("derivative order, B-spline", [&] { BsplineSurface::ComputeDerivatives(h, d, UV(u, v)); }); refused("derivative order, all basis functions", [&] { BsplineSurface::ComputeDerivativesByAllBasisFunctions(h, d, UV(u, v)); });
    LN_NurbsSurface r; double tu = genParam(g, a.ku, false, false), tv = genParam(g, a.kv, false, false); for (int dir = 0; dir < 2; dir++) { double t = dir ? tu : tv, x = dir ? xu : xv; accepted("InsertKnot", [&] { NurbsSurface::InsertKnot(s, t, 1, dir, r); }); refused("InsertKnot parameter", [&] { NurbsSurface::InsertKnot(s, x, 1, dir, r); }); refused("RefineKnotVector of nothing", [&] { NurbsSurface::RefineKnotVector(s, {}, dir, r); }); refused("RemoveKnot parameter", [&] { NurbsSurface::RemoveKnot(s, x, 1, dir, r); }); refused("RemoveKnot times", [&] { NurbsSurface::RemoveKnot(s, t, d, dir, r); }); refused("ElevateDegree times", [&] { NurbsSurface::ElevateDegree(s, d, dir, r); }); accepted("ElevateDegree", [&] { NurbsSurface::ElevateDegree(s, 1, dir, r); }); }
    { LN_BezierSurface<XYZW> z; z.DegreeU = s.DegreeU; z.DegreeV = s.DegreeV; for (int i = 0; i <= z.DegreeU; i++) z.ControlPoints.push_back(std::vector<XYZW>(s.ControlPoints[i].begin(), s.ControlPoints[i].begin() + z.DegreeV + 1)); double x = outside(g, 0, 1), k0 = g.unit(), k1 = g.unit(); accepted("de Casteljau", [&] { BezierSurface::GetPointOnSurfaceByDeCasteljau(z, UV(k0, k1)); }); refused("de Casteljau u", [&] { BezierSurface::GetPointOnSurfaceByDeCasteljau(z, UV(x, k1)); }); refused("de Casteljau v", [&] { BezierSurface::GetPointOnSurfaceByDeCasteljau(z, UV(k0, x)); }); }
    std::vector<std::vector<XYZ>> Q(n, std::vector<XYZ>(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Q[i][j] = s.ControlPoints[i][j].ToXYZ(true); int p = s.DegreeU, q = s.DegreeV; int low = -g.integer(1, 3), high = g.integer(8, 11); std::vector<std::vector<XYZ>> none, hollow(n), rows(Q.begin(), Q.begin() + p), cols = Q; for (auto& x : cols) x.resize(q);
    accepted("GlobalInterpolation", [&] { NurbsSurface::GlobalInterpolation(Q, p, q, r); }); refused("no rows", [&] { NurbsSurface::GlobalInterpolation(none, p, q, r); }); refused("empty rows", [&] { NurbsSurface::GlobalInterpolation(hollow, p, q, r); }); for (int x : {low, high}) { refused("degree u", [&] { NurbsSurface::GlobalInterpolation(Q, x, q, r); }); refused("degree v", [&] { NurbsSurface::GlobalInterpolation(Q, p, x, r); }); } refused("too few rows", [&] { NurbsSurface::GlobalInterpolation(rows, p, q, r); }); refused("too few columns", [&] { NurbsSurface::GlobalInterpolation(cols, p, q, r); });
    refused("approximation: no rows", [&] { NurbsSurface::GlobalApproximation(none, p, q, p + 1, q + 1, r); }); refused("approximation: empty rows", [&] { NurbsSurface::GlobalApproximation(hollow, p, q, p + 1, q + 1, r); }); for (int x : {d, high}) { refused("approximation: degree u", [&] { NurbsSurface::GlobalApproximation(Q, x, q, 20, q + 1, r); }); refused("approximation: degree v", [&] { NurbsSurface::GlobalApproximation(Q, p, x, p + 1, 20, r); }); } refused("approximation: control rows", [&] { NurbsSurface::GlobalApproximation(Q, p, q, g.integer(0, p), q + 1, r); }); refused("approximation: control columns", [&] { NurbsSurface::GlobalApproximation(Q, p, q, p + 1, g.integer(0, q), r); });
    auto ragged = Q; ragged[g.integer(1, n - 1)].pop_back(); std::vector<std::vector<XYZ>> one(Q.begin(), Q.begin() + 1); refused("bicubic: no rows", [&] { NurbsSurface::BicubicLocalInterpolation(none, r); }); refused("bicubic: empty rows", [&] { NurbsSurface::BicubicLocalInterpolation(hollow, r); }); refused("bicubic: ragged", [&] { NurbsSurface::BicubicLocalInterpolation(ragged, r); }); refused("bicubic: one row", [&] { NurbsSurface::BicubicLocalInterpolation(one, r); });
    XYZ zv = zero(g), ex(1, 0, 0), ey(0, 1, 0), org = genPoint(g, 5); double s0 = g.coord(3), sw = g.real(0.1, 6.2), nz = g.boolean() ? 0 : -g.real(0.01, 2); auto cy = [&](const XYZ& A, const XYZ& B, double f, double e, double R, double H) { NurbsSurface::CreateCylindricalSurface(org, A, B, f, e, R, H, r); }; accepted("cylinder", [&] { cy(ex, ey, s0, s0 + sw, 1, 2); }); refused("cylinder x axis", [&] { cy(zv, ey, s0, s0 + sw, 1, 2); }); refused("cylinder y axis", [&] { cy(ex, zv, s0, s0 + sw, 1, 2); }); refused("cylinder angles", [&] { cy(ex, ey, s0 + sw, s0, 1, 2); }); refused("cylinder radius", [&] { cy(ex, ey, s0, s0 + sw, nz, 2); }); refused("cylinder height", [&] { cy(ex, ey, s0, s0 + sw, 1, nz); });
    LN_NurbsCurve c0, c1, c2; NurbsCurve::CreateLine(XYZ(0, 0, 0), XYZ(1, 0.5, 0), c0); NurbsCurve::CreateLine(XYZ(0, 1, 0), XYZ(1, 1, 1), c1); NurbsCurve::Reparametrize(c1, 0, 1 + g.real(0.1, 3), c2); accepted("ruled", [&] { NurbsSurface::CreateRuledSurface(c0, c1, r); }); refused("ruled over different ranges", [&] { NurbsSurface::CreateRuledSurface(c0, c2, r); }); refused("revolution axis", [&] { NurbsSurface::CreateRevolvedSurface(org, zv, 1.0, c1, r); }); refused("loft of one section", [&] { NurbsSurface::CreateLoftSurface({c0}, r); }); refused("loft of nothing", [&] { NurbsSurface::CreateLoftSurface({}, r); });
}
LAW(polynomial_calls, 6000, 250000) {
    int p = g.integer(1, 7); auto k = genKnots(g, p); g.nontrivial(); auto& U = k.U; double t = genParam(g, k); int sp = Polynomials::GetKnotSpanIndex(p, U, t), neg = -g.integer(1, 4), big = 8 + g.integer(0, 4), np = notPositive(g); auto W = unsorted(g, U); std::vector<double> none; g.note([&](std::ostream& s) { s << "p " << p << " U " << U << " t " << t << " unsorted " << W; }); double N[16]; double D[2][Constants::NURBSMaxDegree + 1];
    auto all = [&](const char* what, int s, int q, const std::vector<double>& K, bool span, bool one) { refused(what, [&] { Polynomials::BasisFunctions(s, q, K, t, N); }); refused(what, [&] { Polynomials::BasisFunctionsDerivatives(s, q, 1, K, t); }); refused(what, [&] { Polynomials::BasisFunctionsFirstOrderDerivative(s, q, K, t, D); }); refused(what, [&] { Polynomials::AllBasisFunctions(s, q, K, t); }); if (one) { refused(what, [&] { Polynomials::OneBasisFunction(s, q, K, t); }); refused(what, [&] { Polynomials::OneBasisFunctionDerivative(s, q, 1, K, t); }); } if (span) refused(what, [&] { Polynomials::GetKnotSpanIndex(q, K, t); }); };
    all("negative span index", neg, p, U, false, true); all("negative degree", sp, neg, U, true, true); all("degree above the maximum", sp, big, U, false, false); all("no knots", sp, p, none, true, true); all("unsorted knots", sp, p, W, true, true); refused("degree 0 of one basis function", [&] { Polynomials::OneBasisFunction(0, 0, U, t); }); int dv = p + g.integer(1, 3); refused("derivative above the degree", [&] { Polynomials::BasisFunctionsDerivatives(sp, p, dv, U, t); }); refused("derivative of one above the degree", [&] { Polynomials::OneBasisFunctionDerivative(0, p, dv, U, t); }); refused("first derivative of degree 0", [&] { Polynomials::BasisFunctionsFirstOrderDerivative(sp, 0, U, t, D); }); refused("multiplicity without knots", [&] { Polynomials::GetKnotMultiplicity(none, t); }); refused("multiplicity in unsorted knots", [&] { Polynomials::GetKnotMultiplicity(W, t); });
    std::vector<double> co; for (int i = 0; i <= p; i++) co.push_back(g.coord(3)); auto cx = co; if (g.boolean()) cx.push_back(1); else cx.pop_back(); double x = g.coord(2); accepted("Horner", [&] { Polynomials::Horner(p, co, x); }); refused("Horner degree", [&] { Polynomials::Horner(np, co, x); }); refused("Horner coefficients", [&] { Polynomials::Horner(p, cx, x); });
    double b = g.unit(), bo = outside(g, 0, 1); int i = g.integer(0, p); accepted("Bernstein", [&] { Polynomials::Bernstein(i, p, b); }); refused("Bernstein index below", [&] { Polynomials::Bernstein(neg, p, b); }); refused("Bernstein index above", [&] { Polynomials::Bernstein(p - neg, p, b); }); refused("Bernstein degree", [&] { Polynomials::Bernstein(0, neg, b); }); refused("Bernstein parameter", [&] { Polynomials::Bernstein(i, p, bo); }); refused("all Bernstein degree", [&] { Polynomials::AllBernstein(neg, b); }); refused("all Bernstein parameter", [&] { Polynomials::AllBernstein(p, bo); });
    int q = g.integer(1, 4); std::vector<std::vector<double>> C(p + 1, std::vector<double>(q + 1, 1.0)), Cr = C, Cc = C; Cr.pop_back(); for (auto& r : Cc) r.pop_back(); UV uv(b, b), ou(bo, b), ov(b, bo); accepted("Horner surface", [&] { Polynomials::Horner(p, q, C, uv); }); refused("Horner degree u", [&] { Polynomials::Horner(np, q, C, uv); }); refused("Horner degree v", [&] { Polynomials::Horner(p, np, C, uv); }); refused("Horner rows", [&] { Polynomials::Horner(p, q, Cr, uv); }); refused("Horner columns", [&] { Polynomials::Horner(p, q, Cc, uv); }); refused("Horner without coefficients", [&] { Polynomials::Horner(p, q, {}, uv); }); refused("Horner u", [&] { Polynomials::Horner(p, q, C, ou); }); refused("Horner v", [&] { Polynomials::Horner(p, q, C, ov); });
    refused("continuity degree", [&] { KnotVectorUtils::GetContinuity(np, U, t); }); refused("inserted elements degree", [&] { KnotVectorUtils::GetInsertedKnotElement(neg, U, k.lo(), k.hi()); }); refused("inserted elements without knots", [&] { KnotVectorUtils::GetInsertedKnotElement(p, none, k.lo(), k.hi()); }); refused("inserted elements of a reversed range", [&] { KnotVectorUtils::GetInsertedKnotElement(p, U, k.hi(), k.lo()); }); refused("inserted elements of unsorted knots", [&] { KnotVectorUtils::GetInsertedKnotElement(p, W, k.lo(), k.hi()); });
}
