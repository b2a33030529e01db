// Generators of LNLib inputs and the long-double reference model used as oracle.
//
// The reference model is written from the textbook definitions (Cox-de Boor recursion, the derivative
// recursion of the basis functions, the Leibniz rule for rational functions) and shares no code with
// the library.
#pragma once
#include "engine.h"
#include "LNEnums.h"
#include "LNObject.h"
#include "Constants.h"
#include "UV.h"
#include "UVW.h"
#include "XYZ.h"
#include "XYZW.h"
#include "Matrix4d.h"
#include "MathUtils.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "ControlPointsUtils.h"
#include "ValidationUtils.h"
#include "LNLibExceptions.h"
#include "Intersection.h"
#include "Interpolation.h"
#include "Projection.h"
#include "Integrator.h"
#include "BezierCurve.h"
#include "BsplineCurve.h"
#include "NurbsCurve.h"
#include "BezierSurface.h"
#include "BsplineSurface.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <string>
#include <vector>

using namespace LNLib;
using pbt::Gen;
typedef long double ld;

// ---------------------------------------------------------------- small vectors (reference side)
struct V3 {
    ld x = 0, y = 0, z = 0;
    V3() {}
    V3(ld a, ld b, ld c) : x(a), y(b), z(c) {}
    V3(const XYZ& p) : x(p[0]), y(p[1]), z(p[2]) {}
    V3 operator+(const V3& o) const { return V3(x + o.x, y + o.y, z + o.z); }
    V3 operator-(const V3& o) const { return V3(x - o.x, y - o.y, z - o.z); }
    V3 operator*(ld s) const { return V3(x * s, y * s, z * s); }
    V3 operator/(ld s) const { return V3(x / s, y / s, z / s); }
    ld dot(const V3& o) const { return x * o.x + y * o.y + z * o.z; }
    V3 cross(const V3& o) const { return V3(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    ld len() const { return sqrtl(dot(*this)); }
    XYZ xyz() const { return XYZ((double)x, (double)y, (double)z); }
};
inline V3 operator*(ld s, const V3& v) { return v * s; }
inline std::ostream& operator<<(std::ostream& o, const V3& v) { return o << "(" << (double)v.x << "," << (double)v.y << "," << (double)v.z << ")"; }
inline std::ostream& operator<<(std::ostream& o, const XYZ& v) { return o << "(" << v[0] << "," << v[1] << "," << v[2] << ")"; }
inline std::ostream& operator<<(std::ostream& o, const XYZW& v) { return o << "(" << v[0] << "," << v[1] << "," << v[2] << ";" << v[3] << ")"; }
inline std::ostream& operator<<(std::ostream& o, const UV& v) { return o << "(" << v[0] << "," << v[1] << ")"; }
template <class T> std::ostream& operator<<(std::ostream& o, const std::vector<T>& v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; return o << "]"; }
inline std::ostream& operator<<(std::ostream& o, const LN_NurbsCurve& c) { return o << "curve{p=" << c.Degree << " U=" << c.KnotVector << " P=" << c.ControlPoints << "}"; }
inline std::ostream& operator<<(std::ostream& o, const LN_NurbsSurface& s) { return o << "surface{p=" << s.DegreeU << " q=" << s.DegreeV << " U=" << s.KnotVectorU << " V=" << s.KnotVectorV << " P=" << s.ControlPoints << "}"; }

inline bool finite3(const XYZ& p) { return std::isfinite(p[0]) && std::isfinite(p[1]) && std::isfinite(p[2]); }
inline bool finite4(const XYZW& p) { return std::isfinite(p[0]) && std::isfinite(p[1]) && std::isfinite(p[2]) && std::isfinite(p[3]); }
inline bool near1(ld a, ld b, ld tol) { ld d = fabsl(a - b); return d <= tol; }   // false for NaN
inline bool near3(const V3& a, const V3& b, ld tol) { return near1(a.x, b.x, tol) && near1(a.y, b.y, tol) && near1(a.z, b.z, tol); }

#define NEAR3(a, b, tol, msg) do { const V3 a_ = V3(a), b_ = V3(b); const ld t_ = (tol); if (!near3(a_, b_, t_)) { std::ostringstream os_; os_.precision(15); os_ << #a << " = " << a_ << ", expected " << b_ << " (|diff| " << (double)(a_ - b_).len() << " > tol " << (double)t_ << ") " << msg << " [" << __FILE__ << ":" << __LINE__ << "]"; pbt::fail(os_.str()); } } while (0)
#define NEAR1(a, b, tol, msg) do { ld a_ = (a), b_ = (b); ld t_ = (tol); if (!near1(a_, b_, t_)) { std::ostringstream os_; os_.precision(15); os_ << #a << " = " << (double)a_ << ", expected " << (double)b_ << " (tol " << (double)t_ << ") " << msg << " [" << __FILE__ << ":" << __LINE__ << "]"; pbt::fail(os_.str()); } } while (0)

// ---------------------------------------------------------------- reference B-spline model
// Span [U[i],U[i+1]) of positive length with p <= i <= n that contains t; the last one is closed.
inline int refSpan(int p, const std::vector<double>& U, ld t) {
    int n = (int)U.size() - p - 2, best = -1;
    for (int i = p; i <= n; i++) if (U[i] < U[i + 1]) { if (best < 0 || t >= U[i]) best = i; }
    return best;
}
inline int refSpanLeft(int p, const std::vector<double>& U, ld t) {   // span (U[i],U[i+1]] containing t
    int n = (int)U.size() - p - 2;
    for (int i = p; i <= n; i++) if (U[i] < U[i + 1] && t <= U[i + 1]) return i;
    return refSpan(p, U, t);
}
// derivatives 0..K of the p+1 basis functions N_{span-p..span,p} at t (polynomial pieces of that span)
std::vector<std::vector<ld>> refBasisDers(int p, const std::vector<double>& U, int span, ld t, int K);
inline ld refBinom(int n, int k) { ld r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }

// A tensor-product rational patch with up to three parameters; curves and surfaces use trivial
// (degree 0, one control point) directions for the rest.
inline const std::vector<double>& trivialKnots() { static const std::vector<double> k = {0, 1}; return k; }
struct RefPatch {           // a view: the described object must outlive it
    int p[3] = {0, 0, 0};
    const std::vector<double>* U[3] = {&trivialKnots(), &trivialKnots(), &trivialKnots()};
    const LN_NurbsCurve* c = nullptr; const LN_NurbsSurface* s = nullptr; const LN_NurbsVolume* v = nullptr;
    const XYZW& cp(int i, int j, int k) const { return c ? c->ControlPoints[i] : s ? s->ControlPoints[i][j] : v->ControlPoints[i][j][k]; }
};
inline RefPatch refOf(const LN_NurbsCurve& c) { RefPatch r; r.p[0] = c.Degree; r.U[0] = &c.KnotVector; r.c = &c; return r; }
inline RefPatch refOf(const LN_NurbsSurface& s) { RefPatch r; r.p[0] = s.DegreeU; r.p[1] = s.DegreeV; r.U[0] = &s.KnotVectorU; r.U[1] = &s.KnotVectorV; r.s = &s; return r; }

struct RefDers {          // value[a][b][c]: derivative of orders (a,b,c); bound: error amplification bound
    int K[3];
    std::vector<V3> v; std::vector<ld> bound;
    int idx(int a, int b, int c) const { return (a * (K[1] + 1) + b) * (K[2] + 1) + c; }
    const V3& operator()(int a, int b = 0, int c = 0) const { return v[idx(a, b, c)]; }
    ld tol(int a, int b = 0, int c = 0, ld rel = 1e-10L) const { return rel * (bound[idx(a, b, c)] + 1e-3L); }
};
RefDers refDers(const RefPatch& r, const ld t[3], const int K[3], const int* spans = nullptr);
inline RefDers refCurveDers(const LN_NurbsCurve& c, ld t, int K, int span = -1) { ld tt[3] = {t, 0, 0}; int KK[3] = {K, 0, 0}; int sp[3] = {span, 0, 0}; return refDers(refOf(c), tt, KK, span >= 0 ? sp : nullptr); }
inline V3 refEval(const LN_NurbsCurve& c, ld t) { return refCurveDers(c, t, 0)(0); }
inline RefDers refSurfDers(const LN_NurbsSurface& s, ld u, ld v, int Ku, int Kv) { ld tt[3] = {u, v, 0}; int KK[3] = {Ku, Kv, 0}; return refDers(refOf(s), tt, KK); }
inline V3 refEval(const LN_NurbsSurface& s, ld u, ld v) { return refSurfDers(s, u, v, 0, 0)(0); }

// ---------------------------------------------------------------- generators
struct Knots {
    int p = 1; std::vector<double> U; std::vector<double> distinct; std::vector<int> mult;   // distinct includes both ends
    double lo() const { return distinct.front(); }
    double hi() const { return distinct.back(); }
    int maxInteriorMult() const { int m = 0; for (size_t i = 1; i + 1 < mult.size(); i++) m = std::max(m, mult[i]); return m; }
};
struct KnotOpt {
    int maxInterior = 6;
    int maxMult = -1;          // -1: up to p
    bool many = true;          // now and then a long knot vector
    int manyMax = 25;
    bool unitDomain = false;
};
// laws about quantities the library only approximates (quadrature with a fixed number of nodes) switch the extreme domains, spans, weights and sizes off
inline bool& extreme() { static bool on = true; return on; }
inline Knots genKnots(Gen& g, int p, KnotOpt o = KnotOpt()) {
    Knots k; k.p = p;
    int m = g.weighted({2, 3, 3, 2, 1, 1, 1}); m = std::min(m, o.maxInterior);
    if (o.many && g.chance(1, 25)) m = g.integer(std::min(7, o.maxInterior), std::max(o.maxInterior, o.manyMax));
    double lo = 0, hi = 1;
    if (!o.unitDomain) switch (g.weighted({5, 2, 2, 1, extreme() ? 1 : 0, extreme() ? 1 : 0})) {
        case 5: lo = g.real(-2, 2); hi = lo + g.real(0.1, 0.5); m = std::min(m, 6); break;
        case 4: lo = g.real(-60, 60); hi = lo + g.real(10, 300); break;
        case 0: break;
        case 1: hi = g.integer(1, 8); break;
        case 2: lo = g.real(-5, 5); hi = lo + g.real(0.5, 8); break;
        case 3: lo = g.integer(-3, 3); hi = lo + g.integer(1, 60); break;
    }
    std::vector<double> gaps; double tot = 0; bool uniform = g.chance(1, 3), narrow = extreme() && g.chance(1, 8);
    for (int i = 0; i <= m; i++) { double v = uniform ? 1.0 : g.real(0.3, 3.0); if (narrow && g.chance(1, 3)) v *= 0.05; gaps.push_back(v); tot += v; }
    { double reach = 1 + std::max(std::fabs(lo), std::fabs(hi)), least = *std::min_element(gaps.begin(), gaps.end()) / tot * (hi - lo); if (least < 5e-3 * reach) { tot = 0; for (auto& v : gaps) { v = std::max(v, 0.3); tot += v; } } }   // spans stay far above the tolerance 1e-6 (1 + |t|) at which two knots are the same
    k.distinct.push_back(lo); double acc = 0;
    for (int i = 0; i < m; i++) { acc += gaps[i]; k.distinct.push_back(lo + (hi - lo) * (acc / tot)); }
    k.distinct.push_back(hi);
    int mm = o.maxMult < 0 ? p : std::min(o.maxMult, p);
    for (size_t i = 0; i < k.distinct.size(); i++) {
        int mu = p + 1;
        if (i > 0 && i + 1 < k.distinct.size()) mu = (mm > 1 && g.chance(1, 3)) ? g.integer(1, mm) : 1;
        k.mult.push_back(mu);
        for (int j = 0; j < mu; j++) k.U.push_back(k.distinct[i]);
    }
    return k;
}
inline int genDegree(Gen& g, int lo = 1, int hi = 7) {
    static const int pref[] = {3, 2, 1, 4, 5, 6, 7};
    for (int tries = 0; tries < 1; tries++) { int d = pref[g.weighted({6, 5, 3, 3, 2, 1, 1})]; if (d >= lo && d <= hi) return d; }
    return g.integer(lo, hi);
}
enum WeightMode { WAny, WOne, WRational };
inline std::vector<double> genWeights(Gen& g, int n, WeightMode m = WAny) {
    std::vector<double> w(n, 1.0);
    if (m == WOne) return w;
    int k = m == WRational ? 1 + g.weighted({3, 1, 1, extreme() ? 1 : 0}) : g.weighted({4, 3, 1, 1, extreme() ? 1 : 0});
    if (k == 1) for (auto& x : w) x = g.real(0.2, 5.0);
    else if (k == 2) { double c = g.real(0.25, 4.0); for (auto& x : w) x = c; }
    else if (k == 4) for (auto& x : w) x = std::pow(10.0, g.real(-1.2, 1.2));
    else if (k == 3) for (auto& x : w) x = g.chance(1, 3) ? g.real(0.2, 5.0) : 1.0;
    return w;
}
inline XYZ genPoint(Gen& g, double mag = 10) { double x = g.coord(mag), y = g.coord(mag), z = g.coord(mag); return XYZ(x, y, z); }
// n points; modes: 0 random, 1 progressing along x, 2 planar, 3 collinear, 4 repeated points
inline std::vector<XYZ> genPoints(Gen& g, int n, double mag, bool allowDegenerate) {
    std::vector<XYZ> P(n);
    int mode = allowDegenerate ? g.weighted({5, 4, 2, 1, 1}) : g.weighted({5, 4, 2});
    XYZ a = genPoint(g, mag), b = genPoint(g, mag);
    for (int i = 0; i < n; i++) {
        switch (mode) {
        case 0: P[i] = genPoint(g, mag); break;
        case 1: { double y = g.coord(mag), z = g.coord(mag); P[i] = XYZ(mag * (i + 0.4 * g.unit()) / std::max(1, n - 1), y, z); break; }
        case 2: { double x = g.coord(mag), y = g.coord(mag); P[i] = XYZ(x, y, 0); break; }
        case 3: { double s = g.coord(1.0); P[i] = XYZ(a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]); break; }
        case 4: P[i] = (i > 0 && g.chance(1, 3)) ? P[i - 1] : genPoint(g, mag); break;
        }
    }
    return P;
}
inline double genMag(Gen& g) { static const double M[] = {10, 1, 100, 1000, 0.3}; return M[g.weighted({6, 2, 1, extreme() ? 1 : 0, extreme() ? 1 : 0})]; }

struct CurveOpt {
    int minDegree = 1, maxDegree = 7;
    KnotOpt knots;
    WeightMode weights = WAny;
    bool degenerate = true;     // allow collinear / repeated control points
};
struct GCurve { LN_NurbsCurve c; Knots k; double scale; bool rational; double wr; };
inline void finish(GCurve& r, const std::vector<XYZ>& P, const std::vector<double>& w) {
    r.scale = 1; double mn = 1e300, mx = 0; r.c.ControlPoints.clear();
    for (size_t i = 0; i < P.size(); i++) {
        r.c.ControlPoints.push_back(XYZW(P[i], w[i]));
        for (int j = 0; j < 3; j++) r.scale = std::max(r.scale, std::fabs(P[i][j]));
        mn = std::min(mn, w[i]); mx = std::max(mx, w[i]);
    }
    r.wr = mx / mn; r.rational = mx != mn;
}
inline GCurve genCurve(Gen& g, CurveOpt o = CurveOpt()) {
    GCurve r; int p = genDegree(g, o.minDegree, o.maxDegree);
    r.k = genKnots(g, p, o.knots);
    r.c.Degree = p; r.c.KnotVector = r.k.U;
    int n = (int)r.k.U.size() - p - 1; double mag = genMag(g);
    auto P = genPoints(g, n, mag, o.degenerate);
    auto w = genWeights(g, n, o.weights);
    finish(r, P, w);
    g.tagIf(r.rational, "rational"); g.tagIf(r.k.maxInteriorMult() > 1, "multiple-interior-knots"); g.tagIf(r.k.distinct.size() > 2, "interior-knots");
    g.tagIf(r.k.lo() != 0 || r.k.hi() != 1, "domain-not-[0,1]"); g.tagIf(p == 1, "degree-1"); g.tagIf(p >= 4, "degree>=4");
    g.nontrivial(r.k.distinct.size() > 2 || r.rational);
    g.note([&](std::ostream& s) { s << r.c << " "; });
    return r;
}
// a parameter: domain end, exactly a knot, or at least 1e-3 of a span away from every knot
inline double genParam(Gen& g, const Knots& k, bool ends = true, bool atKnots = true) {
    int m = (int)k.distinct.size();
    switch (g.weighted({5, ends ? 2 : 0, (atKnots && m > 2) ? 3 : 0})) {
    case 1: g.tag("param-at-end"); return g.boolean() ? k.hi() : k.lo();
    case 2: g.tag("param-at-knot"); return k.distinct[g.integer(1, m - 2)];
    default: break;
    }
    int i = g.integer(0, m - 2); double f = g.chance(1, 4) ? 0.5 : 0.001 + 0.998 * g.unit();
    return k.distinct[i] + f * (k.distinct[i + 1] - k.distinct[i]);
}
// p+1 (or more) probe parameters in every span, plus every knot: enough to pin down each polynomial piece
inline std::vector<double> probes(const std::vector<double>& distinct, int perSpan) {
    std::vector<double> r;
    for (size_t i = 0; i + 1 < distinct.size(); i++) {
        r.push_back(distinct[i]);
        for (int j = 1; j <= perSpan; j++) r.push_back(distinct[i] + (distinct[i + 1] - distinct[i]) * j / (perSpan + 1.0));
    }
    r.push_back(distinct.back());
    return r;
}
inline std::vector<double> distinctOf(const std::vector<double>& U, double lo, double hi) {
    std::vector<double> d; for (double u : U) if (u >= lo && u <= hi && (d.empty() || u > d.back() + 1e-9 * (1 + std::fabs(u)))) d.push_back(u); return d;
}
// structural well-formedness of a curve returned by the library
inline void validCurve(const LN_NurbsCurve& c, const char* what) {
    REQUIRE(c.Degree >= 1, what << ": degree " << c.Degree);
    REQUIRE(c.ControlPoints.size() >= (size_t)c.Degree + 1, what << ": " << c);
    REQUIRE(c.KnotVector.size() == c.ControlPoints.size() + c.Degree + 1, what << ": knots " << c.KnotVector.size() << " control points " << c.ControlPoints.size() << " degree " << c.Degree << " " << c);
    for (size_t i = 0; i < c.KnotVector.size(); i++) { REQUIRE(std::isfinite(c.KnotVector[i]), what << ": " << c); if (i) REQUIRE(c.KnotVector[i] >= c.KnotVector[i - 1], what << ": decreasing knots " << c.KnotVector); }
    REQUIRE(c.KnotVector.front() < c.KnotVector.back(), what << ": empty domain " << c.KnotVector);
    for (auto& q : c.ControlPoints) { REQUIRE(finite4(q), what << ": non-finite control point " << c); REQUIRE(q[3] > 0, what << ": weight " << q[3]); }
}
inline void validSurface(const LN_NurbsSurface& s, const char* what) {
    REQUIRE(s.DegreeU >= 1 && s.DegreeV >= 1, what << ": degrees");
    REQUIRE(s.ControlPoints.size() >= (size_t)s.DegreeU + 1, what << ": rows " << s.ControlPoints.size());
    size_t m = s.ControlPoints[0].size();
    REQUIRE(m >= (size_t)s.DegreeV + 1, what << ": columns " << m);
    REQUIRE(s.KnotVectorU.size() == s.ControlPoints.size() + s.DegreeU + 1, what << ": U knots " << s.KnotVectorU.size() << " rows " << s.ControlPoints.size() << " degree " << s.DegreeU);
    REQUIRE(s.KnotVectorV.size() == m + s.DegreeV + 1, what << ": V knots " << s.KnotVectorV.size() << " columns " << m << " degree " << s.DegreeV);
    for (auto* K : {&s.KnotVectorU, &s.KnotVectorV}) { for (size_t i = 0; i < K->size(); i++) { REQUIRE(std::isfinite((*K)[i]), what); if (i) REQUIRE((*K)[i] >= (*K)[i - 1], what << ": decreasing knots " << *K); } REQUIRE(K->front() < K->back(), what << ": empty domain"); }
    for (auto& row : s.ControlPoints) { REQUIRE(row.size() == m, what << ": ragged control net"); for (auto& q : row) { REQUIRE(finite4(q), what << ": non-finite control point"); REQUIRE(q[3] > 0, what << ": weight " << q[3]); } }
}
// result(phi(t)) == original(t) at enough parameters to determine every piece
template <class Phi> void sameCurve(const LN_NurbsCurve& a, const std::vector<double>& distinctA, const LN_NurbsCurve& b, Phi phi, ld tol, const char* what) {
    for (double t : probes(distinctA, std::max(a.Degree, b.Degree) + 1)) NEAR3(refEval(b, phi(t)), refEval(a, t), tol, what << " at t=" << t << " of " << a << " result " << b);
}
inline void sameCurve(const LN_NurbsCurve& a, const std::vector<double>& d, const LN_NurbsCurve& b, ld tol, const char* what) { sameCurve(a, d, b, [](double t) { return t; }, tol, what); }
inline void sameKnots(const std::vector<double>& got, const std::vector<double>& want, const char* what, double tol = 1e-9) {
    REQUIRE(got.size() == want.size(), what << ": knot vector " << got << " expected " << want);
    for (size_t i = 0; i < got.size(); i++) REQUIRE(std::fabs(got[i] - want[i]) <= tol * (1 + std::fabs(want[i])), what << ": knot vector " << got << " expected " << want);
}

inline bool& degenerateNets() { static bool b = false; return b; }     // closed, collapsed and collinear nets now and then
struct SurfOpt { int minDegree = 1, maxDegree = 7; KnotOpt knots; WeightMode weights = WAny; bool graph = false; SurfOpt() { knots.maxInterior = 3; knots.manyMax = 8; } };
struct GSurf { LN_NurbsSurface s; Knots ku, kv; double scale; bool rational; double wr; };
inline GSurf genSurface(Gen& g, SurfOpt o = SurfOpt()) {
    GSurf r; int p = genDegree(g, o.minDegree, o.maxDegree), q = genDegree(g, o.minDegree, o.maxDegree);
    r.ku = genKnots(g, p, o.knots); r.kv = genKnots(g, q, o.knots);
    r.s.DegreeU = p; r.s.DegreeV = q; r.s.KnotVectorU = r.ku.U; r.s.KnotVectorV = r.kv.U;
    int n = (int)r.ku.U.size() - p - 1, m = (int)r.kv.U.size() - q - 1; double mag = genMag(g);
    int mode = o.graph ? 1 : g.weighted({3, 3, 1});
    auto w = genWeights(g, n * m, o.weights);
    r.scale = 1; double mn = 1e300, mx = 0;
    for (int i = 0; i < n; i++) {
        std::vector<XYZW> row;
        for (int j = 0; j < m; j++) {
            XYZ P;
            if (mode == 0) P = genPoint(g, mag);
            else if (mode == 1) { double dx = 0.3 * g.unit(), dy = 0.3 * g.unit(), z = g.coord(mag / 2); P = XYZ(mag * (i + dx) / std::max(1, n - 1), mag * (j + dy) / std::max(1, m - 1), z); }
            else { double x = g.coord(mag), y = g.coord(mag); P = XYZ(x, y, 0); }
            row.push_back(XYZW(P, w[i * m + j]));
            for (int c = 0; c < 3; c++) r.scale = std::max(r.scale, std::fabs(P[c]));
            mn = std::min(mn, w[i * m + j]); mx = std::max(mx, w[i * m + j]);
        }
        r.s.ControlPoints.push_back(row);
    }
    if (degenerateNets() && !o.graph && g.chance(1, 8)) {
        auto& P = r.s.ControlPoints; auto move = [](XYZW& q, const XYZW& to) { q = XYZW(to.ToXYZ(true), q.GetW()); };
        switch (g.integer(0, 5)) {
        case 0: for (int j = 0; j < m; j++) move(P[n - 1][j], P[0][j]); g.tag("net-closed-in-u"); break;
        case 1: for (int i = 0; i < n; i++) move(P[i][m - 1], P[i][0]); g.tag("net-closed-in-v"); break;
        case 2: for (int j = 1; j < m; j++) move(P[0][j], P[0][0]); g.tag("net-pole"); break;
        case 3: for (int i = 1; i < n; i++) move(P[i][m - 1], P[0][m - 1]); g.tag("net-pole"); break;
        case 4: for (int i = 1; i < n; i++) if (g.chance(1, 3)) P[i] = P[i - 1]; g.tag("net-repeated-rows"); break;
        default: { XYZ a = P[0][0].ToXYZ(true), b = P[n - 1][m - 1].ToXYZ(true) - a; for (auto& row : P) for (auto& c : row) { double t = g.unit(); c = XYZW(a + t * b, c.GetW()); } g.tag("net-collinear"); }
        }
    }
    r.wr = mx / mn; r.rational = mx != mn;
    g.tagIf(r.rational, "rational"); g.tagIf(r.ku.maxInteriorMult() > 1 || r.kv.maxInteriorMult() > 1, "multiple-interior-knots");
    g.tagIf(p != q, "degrees-differ"); g.tagIf(n != m, "non-square-net"); g.tagIf(p == 1 || q == 1, "degree-1");
    g.nontrivial(r.ku.distinct.size() > 2 || r.kv.distinct.size() > 2 || r.rational);
    g.note([&](std::ostream& s) { s << r.s << " "; });
    return r;
}
// result(phi(u),psi(v)) == original(u,v) at enough parameters to determine every polynomial piece
template <class Phi> void sameSurface(const LN_NurbsSurface& a, const std::vector<double>& du, const std::vector<double>& dv, const LN_NurbsSurface& b, Phi phi, ld tol, const char* what) {
    auto pu = probes(du, std::max(a.DegreeU, b.DegreeU) + 1), pv = probes(dv, std::max(a.DegreeV, b.DegreeV) + 1);
    size_t su = 1 + pu.size() / 14, sv = 1 + pv.size() / 14;   // large nets: a coprime stride keeps every span covered several times
    for (size_t i = 0; i < pu.size(); i += (i + su < pu.size() || i + 1 == pu.size()) ? su : pu.size() - 1 - i) for (size_t j = 0; j < pv.size(); j += (j + sv < pv.size() || j + 1 == pv.size()) ? sv : pv.size() - 1 - j) { UV q = phi(pu[i], pv[j]); NEAR3(refEval(b, q[0], q[1]), refEval(a, pu[i], pv[j]), tol, what << " at (" << pu[i] << "," << pv[j] << ")"); }
}
inline void sameSurface(const LN_NurbsSurface& a, const std::vector<double>& du, const std::vector<double>& dv, const LN_NurbsSurface& b, ld tol, const char* what) { sameSurface(a, du, dv, b, [](double u, double v) { return UV(u, v); }, tol, what); }
// a curve whose x coordinate increases with the parameter: regular (|C'| > 0) and invertible through x
inline GCurve genRegular(Gen& g, CurveOpt o = CurveOpt(), double amp = 1.0) {
    GCurve r; int p = genDegree(g, o.minDegree, o.maxDegree); r.k = genKnots(g, p, o.knots); r.c.Degree = p; r.c.KnotVector = r.k.U;
    int n = (int)r.k.U.size() - p - 1; double mag = genMag(g); bool planar = g.chance(1, 3); std::vector<XYZ> P; double x = g.coord(mag);
    for (int i = 0; i < n; i++) { double y = g.coord(mag * amp), z = planar ? 0 : g.coord(mag * amp); P.push_back(XYZ(x, y, z)); x += mag * g.real(0.3, 1.0); }
    finish(r, P, genWeights(g, n, o.weights));
    g.tagIf(r.rational, "rational"); g.tagIf(r.k.maxInteriorMult() > 1, "multiple-interior-knots"); g.tagIf(r.k.distinct.size() > 2, "interior-knots");
    g.tagIf(r.k.lo() != 0 || r.k.hi() != 1, "domain-not-[0,1]"); g.nontrivial(r.k.distinct.size() > 2 || r.rational);
    g.note([&](std::ostream& s) { s << r.c << " "; });
    return r;
}
// length of the curve over [a,b]: 10-point Gauss-Legendre on sub-intervals of every span
inline ld refLength(const LN_NurbsCurve& c, ld a, ld b, int sub = 12) {
    static const ld X[] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L};
    static const ld W[] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L};
    std::vector<ld> br{a}; for (double u : c.KnotVector) if (u > br.back() && u < b) br.push_back(u); br.push_back(b);
    ld L = 0;
    for (size_t i = 0; i + 1 < br.size(); i++) for (int k = 0; k < sub; k++) {
        ld lo = br[i] + (br[i + 1] - br[i]) * k / sub, hi = br[i] + (br[i + 1] - br[i]) * (k + 1) / sub, h = (hi - lo) / 2, m = (hi + lo) / 2, s = 0;
        int span = refSpan(c.Degree, c.KnotVector, m);
        for (int q = 0; q < 5; q++) s += W[q] * (refCurveDers(c, m - h * X[q], 1, span)(1).len() + refCurveDers(c, m + h * X[q], 1, span)(1).len());
        L += s * h;
    }
    return L;
}
inline LN_BsplineCurve<XYZW> asBspline(const LN_NurbsCurve& c) { LN_BsplineCurve<XYZW> b; b.Degree = c.Degree; b.KnotVector = c.KnotVector; b.ControlPoints = c.ControlPoints; return b; }
// ---------------------------------------------------------------- reference linear algebra
typedef std::vector<std::vector<ld>> LMat;
// Gauss-Jordan with partial pivoting: inverse of A; returns false if singular to working precision
inline bool refInverse(LMat A, LMat& inv) {
    int n = (int)A.size(); inv.assign(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; i++) inv[i][i] = 1;
    ld mx = 0; for (auto& r : A) for (ld x : r) mx = std::max(mx, fabsl(x));
    for (int c = 0; c < n; c++) {
        int b = c; for (int i = c + 1; i < n; i++) if (fabsl(A[i][c]) > fabsl(A[b][c])) b = i;
        if (fabsl(A[b][c]) <= 1e-17L * mx) return false;
        std::swap(A[b], A[c]); std::swap(inv[b], inv[c]); ld d = A[c][c];
        for (int j = 0; j < n; j++) { A[c][j] /= d; inv[c][j] /= d; }
        for (int i = 0; i < n; i++) if (i != c && A[i][c] != 0) { ld f = A[i][c]; for (int j = 0; j < n; j++) { A[i][j] -= f * A[c][j]; inv[i][j] -= f * inv[c][j]; } }
    }
    return true;
}
inline ld normInf(const LMat& A) { ld m = 0; for (auto& r : A) { ld s = 0; for (ld x : r) s += fabsl(x); m = std::max(m, s); } return m; }
// full row of basis function values (or derivatives) at t
inline std::vector<ld> refRow(int p, const std::vector<double>& U, ld t, int der = 0) {
    int n = (int)U.size() - p - 1, s = refSpan(p, U, t); std::vector<ld> r(n, 0); auto b = refBasisDers(p, U, s, t, der);
    for (int j = 0; j <= p; j++) r[s - p + j] = b[der][j];
    return r;
}
// ---------------------------------------------------------------- volumes
inline RefPatch refOf(const LN_NurbsVolume& v) { RefPatch r; r.p[0] = v.DegreeU; r.p[1] = v.DegreeV; r.p[2] = v.DegreeW; r.U[0] = &v.KnotVectorU; r.U[1] = &v.KnotVectorV; r.U[2] = &v.KnotVectorW; r.v = &v; return r; }
inline RefDers refVolDers(const LN_NurbsVolume& s, ld u, ld v, ld w, int K) { ld tt[3] = {u, v, w}; int KK[3] = {K, K, K}; return refDers(refOf(s), tt, KK); }
inline V3 refEval(const LN_NurbsVolume& s, ld u, ld v, ld w) { return refVolDers(s, u, v, w, 0)(0); }
inline std::ostream& operator<<(std::ostream& o, const LN_NurbsVolume& s) { return o << "volume{p=" << s.DegreeU << " q=" << s.DegreeV << " r=" << s.DegreeW << " U=" << s.KnotVectorU << " V=" << s.KnotVectorV << " W=" << s.KnotVectorW << " P=" << s.ControlPoints << "}"; }
struct GVol { LN_NurbsVolume v; Knots k[3]; double scale, wr; bool rational; };
struct VolOpt { int maxDegree = 4; KnotOpt knots; WeightMode weights = WAny; bool box = false; VolOpt() { knots.maxInterior = 2; knots.many = false; } };
inline GVol genVolume(Gen& g, VolOpt o = VolOpt()) {
    GVol r; for (int d = 0; d < 3; d++) { bool high = o.maxDegree >= 4 && g.chance(1, 12); KnotOpt ko = o.knots; if (high) ko.maxInterior = std::min(1, ko.maxInterior); r.k[d] = genKnots(g, high ? g.integer(5, 7) : genDegree(g, 1, o.maxDegree), ko); }
    r.v.DegreeU = r.k[0].p; r.v.DegreeV = r.k[1].p; r.v.DegreeW = r.k[2].p; r.v.KnotVectorU = r.k[0].U; r.v.KnotVectorV = r.k[1].U; r.v.KnotVectorW = r.k[2].U;
    int n[3]; for (int d = 0; d < 3; d++) n[d] = (int)r.k[d].U.size() - r.k[d].p - 1; double mag = genMag(g); auto w = genWeights(g, n[0] * n[1] * n[2], o.weights); bool box = o.box || g.chance(1, 2); size_t c = 0; r.scale = 1; double mn = 1e300, mx = 0;
    r.v.ControlPoints.assign(n[0], {}); for (int i = 0; i < n[0]; i++) { r.v.ControlPoints[i].assign(n[1], {}); for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++, c++) {
        XYZ P; if (box) { double a = 0.3 * g.unit(), b = 0.3 * g.unit(), d = 0.3 * g.unit(); P = XYZ(mag * (i + a) / (n[0] - 1), mag * (j + b) / (n[1] - 1), mag * (k + d) / (n[2] - 1)); } else P = genPoint(g, mag);
        r.v.ControlPoints[i][j].push_back(XYZW(P, w[c])); for (int q = 0; q < 3; q++) r.scale = std::max(r.scale, std::fabs(P[q])); mn = std::min(mn, w[c]); mx = std::max(mx, w[c]); } }
    r.wr = mx / mn; r.rational = mx != mn; bool inner = false, mult = false; for (auto& k : r.k) { inner |= k.distinct.size() > 2; mult |= k.maxInteriorMult() > 1; }
    g.tagIf(r.rational, "rational"); g.tagIf(mult, "multiple-interior-knots"); g.tagIf(n[0] != n[1] || n[1] != n[2], "unequal-net-sizes"); g.nontrivial(inner || r.rational); g.note([&](std::ostream& s) { s << r.v << " "; });
    return r;
}
inline void validVolume(const LN_NurbsVolume& s, const char* what) {
    REQUIRE(s.DegreeU >= 1 && s.DegreeV >= 1 && s.DegreeW >= 1, what << ": degrees"); size_t n = s.ControlPoints.size(); REQUIRE(n >= 1, what << ": empty"); size_t m = s.ControlPoints[0].size(); REQUIRE(m >= 1, what << ": empty"); size_t l = s.ControlPoints[0][0].size();
    REQUIRE(s.KnotVectorU.size() == n + s.DegreeU + 1, what << ": U knots " << s.KnotVectorU.size() << " net " << n << " degree " << s.DegreeU); REQUIRE(s.KnotVectorV.size() == m + s.DegreeV + 1, what << ": V knots " << s.KnotVectorV.size() << " net " << m << " degree " << s.DegreeV); REQUIRE(s.KnotVectorW.size() == l + s.DegreeW + 1, what << ": W knots " << s.KnotVectorW.size() << " net " << l << " degree " << s.DegreeW);
    for (auto* K : {&s.KnotVectorU, &s.KnotVectorV, &s.KnotVectorW}) { for (size_t i = 0; i < K->size(); i++) { REQUIRE(std::isfinite((*K)[i]), what); if (i) REQUIRE((*K)[i] >= (*K)[i - 1], what << ": decreasing knots " << *K); } REQUIRE(K->front() < K->back(), what << ": empty domain"); }
    for (auto& a : s.ControlPoints) { REQUIRE(a.size() == m, what << ": ragged"); for (auto& b : a) { REQUIRE(b.size() == l, what << ": ragged"); for (auto& q : b) { REQUIRE(finite4(q), what << ": non-finite control point"); REQUIRE(q[3] > 0, what << ": weight " << q[3]); } } }
}
// result(phi(u,v,w)) == original(u,v,w) on a grid that hits every span of the original several times
template <class Phi> void sameVolume(const LN_NurbsVolume& a, const std::vector<double> d[3], const LN_NurbsVolume& b, Phi phi, ld tol, const char* what) {
    std::vector<double> p[3]; const int db[3] = {b.DegreeU, b.DegreeV, b.DegreeW}; for (int i = 0; i < 3; i++) { p[i] = probes(d[i], std::min(3, db[i] + 1)); while (p[i].size() > 8) { std::vector<double> q; for (size_t j = 0; j < p[i].size(); j++) if (j % 2 == 0 || j + 1 == p[i].size()) q.push_back(p[i][j]); p[i] = q; } }
    for (double u : p[0]) for (double v : p[1]) for (double w : p[2]) { auto q = phi(u, v, w); NEAR3(refEval(b, q[0], q[1], q[2]), refEval(a, u, v, w), tol, what << " at (" << u << "," << v << "," << w << ")"); }
}
