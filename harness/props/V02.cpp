// V02: volume operations keep the volume
#include "gen.h"
const char* pbt::RULE = "random trivariate volumes (degrees 1-4 per direction, unequal net sizes, multiple knots, any domain, weights), operation in each of the three directions; non-trivial: interior knots or unequal weights";
static const VolumeDirection DIR[3] = {VolumeDirection::U, VolumeDirection::V, VolumeDirection::W};
static const std::vector<double>& kn(const LN_NurbsVolume& v, int d) { return d == 0 ? v.KnotVectorU : d == 1 ? v.KnotVectorV : v.KnotVectorW; }
static int dg(const LN_NurbsVolume& v, int d) { return d == 0 ? v.DegreeU : d == 1 ? v.DegreeV : v.DegreeW; }
typedef std::array<double, 3> A3;
static ld tolOf(const GVol& v) { return 1e-8L * v.scale * v.wr; }
template <class Phi> static void same(const GVol& v, const LN_NurbsVolume& r, Phi phi, const char* what) { std::vector<double> d[3] = {v.k[0].distinct, v.k[1].distinct, v.k[2].distinct}; sameVolume(v.v, d, r, phi, tolOf(v), what); }
static void same(const GVol& v, const LN_NurbsVolume& r, const char* what) { same(v, r, [](double a, double b, double c) { return A3{a, b, c}; }, what); }
static void others(const GVol& v, const LN_NurbsVolume& r, int d, const char* what) { for (int e = 0; e < 3; e++) if (e != d) { REQUIRE(dg(r, e) == v.k[e].p, what << ": degree of direction " << e); sameKnots(kn(r, e), v.k[e].U, what); } }
struct Pick { double u; int mult; };
static Pick pick(Gen& g, const Knots& k) { if (k.distinct.size() > 2 && g.chance(2, 5)) { int i = g.integer(1, (int)k.distinct.size() - 2); return {k.distinct[i], k.mult[i]}; } return {genParam(g, k, false, false), 0}; }
static std::vector<double> plus(std::vector<double> a, const std::vector<double>& b) { a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); return a; }
LAW(insert_knot, 3000, 120000) {
    auto v = genVolume(g); int d = g.integer(0, 2); const Knots& k = v.k[d]; auto q = pick(g, k); int times = g.integer(1, k.p + 1); g.tagIf(q.mult + times > k.p, "beyond-full-multiplicity"); g.note([&](std::ostream& o) { o << "insert " << q.u << " x" << times << " in direction " << d; });
    LN_NurbsVolume r; NurbsVolume::InsertKnot(v.v, q.u, times, DIR[d], r); validVolume(r, "InsertKnot"); REQUIRE(dg(r, d) == k.p, "degree"); int got = (int)kn(r, d).size() - (int)k.U.size(); REQUIRE(q.mult + times <= k.p ? got == times : got >= 0 && got <= times && q.mult + got >= k.p && q.mult + got <= k.p + 1, "inserted " << got << " of " << times); sameKnots(kn(r, d), plus(k.U, std::vector<double>(got, q.u)), "InsertKnot"); others(v, r, d, "InsertKnot, other direction"); same(v, r, "InsertKnot");
}
LAW(refine_knot_vector, 3000, 120000) {
    auto v = genVolume(g); int d = g.integer(0, 2); const Knots& k = v.k[d]; std::map<double, int> used; std::vector<double> x; int n = g.integer(1, 4); for (int j = 0; j < n; j++) { auto q = pick(g, k); if (!used.count(q.u)) used[q.u] = q.mult; int m = g.integer(1, 2); while (m-- > 0 && used[q.u] < k.p) { used[q.u]++; x.push_back(q.u); } } if (x.empty()) pbt::discard("nothing to insert"); std::sort(x.begin(), x.end()); g.note([&](std::ostream& o) { o << "refine with " << x << " in direction " << d; });
    LN_NurbsVolume r; NurbsVolume::RefineKnotVector(v.v, x, DIR[d], r); validVolume(r, "RefineKnotVector"); REQUIRE(dg(r, d) == k.p, "degree"); sameKnots(kn(r, d), plus(k.U, x), "RefineKnotVector"); others(v, r, d, "RefineKnotVector, other direction"); same(v, r, "RefineKnotVector");
}
LAW(elevate_degree, 2000, 80000) {
    auto v = genVolume(g); int d = g.integer(0, 2); const Knots& k = v.k[d]; int t = g.integer(1, 2); g.note([&](std::ostream& o) { o << "elevate by " << t << " in direction " << d; }); LN_NurbsVolume r; NurbsVolume::ElevateDegree(v.v, t, DIR[d], r); validVolume(r, "ElevateDegree"); REQUIRE(dg(r, d) == k.p + t, "degree");
    std::vector<double> want; for (size_t i = 0; i < k.distinct.size(); i++) for (int j = 0; j < k.mult[i] + t; j++) want.push_back(k.distinct[i]); sameKnots(kn(r, d), want, "ElevateDegree"); others(v, r, d, "ElevateDegree, other direction"); same(v, r, "ElevateDegree");
}
static void part(const GVol& v, const LN_NurbsVolume& r, int d, double lo, double hi, const char* what) {
    validVolume(r, what); REQUIRE(dg(r, d) == v.k[d].p, what << ": degree"); others(v, r, d, what); NEAR1(kn(r, d).front(), lo, 1e-9L * (1 + fabsl(lo)), what << ": start"); NEAR1(kn(r, d).back(), hi, 1e-9L * (1 + fabsl(hi)), what << ": end"); int p = v.k[d].p; for (int i = 0; i <= p; i++) { NEAR1(kn(r, d)[i], lo, 1e-9L * (1 + fabsl(lo)), what << ": clamped start"); NEAR1(kn(r, d)[kn(r, d).size() - 1 - i], hi, 1e-9L * (1 + fabsl(hi)), what << ": clamped end"); }
    std::vector<double> D[3]; for (int e = 0; e < 3; e++) D[e] = v.k[e].distinct; D[d] = distinctOf(kn(r, d), lo, hi); sameVolume(v.v, D, r, [](double a, double b, double c) { return A3{a, b, c}; }, tolOf(v), what);
}
LAW(split, 3000, 120000) {
    auto v = genVolume(g); int d = g.integer(0, 2); auto q = pick(g, v.k[d]); g.tagIf(q.mult > 0, "at-knot"); g.note([&](std::ostream& o) { o << "split at " << q.u << " in direction " << d; });
    LN_NurbsVolume a, b; REQUIRE(NurbsVolume::SplitAt(v.v, q.u, DIR[d], a, b), "not split"); part(v, a, d, v.k[d].lo(), q.u, "first part"); part(v, b, d, q.u, v.k[d].hi(), "second part");
}
LAW(extract_surface, 3000, 120000) {
    auto v = genVolume(g); int d = g.integer(0, 2); double t = genParam(g, v.k[d]); g.note([&](std::ostream& o) { o << "extract at " << t << " in direction " << d; }); LN_NurbsSurface s; s.DegreeU = s.DegreeV = 0; REQUIRE(NurbsVolume::Extract(v.v, t, DIR[d], s), "not extracted"); validSurface(s, "Extract");
    int e = d == 0 ? 1 : 0, f = d == 2 ? 1 : 2; REQUIRE(s.DegreeU == v.k[e].p && s.DegreeV == v.k[f].p, "degrees"); sameKnots(s.KnotVectorU, v.k[e].U, "Extract"); sameKnots(s.KnotVectorV, v.k[f].U, "Extract");
    for (double x : probes(v.k[e].distinct, 2)) for (double y : probes(v.k[f].distinct, 2)) { A3 q; q[d] = t; q[e] = x; q[f] = y; NEAR3(refEval(s, x, y), refEval(v.v, q[0], q[1], q[2]), tolOf(v), "Extract at (" << x << "," << y << ")"); }
}
LAW(reverse, 3000, 120000) {
    auto v = genVolume(g); int d = g.integer(0, 2); g.note([&](std::ostream& o) { o << "reverse direction " << d; }); LN_NurbsVolume r, b; NurbsVolume::Reverse(v.v, DIR[d], r); validVolume(r, "Reverse"); REQUIRE(dg(r, d) == v.k[d].p, "degree"); others(v, r, d, "Reverse, other direction"); double s = v.k[d].lo() + v.k[d].hi();
    NEAR1(kn(r, d).front(), v.k[d].lo(), 1e-9L * (1 + fabsl(s)), "domain"); NEAR1(kn(r, d).back(), v.k[d].hi(), 1e-9L * (1 + fabsl(s)), "domain"); same(v, r, [&](double x, double y, double z) { A3 q{x, y, z}; q[d] = s - q[d]; return q; }, "Reverse"); NurbsVolume::Reverse(r, DIR[d], b); validVolume(b, "Reverse twice"); sameKnots(kn(b, d), v.k[d].U, "Reverse twice"); same(v, b, "Reverse twice");
}
LAW(swap, 3000, 120000) {
    auto v = genVolume(g); static const int P[3][2] = {{0, 1}, {0, 2}, {1, 2}}; int i = g.integer(0, 2), a = P[i][0], b = P[i][1]; bool flip = g.boolean(); g.note([&](std::ostream& o) { o << "swap " << (flip ? b : a) << " and " << (flip ? a : b); }); LN_NurbsVolume r; r.DegreeU = r.DegreeV = r.DegreeW = 0; NurbsVolume::Swap(v.v, DIR[flip ? b : a], DIR[flip ? a : b], r); validVolume(r, "Swap");
    for (int e = 0; e < 3; e++) { int f = e == a ? b : e == b ? a : e; REQUIRE(dg(r, e) == v.k[f].p, "degree of direction " << e); sameKnots(kn(r, e), v.k[f].U, "Swap"); } same(v, r, [&](double x, double y, double z) { A3 q{x, y, z}; std::swap(q[a], q[b]); return q; }, "Swap");
}
