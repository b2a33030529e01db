// U01: octree over points: structure, radius search and nearest neighbours against brute force
#include "gen.h"
#include "Octree.h"
#include <memory>
#include <set>
const char* pbt::RULE = "1 to 200 points (random, clustered, on a lattice, collinear, repeated) of magnitude 1e-3 to 1e3, leaf sizes 1 to 10, queries inside, outside and at the points; a case is non-trivial when the tree has an inner node";
struct Cloud { std::vector<XYZ> p; double mag; std::unique_ptr<Octant> t; int leaf; double minExtent; };
static Cloud gen(Gen& g) {
    Cloud c; static const double M[] = {10, 1, 1e-1, 1e-2, 1e-3, 1e3}; c.mag = M[g.weighted({4, 3, 2, 2, 2, 2})]; int n = g.chance(1, 5) ? g.integer(40, 200) : g.integer(1, 40), mode = g.weighted({3, 2, 2, 1, 1}); XYZ o = g.boolean() ? XYZ(0, 0, 0) : genPoint(g, c.mag), d = genPoint(g, c.mag);
    for (int i = 0; i < n; i++) { XYZ q; switch (mode) { case 0: q = genPoint(g, c.mag); break; case 1: { double f = g.unit(); q = genPoint(g, c.mag) * (f * f * f); break; } case 2: q = XYZ(g.integer(0, 4), g.integer(0, 4), g.integer(0, 2)) * (c.mag / 4); break; case 3: q = d * g.unit(); break; default: q = i && g.chance(1, 2) ? c.p[g.integer(0, i - 1)] - o : genPoint(g, c.mag); } c.p.push_back(o + q); }
    c.leaf = g.integer(1, 10); c.minExtent = c.mag * g.real(1e-4, 0.1); c.t.reset(OctreeConstruction(c.p, c.leaf, c.minExtent)); g.nontrivial(c.t && !c.t->IsLeaf); static const char* T[] = {"random", "clustered", "lattice", "collinear", "repeated"}; g.tag(T[mode]); g.tagIf(c.mag < 1e-1, "small-scale");
    g.note([&](std::ostream& s) { s.precision(17); s << "leaf " << c.leaf << " minExtent " << c.minExtent << " points"; for (auto& q : c.p) s << " " << q; }); return c;
}
static XYZ query(Gen& g, const Cloud& c) { XYZ q = g.chance(1, 4) ? c.p[g.integer(0, (int)c.p.size() - 1)] : genPoint(g, 1.7 * c.mag); g.note([&](std::ostream& s) { s << " query " << q; }); return q; }
static void walk(const Octant* o, const Cloud& c, int depth, std::multiset<int>& leaves) {
    REQUIRE(depth < 60, "depth"); double tol = 2e-6 * (1 + 3 * c.mag); for (int i : o->PointIndices) { REQUIRE(i >= 0 && i < (int)c.p.size(), "index " << i); for (int k = 0; k < 3; k++) REQUIRE(std::fabs(c.p[i][k] - o->Center[k]) <= o->Extent + tol, "point " << i << " outside its octant"); }
    if (o->IsLeaf) { REQUIRE((int)o->PointIndices.size() <= c.leaf || o->Extent <= c.minExtent, "leaf with " << o->PointIndices.size() << " points, leaf size " << c.leaf); leaves.insert(o->PointIndices.begin(), o->PointIndices.end()); for (auto* k : o->Children) REQUIRE(!k, "leaf with children"); return; }
    std::multiset<int> mine(o->PointIndices.begin(), o->PointIndices.end()), sub; for (auto* k : o->Children) if (k) { REQUIRE(!k->PointIndices.empty(), "empty octant"); NEAR1(k->Extent, o->Extent / 2, 1e-12L * (1 + c.mag), "child extent"); for (int a = 0; a < 3; a++) NEAR1(std::fabs(k->Center[a] - o->Center[a]), o->Extent / 2, 1e-9L * (1 + c.mag), "child centre"); sub.insert(k->PointIndices.begin(), k->PointIndices.end()); walk(k, c, depth + 1, leaves); } REQUIRE(mine == sub, "children do not partition the points");
}
LAW(structure, 8000, 300000) { auto c = gen(g); REQUIRE(c.t, "no tree"); std::multiset<int> l; walk(c.t.get(), c, 0, l); REQUIRE(l.size() == c.p.size(), l.size() << " of " << c.p.size() << " points in leaves"); for (int i = 0; i < (int)c.p.size(); i++) REQUIRE(l.count(i) == 1, "point " << i << " in " << l.count(i) << " leaves"); }
LAW(radius_search, 12000, 500000) {
    auto c = gen(g); for (int rep = 0; rep < 6; rep++) { XYZ q = query(g, c); std::vector<ld> d; for (auto& p : c.p) d.push_back((V3(p) - V3(q)).len()); double r = g.chance(1, 3) ? (double)d[g.integer(0, (int)d.size() - 1)] * g.real(0.9, 1.1) : c.mag * g.real(0.01, 2); int want = 0, unsure = 0; for (ld x : d) { if (fabsl(x - r) <= 2.5e-6L * (1 + r)) unsure++; else if (x < r) want++; } g.note([&](std::ostream& s) { s << " radius " << r; });
      RadiusNnResultSet a(r), b(r); OctreeRadiusSearch(c.t.get(), c.p, a, q); OctreeRadiusSearchFast(c.t.get(), c.p, b, q); REQUIRE(a.Size() >= want && a.Size() <= want + unsure, "radius search found " << a.Size() << " of " << want); REQUIRE(b.Size() >= want && b.Size() <= want + unsure, "fast radius search found " << b.Size() << " of " << want); }
}
LAW(nearest_neighbours, 12000, 500000) {
    auto c = gen(g); for (int rep = 0; rep < 6; rep++) { XYZ q = query(g, c); int k = g.integer(1, 8); std::vector<ld> d; for (auto& p : c.p) d.push_back((V3(p) - V3(q)).len()); std::sort(d.begin(), d.end()); g.note([&](std::ostream& s) { s << " k " << k; }); KnnResultSet r(k); OctreeKnnSearch(c.t.get(), c.p, r, q); int n = (int)c.p.size(); REQUIRE(r.Size() == std::min(k, n), "size " << r.Size()); REQUIRE(r.Full() == (n >= k), "full"); if (n >= k) NEAR1(r.WorstDist(), d[k - 1], 2.5e-6L * (1 + d[k - 1]), "distance of neighbour " << k); }
}
LAW(cell_tests, 20000, 1000000) {   // ball inside the cell, ball meets the cell, cell inside the ball: against exact geometry, off the boundary
    double e = g.real(0.1, 5), r = g.real(0.01, 8); XYZ o = genPoint(g, 5), q = o + genPoint(g, 8); Octant c(o, e, {}, true); g.nontrivial(); g.note([&](std::ostream& s) { s << "cell " << o << " extent " << e << " ball " << q << " radius " << r; }); ld in = 1e300L, far2 = 0, near2 = 0; for (int k = 0; k < 3; k++) { ld a = fabsl((ld)q[k] - o[k]); in = std::min(in, e - a - r); far2 += (a + e) * (a + e); ld m = std::max(a - e, (ld)0); near2 += m * m; } ld tol = 1e-4L * 30;
    if (fabsl(in) > tol) REQUIRE(Inside(q, r, &c) == (in > 0), "Inside"); if (fabsl(near2 - (ld)r * r) > tol) REQUIRE(Overlaps(q, r, &c) == (near2 < (ld)r * r), "Overlaps"); if (fabsl(sqrtl(far2) - r) > tol) REQUIRE(Contains(q, r, &c) == (sqrtl(far2) < r), "Contains");
}
LAW(empty, 10, 100) { g.nontrivial(); g.integer(0, 100); std::vector<XYZ> p; REQUIRE(!OctreeConstruction(p, 3, 0.1), "tree of nothing"); KnnResultSet k(3); RadiusNnResultSet r(1); OctreeKnnSearch(nullptr, p, k, XYZ(0, 0, 0)); OctreeRadiusSearch(nullptr, p, r, XYZ(0, 0, 0)); OctreeRadiusSearchFast(nullptr, p, r, XYZ(0, 0, 0)); REQUIRE(k.Size() == 0 && r.Size() == 0, "found something"); }
