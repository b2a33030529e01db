// U02: Voronoi diagram and Delaunay triangulation of plane sites
#include "gen.h"
#include "Voronoi.h"
const char* pbt::RULE = "3 to 250 plane sites (in one law some thousands on a jittered grid) with a minimum separation: random, clustered, on a grid, on a circle, and in general position with collinear runs; every case is non-trivial";
struct Sites { std::vector<float> x, y; float s; };
static Sites gen(Gen& g, bool degenerate) {
    Sites r; r.s = (float)(1 << g.integer(0, 5)); int n = g.chance(1, 6) ? g.integer(60, 250) : g.integer(3, 40); float ox = (float)g.integer(-2, 2) * r.s / 2, oy = (float)g.integer(-2, 2) * r.s / 2; double sep = 0.15 / std::sqrt((double)n); int mode = degenerate ? g.weighted({3, 3, 2, 2}) : g.weighted({3, 3}); auto add = [&](double a, double b) { a = std::round(a * 256) / 256; b = std::round(b * 256) / 256;   // single precision: either exactly degenerate or clearly not
        float X = ox + (float)(a * r.s), Y = oy + (float)(b * r.s); for (size_t i = 0; i < r.x.size(); i++) if (std::hypot(X - r.x[i], Y - r.y[i]) < sep * r.s) return; r.x.push_back(X); r.y.push_back(Y); };
    if (mode == 0) for (int i = 0; i < n; i++) { double a = g.unit(), b = g.unit(); add(a, b); }
    else if (mode == 1) for (int i = 0; i < n; i++) { double a = g.unit(), b = g.unit(); add(a * a, b * b * b); }
    else if (mode == 2) { int w = g.integer(2, 8), h = g.integer(2, 8); for (int i = 0; i < w; i++) for (int j = 0; j < h; j++) if (!g.chance(1, 8)) add(i / 8.0, j / 8.0); g.tag("grid"); }
    else { for (int i = 0; i < n; i++) { double a = g.unit(), b = g.unit(); add(g.boolean() ? 0.5 : a, g.boolean() ? 0.25 : b); } g.tag("collinear-runs"); }
    if (g.boolean()) for (size_t i = r.x.size(); i > 1; i--) { size_t j = g.integer(0, (int)i - 1); std::swap(r.x[i - 1], r.x[j]); std::swap(r.y[i - 1], r.y[j]); }
    if (r.x.size() < 3) pbt::discard("few sites"); g.nontrivial(); g.note([&](std::ostream& o) { for (size_t i = 0; i < r.x.size(); i++) o << "(" << r.x[i] << "," << r.y[i] << ") "; }); return r;
}
static ld cr(const Sites& s, int a, int b, int c) { return ((ld)s.x[b] - s.x[a]) * ((ld)s.y[c] - s.y[a]) - ((ld)s.y[b] - s.y[a]) * ((ld)s.x[c] - s.x[a]); }
static ld hullArea(const Sites& s) { std::vector<int> id(s.x.size()); for (size_t i = 0; i < id.size(); i++) id[i] = (int)i; std::sort(id.begin(), id.end(), [&](int a, int b) { return s.x[a] < s.x[b] || (s.x[a] == s.x[b] && s.y[a] < s.y[b]); }); std::vector<int> h; for (int pass = 0; pass < 2; pass++) { size_t base = h.size(); for (int i : id) { while (h.size() >= base + 2 && cr(s, h[h.size() - 2], h.back(), i) <= 0) h.pop_back(); h.push_back(i); } h.pop_back(); std::reverse(id.begin(), id.end()); } ld A = 0; for (size_t i = 1; i + 1 < h.size(); i++) A += cr(s, h[0], h[i], h[i + 1]) / 2; return A; }
static void run(VoronoiDiagramGenerator& v, Sites& s, float m) { v.setGenerateVoronoi(true); v.setGenerateDelaunay(true); float x0 = *std::min_element(s.x.begin(), s.x.end()) - m, x1 = *std::max_element(s.x.begin(), s.x.end()) + m, y0 = *std::min_element(s.y.begin(), s.y.end()) - m, y1 = *std::max_element(s.y.begin(), s.y.end()) + m; REQUIRE(v.generateVoronoi(s.x.data(), s.y.data(), (int)s.x.size(), x0, x1, y0, y1, 0, true), "failed"); }
static void checkTriangles(Gen& g, const Sites& s, const std::vector<std::vector<int>>& T) {
    ld sum = 0, S = s.s; int n = (int)s.x.size(); for (auto& t : T) { REQUIRE(t.size() == 3, "size"); for (int k = 0; k < 3; k++) REQUIRE(t[k] >= 0 && t[k] < n && t[k] != t[(k + 1) % 3], "triangle " << t[0] << " " << t[1] << " " << t[2]); sum += fabsl(cr(s, t[0], t[1], t[2])) / 2; }
    ld H = hullArea(s); NEAR1(sum, H, 2e-3L * S * S, "area covered by the triangles, against the hull");
    for (auto& t : T) { ld d = 2 * cr(s, t[0], t[1], t[2]); if (fabsl(d) < 1e-3L * S * S) continue; ld bx = (ld)s.x[t[1]] - s.x[t[0]], by = (ld)s.y[t[1]] - s.y[t[0]], cx = (ld)s.x[t[2]] - s.x[t[0]], cy = (ld)s.y[t[2]] - s.y[t[0]], ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / d, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / d, R = hypotl(ux, uy); if (R > 3 * S) continue; for (int i = 0; i < n; i++) { ld q = hypotl(s.x[i] - s.x[t[0]] - ux, s.y[i] - s.y[t[0]] - uy); REQUIRE(q >= R - 2e-4L * S, "site " << i << " inside the circumcircle of " << t[0] << " " << t[1] << " " << t[2]); } }
}
LAW(delaunay, 3000, 100000) { auto s = gen(g, false); VoronoiDiagramGenerator v; run(v, s, 1); checkTriangles(g, s, v.getTriangles()); }
LAW(delaunay_degenerate, 3000, 100000) { auto s = gen(g, true); if (hullArea(s) < 1e-2 * s.s * s.s) pbt::discard("collinear"); VoronoiDiagramGenerator v; run(v, s, 1); checkTriangles(g, s, v.getTriangles()); }
LAW(voronoi_edges, 3000, 100000) {   // every point of a Voronoi edge has its two nearest sites at the same distance
    auto s = gen(g, g.boolean()); float m = s.s; VoronoiDiagramGenerator v; run(v, s, m); v.resetIterator(); float a, b, c, d; int cnt = 0; ld lo = *std::min_element(s.x.begin(), s.x.end()) - m, hi = *std::max_element(s.x.begin(), s.x.end()) + m, lo2 = *std::min_element(s.y.begin(), s.y.end()) - m, hi2 = *std::max_element(s.y.begin(), s.y.end()) + m, tol = 1e-3L * s.s;
    while (v.getNext(a, b, c, d)) { cnt++; REQUIRE(std::isfinite(a) && std::isfinite(b) && std::isfinite(c) && std::isfinite(d), "edge"); for (ld x : {a, c}) REQUIRE(x >= lo - tol && x <= hi + tol, "edge leaves the border"); for (ld y : {b, d}) REQUIRE(y >= lo2 - tol && y <= hi2 + tol, "edge leaves the border"); for (ld f : {0.1L, 0.5L, 0.9L}) { ld px = a + f * ((ld)c - a), py = b + f * ((ld)d - b), d1 = 1e300L, d2 = 1e300L; for (size_t i = 0; i < s.x.size(); i++) { ld q = hypotl(px - s.x[i], py - s.y[i]); if (q < d1) { d2 = d1; d1 = q; } else d2 = std::min(d2, q); } REQUIRE(d2 - d1 <= tol, "point " << (double)px << "," << (double)py << " of an edge has nearest sites at " << (double)d1 << " and " << (double)d2); } }
    REQUIRE(cnt >= 1, "no edges");
}
LAW(few_or_collinear_sites, 2000, 50000) {
    int n = g.integer(1, 12), mode = g.integer(0, 3); Sites s; s.s = 10; for (int i = 0; i < n; i++) { float t = (float)i + (float)g.real(-0.3, 0.3); s.x.push_back(mode == 1 ? 2 : t); s.y.push_back(mode == 0 ? 3 : mode == 1 ? t : mode == 2 ? t : -t); } g.nontrivial(); g.note([&](std::ostream& o) { for (size_t i = 0; i < s.x.size(); i++) o << "(" << s.x[i] << "," << s.y[i] << ") "; }); VoronoiDiagramGenerator v; run(v, s, 5); for (auto& t : v.getTriangles()) { REQUIRE(t.size() == 3, "size"); for (int k : t) REQUIRE(k >= 0 && k < n, "index " << k); REQUIRE(fabsl(cr(s, t[0], t[1], t[2])) < 1e-3L, "triangle of collinear sites"); }
}
LAW(reuse, 500, 20000) { auto s = gen(g, false), t = gen(g, false); VoronoiDiagramGenerator v; run(v, s, 1); auto A = v.getTriangles(); if (g.boolean()) v.reset(); run(v, t, 1); VoronoiDiagramGenerator w; run(w, t, 1); REQUIRE(v.getTriangles() == w.getTriangles(), "a second diagram of the same generator has " << v.getTriangles().size() << " triangles, a fresh generator " << w.getTriangles().size()); }
// the Voronoi edge of two sites: the part of their bisector nearer to no other site, cut to a box; parameters along the bisector
static bool trueEdge(const Sites& s, size_t i, size_t j, ld x0, ld x1, ld y0, ld y1, ld& len) {
    ld mx = ((ld)s.x[i] + s.x[j]) / 2, my = ((ld)s.y[i] + s.y[j]) / 2, dx = -((ld)s.y[j] - s.y[i]), dy = (ld)s.x[j] - s.x[i], L = hypotl(dx, dy); dx /= L; dy /= L; ld a = -1e9L, b = 1e9L;
    auto cut = [&](ld A, ld B) { if (fabsl(B) < 1e-15L) { if (A > 1e-12L) a = 1, b = 0; } else if (B > 0) b = std::min(b, -A / B); else a = std::max(a, -A / B); };   // A + B t <= 0
    cut(x0 - mx, -dx); cut(mx - x1, dx); cut(y0 - my, -dy); cut(my - y1, dy);
    ld qi = (mx - s.x[i]) * (mx - s.x[i]) + (my - s.y[i]) * (my - s.y[i]);
    for (size_t k = 0; k < s.x.size() && a < b; k++) { if (k == i || k == j) continue; ld ex = mx - s.x[k], ey = my - s.y[k]; cut(qi - ex * ex - ey * ey, 2 * (dx * ((ld)s.x[k] - s.x[i]) + dy * ((ld)s.y[k] - s.y[i]))); }
    len = b - a; return b > a;
}
static Sites genFew(Gen& g) {   // two to eight sites, mostly on one line: bisectors that meet no vertex
    Sites s; s.s = (float)(1 << g.integer(0, 3)); int n = g.integer(2, 8), mode = g.integer(0, 4); for (int i = 0; i < n; i++) { float t = s.s * (i + (float)g.integer(-64, 64) / 256) / 8; float u = mode == 4 && g.chance(1, 4) ? s.s / 8 : 0; s.x.push_back(mode == 1 ? u : t); s.y.push_back(mode == 0 || mode == 4 ? u : mode == 3 ? -t : t); } g.tag("few"); g.nontrivial(); g.note([&](std::ostream& o) { for (size_t i = 0; i < s.x.size(); i++) o << "(" << s.x[i] << "," << s.y[i] << ") "; }); return s;
}
LAW(complete, 2500, 80000) {   // no Voronoi edge and no Delaunay edge is missing, none is listed twice
    auto s = g.chance(1, 6) ? genFew(g) : gen(g, g.boolean()); if (s.x.size() > 60) { s.x.resize(60); s.y.resize(60); } size_t n = s.x.size(); ld S = s.s; float m = (float)(S * (g.chance(1, 4) ? -0.1 : g.real(0.05, 1.5))); VoronoiDiagramGenerator v; v.setGenerateVoronoi(true); v.setGenerateDelaunay(true);
    float x0 = *std::min_element(s.x.begin(), s.x.end()) - m, x1 = *std::max_element(s.x.begin(), s.x.end()) + m, y0 = *std::min_element(s.y.begin(), s.y.end()) - m, y1 = *std::max_element(s.y.begin(), s.y.end()) + m; if (!(x1 > x0 + 0.05f * s.s && y1 > y0 + 0.05f * s.s)) pbt::discard("no border"); REQUIRE(v.generateVoronoi(s.x.data(), s.y.data(), (int)n, x0, x1, y0, y1, 0, g.boolean()), "failed");
    std::set<std::pair<size_t, size_t>> D; v.resetDelaunayEdgesIterator(); float a, b, c, d; auto id = [&](float x, float y) { for (size_t i = 0; i < n; i++) if (s.x[i] == x && s.y[i] == y) return i; return n; }; while (v.getNextDelaunay(a, b, c, d)) { size_t i = id(a, b), j = id(c, d); REQUIRE(i < n && j < n && i != j, "Delaunay edge between " << a << "," << b << " and " << c << "," << d << ", not two sites"); D.insert({std::min(i, j), std::max(i, j)}); }
    ld want = 0, got = 0; int edges = 0; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { ld len; if (trueEdge(s, i, j, x0, x1, y0, y1, len)) { want += len; edges++; } bool is = trueEdge(s, i, j, -1e7L, 1e7L, -1e7L, 1e7L, len); bool listed = D.count({i, j}); if (is && len > 2e-3L * S) REQUIRE(listed, "sites " << i << " and " << j << " share an edge of length " << (double)len << " and have no Delaunay edge"); }
    v.resetIterator(); while (v.getNext(a, b, c, d)) got += hypotl((ld)c - a, (ld)d - b); NEAR1(got, want, 2e-3L * S * std::sqrt((ld)(edges + 1)) + 1e-3L * want, "total length of the Voronoi edges");
}
LAW(vertices, 2000, 60000) {   // Voronoi vertices and the pairs of vertices joined by edges
    auto s = gen(g, false); if (s.x.size() > 60) { s.x.resize(60); s.y.resize(60); } VoronoiDiagramGenerator v; run(v, s, s.s); ld tol = 1e-3L * s.s; float a, b, c, d; auto gap = [&](ld x, ld y, int k) { std::vector<ld> q; for (size_t i = 0; i < s.x.size(); i++) q.push_back(hypotl(x - s.x[i], y - s.y[i])); std::sort(q.begin(), q.end()); return q[k] - q[0]; };
    std::vector<std::array<float, 4>> E; v.resetIterator(); while (v.getNext(a, b, c, d)) E.push_back({a, b, c, d}); int cnt = 0; v.resetVerticesIterator(); while (v.getNextVertex(a, b)) { cnt++; REQUIRE(gap(a, b, 1) <= tol, "vertex " << a << "," << b << " does not lie between two sites"); } REQUIRE(cnt > 0, "no vertices");
    int pairs = 0; v.resetVertexPairIterator(); while (v.getNextVertexPair(a, b, c, d)) { pairs++; for (ld f : {0.0L, 0.5L, 1.0L}) REQUIRE(gap(a + f * ((ld)c - a), b + f * ((ld)d - b), 1) <= tol, "pair " << a << "," << b << " - " << c << "," << d << " is no edge"); } g.tagIf(pairs > 0, "pairs"); REQUIRE(pairs == (int)E.size(), pairs << " vertex pairs for " << E.size() << " edges");
}
LAW(thousands_of_sites, 10, 150) {   // more vertices than the generator's first allocation, checked with a bucket grid
    int w = g.integer(44, 62), h = g.integer(44, 62); uint64_t r = (uint64_t)g.integer(1, 1 << 30) * 2654435761u; auto rnd = [&] { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (double)(r >> 11) / 9007199254740992.0; }; Sites s; s.s = (float)std::max(w, h); std::vector<int> order; for (int i = 0; i < w * h; i++) order.push_back(i); for (int i = w * h; i > 1; i--) std::swap(order[i - 1], order[(int)(rnd() * i)]);
    std::vector<int> at(w * h, -1); for (int k : order) { if (rnd() < 0.03) continue; at[k] = (int)s.x.size(); s.x.push_back((float)(k % w + std::round((rnd() - 0.5) * 0.7 * 1024) / 1024)); s.y.push_back((float)(k / w + std::round((rnd() - 0.5) * 0.7 * 1024) / 1024)); } int n = (int)s.x.size(); g.nontrivial(); g.tagIf(2 * n > 4200, "more than 4000 vertices"); g.note([&](std::ostream& o) { o << n << " sites on a jittered " << w << " x " << h << " grid"; });
    VoronoiDiagramGenerator v; run(v, s, 2); auto near = [&](ld x, ld y, ld R, auto&& f) { for (int j = (int)floorl(y - R) - 1; j <= (int)ceill(y + R) + 1; j++) for (int i = (int)floorl(x - R) - 1; i <= (int)ceill(x + R) + 1; i++) if (i >= 0 && j >= 0 && i < w && j < h && at[j * w + i] >= 0) f(at[j * w + i]); };
    auto T = v.getTriangles(); ld sum = 0; std::set<std::array<int, 3>> distinct; for (auto& t : T) { REQUIRE(t.size() == 3, "size"); for (int k = 0; k < 3; k++) REQUIRE(t[k] >= 0 && t[k] < n && t[k] != t[(k + 1) % 3], "triangle " << t[0] << " " << t[1] << " " << t[2]); ld d = 2 * cr(s, t[0], t[1], t[2]); sum += fabsl(d) / 4; std::array<int, 3> q{t[0], t[1], t[2]}; std::sort(q.begin(), q.end()); REQUIRE(distinct.insert(q).second, "triangle listed twice"); if (fabsl(d) < 0.1L) continue;
        ld bx = (ld)s.x[t[1]] - s.x[t[0]], by = (ld)s.y[t[1]] - s.y[t[0]], cx = (ld)s.x[t[2]] - s.x[t[0]], cy = (ld)s.y[t[2]] - s.y[t[0]], ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / d, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / d, R = hypotl(ux, uy); if (R > 4) continue; near(s.x[t[0]] + ux, s.y[t[0]] + uy, R, [&](int i) { REQUIRE(hypotl(s.x[i] - s.x[t[0]] - ux, s.y[i] - s.y[t[0]] - uy) >= R - 1e-2L, "site " << i << " inside the circumcircle of " << t[0] << " " << t[1] << " " << t[2]); }); }
    NEAR1(sum, hullArea(s), 1e-4L * w * h, "area covered by the triangles, against the hull");
    float a, b, c, d; int edges = 0, pairs = 0, verts = 0; auto gap = [&](ld x, ld y) { ld d1 = 1e300L, d2 = 1e300L; for (ld R = 2; d2 > R && R < 200; R *= 3) { d1 = d2 = 1e300L; near(x, y, R, [&](int i) { ld q = hypotl(x - s.x[i], y - s.y[i]); if (q < d1) { d2 = d1; d1 = q; } else d2 = std::min(d2, q); }); } return d2 - d1; };
    v.resetIterator(); while (v.getNext(a, b, c, d)) { edges++; REQUIRE(gap(((ld)a + c) / 2, ((ld)b + d) / 2) < 1e-2L, "edge " << a << "," << b << " - " << c << "," << d << " does not lie between two sites"); }
    v.resetVertexPairIterator(); while (v.getNextVertexPair(a, b, c, d)) { pairs++; REQUIRE(gap(((ld)a + c) / 2, ((ld)b + d) / 2) < 1e-2L, "pair " << a << "," << b << " - " << c << "," << d << " is no edge"); } REQUIRE(pairs == edges, pairs << " vertex pairs for " << edges << " edges"); v.resetVerticesIterator(); while (v.getNextVertex(a, b)) verts++; REQUIRE(verts > n && edges > 2 * n, verts << " vertices and " << edges << " edges of " << n << " sites");
}
