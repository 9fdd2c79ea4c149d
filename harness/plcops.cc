// PLC operations: edge sorting, facet simplification, reduced PLCs, canned shapes
#include "util.hh"
#include "polytope.hh"
#include "polytope_internal.hh"
#include "simplifyPLCfacets.hh"
#include "makeBoxPLC.hh"
#include "polytope_plc_canned_geometries.hh"
using namespace polytope;
#ifndef VPN
#define VPN 4
#endif
#ifndef VPM
#define VPM 7
#endif
typedef std::pair<int, int> Edge;
static inline Edge directed(const std::vector<Edge>& e, int k) { return k >= 0 ? e[k] : Edge(e[~k].second, e[~k].first); }
// computeSortedFaceEdges: the edges of one loop (or one chain) in any order and direction, node labels arbitrary
extern "C" void h_sort() {
  const int n = vp_len("edges", 3, VPN); const bool open = vp_conc(vp_bool("open"));   // open: n nodes in a chain of n-1 edges
  std::vector<int> lab; for (int i = 0; i < n; ++i) { lab.push_back((int)vp_int("node", 0, VPM)); for (int j = 0; j < i; ++j) vp_assume(lab[j] != lab[i]); }
  const int ne = open ? n - 1 : n; std::vector<Edge> e; std::vector<int> used(ne, 0);
  for (int i = 0; i < ne; ++i) { const int k = i == 0 && !open ? 0 : vp_len("which", 0, ne - 1); vp_assume(!used[k]); used[k] = 1; const bool f = vp_conc(vp_bool("flip")); const int a = lab[k], b = lab[(k + 1) % n]; e.push_back(f ? Edge(b, a) : Edge(a, b)); }
  std::vector<Edge> in(e); std::vector<int> r; const bool added = internal::computeSortedFaceEdges(e, r);
  vp_assert(added == open, "a new edge exactly for an open chain"); vp_assert((int)e.size() == n && (int)r.size() == n, "every edge in the result");
  for (int i = 0; i < ne; ++i) vp_assert(e[i] == in[i], "the given edges are kept");
  if (open) { const Edge x = e[ne]; vp_assert(x.first == lab[0] && x.second == lab[n-1] || x.first == lab[n-1] && x.second == lab[0], "the new edge joins the loose ends"); vp_cover("open"); } else vp_cover("closed");
  std::vector<int> seen(n, 0); for (int i = 0; i < n; ++i) { const int k = r[i] >= 0 ? r[i] : ~r[i]; vp_assert(k < n && !seen[k], "each edge once"); seen[k] = 1; vp_assert(directed(e, r[i]).second == directed(e, r[(i + 1) % n]).first, "consecutive edges share a node"); }
  vp_obs(r[0]);
}
// simplifyPLCfacets 2D: corners of a polygon plus extra points along its edges
static const double SH[3][6][2] = {{{0,0},{8,0},{0,8}}, {{0,0},{8,0},{8,8},{0,8}}, {{0,0},{8,0},{8,4},{4,4},{4,8},{0,8}}};
static const int SN[3] = {3, 4, 6};
extern "C" void h_simp2() {
  const int s = vp_len("shape", 0, 2), n = SN[s], rot = vp_len("rotate", 0, n - 1); const bool cw = vp_conc(vp_bool("cw")), dup = vp_conc(vp_bool("dup"));
  std::vector<double> p; PLC<2, double> plc; std::vector<int> corner; 
  for (int i = 0; i < n; ++i) { corner.push_back(p.size() / 2); p.push_back(SH[s][i][0]); p.push_back(SH[s][i][1]); }
  const int split = vp_len("splitedge", 0, n - 1), nextra = vp_len("extra", 0, 2); const int t = vp_int("t", 1, 31), u = vp_int("u", 1, 31); vp_assume(nextra < 2 | t < u);
  std::vector<std::vector<int> > loop;
  for (int i = 0; i < n; ++i) { int a = corner[i], b = corner[(i + 1) % n];
    if (dup) { p.push_back(p[2*b]); p.push_back(p[2*b+1]); b = p.size() / 2 - 1; }
    if (i == split) for (int k = 0; k < nextra; ++k) { const double w = (k ? u : t) / 32.0; const int q = p.size() / 2; p.push_back(p[2*a] * 0 + SH[s][i][0] + (SH[s][(i+1)%n][0] - SH[s][i][0]) * w); p.push_back(SH[s][i][1] + (SH[s][(i+1)%n][1] - SH[s][i][1]) * w); loop.push_back({a, q}); a = q; }
    loop.push_back({a, b}); }
  const int m = loop.size(); for (int i = 0; i < m; ++i) { std::vector<int> f = loop[(i * 2 % m + (m % 2 == 0 && i >= m / 2) + rot) % m]; if (cw) std::swap(f[0], f[1]); plc.facets.push_back(f); }
  const double lo[2] = {0, 0}, hi[2] = {8, 8}; const ReducedPLC<2, double> r = simplifyPLCfacets<double>(plc, p, lo, hi, 1e-6);
  vp_assert((int)r.points.size() == 2 * n && (int)r.facets.size() == n, "exactly the corners remain");
  int at = -1; for (int i = 0; i < n; ++i) { vp_assert(r.facets[i].size() == 2 && r.facets[i][0] >= 0 && r.facets[i][0] < n && r.facets[i][1] >= 0 && r.facets[i][1] < n, "facets join two of the points"); vp_assert(r.facets[i][1] == r.facets[(i+1)%n][0], "one closed loop"); if (r.points[2*r.facets[i][0]] == SH[s][0][0] && r.points[2*r.facets[i][0]+1] == SH[s][0][1]) at = i; }
  vp_assert(at >= 0, "the first corner is kept");
  for (int i = 0; i < n; ++i) { const int k = r.facets[(at + i) % n][0], c = cw ? (n - i) % n : i; vp_assert(r.points[2*k] == SH[s][c][0] && r.points[2*k+1] == SH[s][c][1], "the corners in the given direction"); }
  vp_cover(cw ? "clockwise" : "counter-clockwise");
}
// simplifyPLCfacets 3D: a prism over a polygon, its caps and one side split into coplanar facets
#ifndef VPS
#define VPS 1
#endif
extern "C" void h_simp3() {
  const int s = VPS, n = SN[s]; const int rot = vp_len("start", 0, n - 1), cap = vp_len("cap", 0, 2), side = vp_len("side", 0, 2); const bool dup = vp_conc(vp_bool("dup"));
  const double t = vp_grid("t", 1, 31, -5), h = vp_grid("h", 1, 15, -1), H = 8;
  std::vector<double> p; for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) { p.push_back(SH[s][i][0]); p.push_back(SH[s][i][1]); p.push_back(k * H); }
  std::vector<std::vector<int> > F; std::vector<int> top, bot; for (int i = 0; i < n; ++i) { top.push_back(n + (i + rot) % n); bot.push_back((n - 1 - i + rot) % n); }
  if (cap == 0) F.push_back(top); else if (s == 2) { F.push_back({n + 0, n + 1, n + 2, n + 3}); F.push_back({n + 0, n + 3, n + 4, n + 5}); } else { if (cap == 2 && n > 3) { F.push_back({n + 0, n + 1, n + 2}); F.push_back({n + 2, n + 3, n + 0}); } else F.push_back(top); }
  F.push_back(bot);
  for (int i = 0; i < n; ++i) { const int j = (i + 1) % n;
    if (i == 0 && side == 1) { const int q = p.size() / 3; for (int k = 0; k < 2; ++k) { p.push_back(SH[s][0][0] + (SH[s][1][0] - SH[s][0][0]) * t); p.push_back(SH[s][0][1] + (SH[s][1][1] - SH[s][0][1]) * t); p.push_back(k * H); }
      F.push_back({0, q, q + 1, n}); F.push_back({q, 1, n + 1, q + 1}); }
    else if (i == 0 && side == 2) { const int q = p.size() / 3; for (int k = 0; k < 2; ++k) { p.push_back(SH[s][k][0]); p.push_back(SH[s][k][1]); p.push_back(h); } F.push_back({0, 1, q + 1, q}); F.push_back({q, q + 1, n + 1, n}); }
    else { std::vector<int> f = {i, j, n + j, n + i}; std::rotate(f.begin(), f.begin() + rot % 4, f.end()); F.push_back(f); } }
  if (dup) for (size_t f = 0; f < F.size(); f += 2) { const int a = F[f][1]; for (int d = 0; d < 3; ++d) p.push_back(double(p[3*a+d])); F[f][1] = p.size() / 3 - 1; }
  PLC<3, double> plc; plc.facets = F; const double lo[3] = {0, 0, 0}, hi[3] = {8, 8, 8}; const ReducedPLC<3, double> r = simplifyPLCfacets<double>(plc, p, lo, hi, 1e-6);
  vp_assert((int)r.points.size() == 6 * n, "exactly the corners remain"); vp_assert((int)r.facets.size() == n + 2, "coplanar facets are merged");
  std::map<int, int> id; for (int i = 0; i < 2 * n; ++i) { int w = -1; for (int k = 0; k < 2 * n; ++k) if (r.points[3*i] == SH[s][k%n][0] && r.points[3*i+1] == SH[s][k%n][1] && r.points[3*i+2] == (k / n) * H) w = k; vp_assert(w >= 0 && !id.count(w), "each corner once"); id[w] = i; }
  std::set<std::vector<int> > got; for (size_t f = 0; f < r.facets.size(); ++f) { std::vector<int> g; for (size_t k = 0; k < r.facets[f].size(); ++k) { vp_assert(r.facets[f][k] >= 0 && r.facets[f][k] < 2 * n, "facet points in range"); for (int w = 0; w < 2 * n; ++w) if (id[w] == r.facets[f][k]) g.push_back(w); } std::rotate(g.begin(), std::min_element(g.begin(), g.end()), g.end()); got.insert(g); }
  std::set<std::vector<int> > want; std::vector<int> a, b; for (int i = 0; i < n; ++i) { a.push_back(n + i); b.push_back(i ? n - i : 0); std::vector<int> f = {i, (i + 1) % n, n + (i + 1) % n, n + i}; std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end()); want.insert(f); } want.insert(a); want.insert(b);
  vp_assert(got == want, "the merged facets keep their outlines and directions"); vp_cover("end");
}
// ReducedPLC(plc, points): same facets over exactly the points used
template <int D> static void rplc() {
  const int np = VPN; std::vector<double> p; for (int i = 0; i < D * np; ++i) p.push_back(vp_anydouble("x"));
  PLC<D, double> plc; const int nf = vp_len("facets", 0, 2), nh = vp_len("holes", 0, 2); std::vector<int> used(np, 0);
  for (int f = 0; f < nf; ++f) { plc.facets.push_back(std::vector<int>()); for (int k = 0; k < D; ++k) { const int i = vp_int("f", 0, np - 1); plc.facets[f].push_back(i); } }
  for (int h = 0; h < nh; ++h) { plc.holes.resize(h + 1); plc.holes[h].push_back(std::vector<int>()); for (int k = 0; k < 2; ++k) plc.holes[h][0].push_back(vp_int("h", 0, np - 1)); }
  const ReducedPLC<D, double> r(plc, p);
  for (int f = 0; f < nf; ++f) for (int k = 0; k < D; ++k) used[plc.facets[f][k]] = 1; for (int h = 0; h < nh; ++h) for (int k = 0; k < 2; ++k) used[plc.holes[h][0][k]] = 1;
  int c = 0; for (int i = 0; i < np; ++i) c += used[i];
  vp_assert((int)r.points.size() == D * c, "exactly the points used"); vp_assert((int)r.facets.size() == nf && (int)r.holes.size() == nh, "same facets and holes");
  auto same = [&](int nw, int od) { vp_assert(nw >= 0 && nw < c, "new index in range"); bool ok = true; for (int d = 0; d < D; ++d) ok &= sameBits(r.points[D*nw+d], p[D*od+d]); vp_assert(ok, "same coordinates through the new index"); };
  for (int f = 0; f < nf; ++f) { vp_assert((int)r.facets[f].size() == D, "same facet size"); for (int k = 0; k < D; ++k) same(r.facets[f][k], plc.facets[f][k]); }
  for (int h = 0; h < nh; ++h) { vp_assert(r.holes[h].size() == 1 && r.holes[h][0].size() == 2, "same hole size"); for (int k = 0; k < 2; ++k) same(r.holes[h][0][k], plc.holes[h][0][k]); }
  vp_cover(nh ? "holes" : "no holes");
}
extern "C" void h_rplc2() { rplc<2>(); }
extern "C" void h_rplc3() { rplc<3>(); }
// valid/empty/clear
template <int D> static void plcval() {
  PLC<D, double> plc; const int nf = vp_len("facets", 0, 2), nh = vp_len("holes", 0, 2); bool ok = true;
  for (int f = 0; f < nf; ++f) { const int k = vp_len("size", 0, 4); plc.facets.push_back(std::vector<int>(k, 0)); ok &= D == 2 ? k == 2 : k >= 3; }
  for (int h = 0; h < nh; ++h) { const int m = vp_len("holefacets", 0, 2); plc.holes.push_back(std::vector<std::vector<int> >()); for (int j = 0; j < m; ++j) { const int k = vp_len("size", 1, 4); plc.holes[h].push_back(std::vector<int>(k, 0)); ok &= D == 2 ? k == 2 : k >= 3; } }
  vp_assert(plc.valid() == ok, "valid exactly when every facet has enough points"); vp_assert(plc.empty() == (nf == 0 && nh == 0), "empty exactly without facets and holes");
  plc.clear(); vp_assert(plc.empty() && plc.facets.empty() && plc.holes.empty() && plc.valid(), "clear empties"); vp_cover(ok ? "valid" : "invalid");
}
extern "C" void h_valid2() { plcval<2>(); }
extern "C" void h_valid3() { plcval<3>(); }
static void box2(const ReducedPLC<2, double>& r, const double* lo, const double* hi) {
  vp_assert(r.points.size() == 8 && r.facets.size() == 4 && r.holes.empty() && r.valid(), "four corners and four facets");
  for (int i = 0; i < 4; ++i) { const int a = r.facets[i][0], b = r.facets[i][1]; vp_assert(a >= 0 && a < 4 && b == r.facets[(i+1)%4][0], "closed loop"); const double ax = r.points[2*a], ay = r.points[2*a+1], bx = r.points[2*b], by = r.points[2*b+1];
    vp_assert((ay == by) ? (ay == lo[1] ? ax == lo[0] && bx == hi[0] : ay == hi[1] && ax == hi[0] && bx == lo[0]) : (ax == bx) && (ax == hi[0] ? ay == lo[1] && by == hi[1] : ax == lo[0] && ay == hi[1] && by == lo[1]), "counter-clockwise edges of the box"); for (int j = 0; j < i; ++j) vp_assert(r.facets[j][0] != a, "each corner once"); }
}
extern "C" void h_box() {
  double lo[3], hi[3]; for (int d = 0; d < 3; ++d) { lo[d] = vp_anydouble("lo"); hi[d] = vp_anydouble("hi"); vp_assume(lo[d] < hi[d]); }
  box2(plc_box<2, double>(lo, hi), lo, hi); ReducedPLC<2, double> r2; internal::makeBoxPLC(r2, lo, hi); box2(r2, lo, hi);
  const ReducedPLC<3, double> r = plc_box<3, double>(lo, hi); vp_assert(r.points.size() == 24 && r.facets.size() == 6 && r.holes.empty() && r.valid(), "eight corners and six facets");
  std::set<Edge> es; int sides = 0;
  for (int f = 0; f < 6; ++f) { vp_assert(r.facets[f].size() == 4, "quadrilateral facets"); int bits[4]; for (int k = 0; k < 4; ++k) { const int a = r.facets[f][k]; vp_assert(a >= 0 && a < 8, "in range"); bits[k] = 0; for (int d = 0; d < 3; ++d) { const double x = r.points[3*a+d]; vp_assert(x == lo[d] | x == hi[d], "corners of the box"); if (x == hi[d]) bits[k] |= 1 << d; } }
    for (int k = 0; k < 4; ++k) { const int x = bits[k] ^ bits[(k+1)%4]; vp_assert(x == 1 || x == 2 || x == 4, "facet edges are box edges"); vp_assert(es.insert(Edge(bits[k], bits[(k+1)%4])).second, "each directed edge once"); }
    int all = 7, none = 7; for (int k = 0; k < 4; ++k) { all &= bits[k]; none &= ~bits[k]; } vp_assert(all != 0 || none != 0, "facet on one side of the box"); sides++;
    const int c = bits[0], a = bits[0] ^ bits[1], b = bits[1] ^ bits[2]; int u[3] = {0, 0, 0}, v[3] = {0, 0, 0}; for (int d = 0; d < 3; ++d) { if (a == 1 << d) u[d] = (bits[1] & a) ? 1 : -1; if (b == 1 << d) v[d] = (bits[2] & b) ? 1 : -1; } (void)c;
    const int nrm[3] = {u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]}; int w = 0; for (int d = 0; d < 3; ++d) if (nrm[d]) w = nrm[d] > 0 ? (all >> d) & 1 : (none >> d) & 1; vp_assert(w == 1, "facets face outwards"); }
  for (auto& e : es) vp_assert(es.count(Edge(e.second, e.first)), "closed surface"); vp_assert(es.size() == 24, "all twelve box edges"); vp_cover("end");
}
extern "C" void h_circle() {
  const int n = vp_len("n", 3, 3 * VPN); const double cx = vp_grid("cx", -32, 32, -2), cy = vp_grid("cy", -1, 1, 0), R = vp_grid("r", 1, 64, -3);
  const ReducedPLC<2, double> r = plc_circle<double>(Point2<double>(cx, cy), R, n); vp_assert((int)r.points.size() == 2 * n && (int)r.facets.size() == n && r.holes.empty() && r.valid(), "n points and facets");
  for (int i = 0; i < n; ++i) { const double dx = r.points[2*i] - cx, dy = r.points[2*i+1] - cy, e = dx*dx + dy*dy - R*R; vp_assert(e < 1e-9 * R * R + 1e-11 && e > -1e-9 * R * R - 1e-11, "points on the circle"); const int a = r.facets[i][0], b = r.facets[i][1]; vp_assert(a == i && b == (i + 1) % n, "closed loop");
    const double ex = r.points[2*b] - cx, ey = r.points[2*b+1] - cy, cr = dx * ey - dy * ex; vp_assert(cr > 0, "counter-clockwise"); }
  vp_cover("end");
}
