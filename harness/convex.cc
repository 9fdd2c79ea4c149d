// Convex polygons and polyhedra: 3D hulls, intersection, containment
#include "util.hh"
#include "polytope.hh"
#include "convexHull_3d.hh"
#include "convexIntersect.hh"
#include "convexWithin.hh"
#include "polytope_plc_canned_geometries.hh"
using namespace polytope;
typedef std::vector<double> V;
#ifndef VPA
#define VPA 0
#endif
#ifndef VPB
#define VPB 4
#endif
#ifndef VPL
#define VPL -2
#endif
#ifndef VPH
#define VPH 10
#endif
#ifndef VPC
#define VPC 0
#endif
#ifndef VPT
#define VPT 2
#endif
static V base(int s) {
  switch (s) {
  case 0: return V{0,0,0, 8,0,0, 0,8,0, 0,0,8};
  case 1: return V{0,0,0, 8,0,0, 8,8,0, 0,8,0, 0,0,8, 8,0,8, 8,8,8, 0,8,8};
  case 2: return V{4,4,0, 4,4,8, 0,4,4, 8,4,4, 4,0,4, 4,8,4};
  case 3: return V{0,0,0, 8,0,0, 0,8,0, 8,8,0, 4,4,0, 4,0,0, 3,5,8};
  default: return V{1,1,1, 7,1,2, 1,1,1, 2,6,1, 3,3,7, 7,1,2, 3,2,2};
  }
}
static double trip(const V& p, int a, int b, int c, int d) {
  const double u[3] = {p[3*b]-p[3*a], p[3*b+1]-p[3*a+1], p[3*b+2]-p[3*a+2]}, v[3] = {p[3*c]-p[3*a], p[3*c+1]-p[3*a+1], p[3*c+2]-p[3*a+2]}, w[3] = {p[3*d]-p[3*a], p[3*d+1]-p[3*a+1], p[3*d+2]-p[3*a+2]};
  return w[0]*(u[1]*v[2]-u[2]*v[1]) + w[1]*(u[2]*v[0]-u[0]*v[2]) + w[2]*(u[0]*v[1]-u[1]*v[0]);
}
// hull of a fixed cloud and one point anywhere on a lattice inside and around it
extern "C" void h_hull3() {
  const int s = vp_len("cloud", VPA, VPB); V p = base(s); const int nb = p.size() / 3, at = vp_len("at", 0, VPT) * nb / VPT; double q[3] = {G("x", VPL, VPH, VPC), G("y", VPL, VPH, VPC), G("z", VPL, VPH, VPC)}; p.insert(p.begin() + 3 * at, q, q + 3);
  const int n = nb + 1; const V in(p); double low[3] = {-16, -16, -16}; const PLC<3, double> h = convexHull_3d<double>(p, low, 1.0 / (1 << 20));
  vp_assert(eqv(in, p), "input points unchanged"); vp_assert(h.holes.empty(), "no holes"); const int nf = h.facets.size(); vp_assert(nf >= 4, "at least four facets");
  std::set<std::pair<int, int> > e; std::set<int> used;
  for (int f = 0; f < nf; ++f) { vp_assert(h.facets[f].size() == 3, "triangles"); const int a = h.facets[f][0], b = h.facets[f][1], c = h.facets[f][2]; vp_assert(a >= 0 && a < n && b >= 0 && b < n && c >= 0 && c < n, "facets index the input points");
    const double u[3] = {p[3*b]-p[3*a], p[3*b+1]-p[3*a+1], p[3*b+2]-p[3*a+2]}, v[3] = {p[3*c]-p[3*a], p[3*c+1]-p[3*a+1], p[3*c+2]-p[3*a+2]}; const double m[3] = {u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]};
    vp_assert(m[0] != 0 | m[1] != 0 | m[2] != 0, "facets have area"); for (int i = 0; i < n; ++i) vp_assert(trip(p, a, b, c, i) <= 0, "every input point on the inner side of every facet");
    for (int k = 0; k < 3; ++k) { vp_assert(e.insert(std::make_pair(h.facets[f][k], h.facets[f][(k+1)%3])).second, "each directed edge once"); used.insert(h.facets[f][k]); } }
  for (auto& x : e) vp_assert(e.count(std::make_pair(x.second, x.first)), "closed surface"); vp_assert((int)used.size() - (int)e.size() / 2 + nf == 2, "one sphere");
  vp_cover(used.count(at) ? "extreme" : "interior"); vp_obs(nf);
}
// 2D: convex polygons; b moved anywhere on a lattice
static V poly(int s) { switch (s) { case 0: return V{0,0, 4,0, 0,4}; case 1: return V{0,0, 4,0, 4,2, 0,2}; case 2: return V{0,0, 3,-1, 5,2, 2,4, -1,2}; case 3: return V{0,0, 1,0, 1,6, 0,6}; default: return V{0,0, 6,5, -1,1}; } }
static ReducedPLC<2, double> plc2(const V& p) { ReducedPLC<2, double> r; r.points = p; const int n = p.size() / 2; for (int i = 0; i < n; ++i) r.facets.push_back({i, (i + 1) % n}); return r; }
// half planes of the hull of a fixed point set: n.x <= c
static void half2(const V& v, std::vector<V>& out) { const int n = v.size() / 2; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { const double nx = v[2*j+1] - v[2*i+1], ny = v[2*i] - v[2*j]; if (nx == 0 && ny == 0) continue; const double c = nx * v[2*i] + ny * v[2*i+1]; bool ok = true; for (int k = 0; k < n && ok; ++k) ok = nx * v[2*k] + ny * v[2*k+1] <= c; if (ok) { bool seen = false; for (auto& o : out) seen |= o[0] == nx && o[1] == ny && o[2] == c; if (!seen) out.push_back(V{nx, ny, c}); } } }
static void half3(const V& v, std::vector<V>& out) { const int n = v.size() / 3; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = j + 1; k < n; ++k) if (i != j && i != k) { for (int sg = -1; sg < 2; sg += 2) {
  const double u[3] = {v[3*j]-v[3*i], v[3*j+1]-v[3*i+1], v[3*j+2]-v[3*i+2]}, w[3] = {v[3*k]-v[3*i], v[3*k+1]-v[3*i+1], v[3*k+2]-v[3*i+2]}; const double m[3] = {sg*(u[1]*w[2]-u[2]*w[1]), sg*(u[2]*w[0]-u[0]*w[2]), sg*(u[0]*w[1]-u[1]*w[0])}; if (m[0] == 0 && m[1] == 0 && m[2] == 0) continue;
  const double c = m[0]*v[3*i] + m[1]*v[3*i+1] + m[2]*v[3*i+2]; bool ok = true; for (int l = 0; l < n && ok; ++l) ok = m[0]*v[3*l] + m[1]*v[3*l+1] + m[2]*v[3*l+2] <= c; if (!ok) continue; bool seen = false; for (auto& o : out) seen |= o[0]*m[1] == o[1]*m[0] && o[0]*m[2] == o[2]*m[0] && o[1]*m[2] == o[2]*m[1] && o[0]*m[0] + o[1]*m[1] + o[2]*m[2] > 0; if (!seen) out.push_back(V{m[0], m[1], m[2], c}); } } }
template <int D> static bool inAll(const std::vector<V>& H, const double* t, bool strict) { bool r = true; for (auto& h : H) { double x = 0; for (int d = 0; d < D; ++d) x += h[d] * t[d]; r &= strict ? x < h[D] : x <= h[D]; } return r; }
template <int D> static V diff(const V& a, const V& b) { V v; for (size_t i = 0; i < a.size() / D; ++i) for (size_t j = 0; j < b.size() / D; ++j) for (int d = 0; d < D; ++d) v.push_back(a[D*i+d] - b[D*j+d]); return v; }
#ifndef VPG
#define VPG 12
#endif
extern "C" void h_conv2() {
  const V a = poly(vp_len("a", 0, 4)), b = poly(vp_len("b", 0, 4)); const double t[2] = {vp_grid("tx", -VPG, VPG, -1), vp_grid("ty", -VPG, VPG, -1)}; V c(b); for (size_t i = 0; i < c.size(); ++i) c[i] += t[i % 2];
  std::vector<V> H; half2(diff<2>(a, b), H); const bool want = inAll<2>(H, t, false), got = convexIntersect<double>(plc2(a), plc2(c)); vp_assert(got == want, "polygons intersect exactly when they share a point"); if (got) vp_cover("meet"); else vp_cover("apart");
  V big(a); for (auto& x : big) x = 3 * x - 4; std::vector<V> A; half2(big, A); bool in = true; for (size_t j = 0; j < c.size() / 2; ++j) { const double x[2] = {c[2*j], c[2*j+1]}; in &= inAll<2>(A, x, true); } const bool w = convexWithin<double>(plc2(c), plc2(big)); vp_assert(w == in, "within exactly when every vertex is strictly inside"); if (w) vp_cover("within");
}
// 2D: a triangle with a free vertex
extern "C" void h_convtri() {
  const int R = 5; double x[2] = {G("x", -R, R), G("y", -R, R)}, t[2] = {G("tx", -R, R), G("ty", -R, R)}; V a = poly(vp_len("a", 0, 1)), c = {t[0], t[1], t[0] + 2, t[1] + 1, t[0] + x[0], t[1] + x[1]}; vp_assume(2 * x[1] - x[0] > 0);
  bool want = false; const int n = a.size() / 2; auto cr = [](const double* o, const double* p, const double* q) { return (p[0]-o[0])*(q[1]-o[1]) - (p[1]-o[1])*(q[0]-o[0]); };
  for (int i = 0; i < n; ++i) { bool in = true; for (int j = 0; j < 3; ++j) in &= cr(&c[2*j], &c[2*((j+1)%3)], &a[2*i]) >= 0; want |= in; }
  for (int j = 0; j < 3; ++j) { bool in = true; for (int i = 0; i < n; ++i) in &= cr(&a[2*i], &a[2*((i+1)%n)], &c[2*j]) >= 0; want |= in; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) { const double *p = &a[2*i], *q = &a[2*((i+1)%n)], *r = &c[2*j], *s = &c[2*((j+1)%3)]; const double d1 = cr(p, q, r), d2 = cr(p, q, s), d3 = cr(r, s, p), d4 = cr(r, s, q); want |= ((d1 > 0 & d2 < 0) | (d1 < 0 & d2 > 0)) & ((d3 > 0 & d4 < 0) | (d3 < 0 & d4 > 0)); }
  const bool got = convexIntersect<double>(plc2(a), plc2(c)), rev = convexIntersect<double>(plc2(c), plc2(a)); vp_assert(got == want && rev == want, "polygons intersect exactly when they share a point"); if (got) vp_cover("meet"); else vp_cover("apart");
}
static ReducedPLC<3, double> solid(int s) {
  ReducedPLC<3, double> r; const double lo[3] = {0, 0, 0}, hi[3] = {4, 3, 2};
  switch (s) {
  case 0: r.points = V{0,0,0, 4,0,0, 0,4,0, 0,0,4}; r.facets = {{0,2,1}, {0,1,3}, {0,3,2}, {1,2,3}}; return r;
  case 1: return plc_box<3, double>(lo, hi);
  case 2: r.points = V{-3,0,0, 3,0,0, 0,-1,4, 0,1,4}; r.facets = {{0,3,2}, {1,2,3}, {0,1,3}, {0,2,1}}; if (trip(r.points, 0, 3, 2, 1) > 0) for (auto& f : r.facets) std::swap(f[0], f[1]); return r;
  default: r.points = V{2,2,0, 0,0,3, 4,0,3, 4,4,3, 0,4,3}; r.facets = {{1,2,3,4}, {0,2,1}, {0,3,2}, {0,4,3}, {0,1,4}}; return r;
  }
}
extern "C" void h_conv3() {
  const ReducedPLC<3, double> a = solid(vp_len("a", VPA, VPB)), b = solid(vp_len("b", 0, 3)); const double t[3] = {vp_grid("tx", VPL, VPH, 0), vp_grid("ty", VPL, VPH, 0), vp_grid("tz", VPL, VPH, 0)}; ReducedPLC<3, double> c(b); for (size_t i = 0; i < c.points.size(); ++i) c.points[i] += t[i % 3];
  std::vector<V> H; half3(diff<3>(a.points, b.points), H); const bool want = inAll<3>(H, t, false), got = convexIntersect<double>(a, c); vp_assert(got == want, "polyhedra intersect exactly when they share a point"); if (got) vp_cover("meet"); else vp_cover("apart");
}
extern "C" void h_within3() {
  ReducedPLC<3, double> a = solid(vp_len("a", 0, 3)); for (auto& x : a.points) x *= 4; const ReducedPLC<3, double> b = solid(vp_len("b", 0, 3)); const double t[3] = {vp_grid("tx", VPL, VPH, 0), vp_grid("ty", VPL, VPH, 0), vp_grid("tz", VPL, VPH, 0)}; ReducedPLC<3, double> c(b); for (size_t i = 0; i < c.points.size(); ++i) c.points[i] += t[i % 3];
  std::vector<V> A; half3(a.points, A); bool in = true; for (size_t j = 0; j < c.points.size() / 3; ++j) { const double x[3] = {c.points[3*j], c.points[3*j+1], c.points[3*j+2]}; in &= inAll<3>(A, x, true); } const bool w = convexWithin<double>(c, a); vp_assert(w == in, "within exactly when every vertex is strictly inside"); if (w) vp_cover("within"); else vp_cover("not");
}
