// Cell geometry of a mesh, bounding boxes, element removal, searching, point hashing
#include "mesh.hh"
#include "polytope_geometric_utilities.hh"
#include "removeElements.hh"
#include "bisectSearch.hh"
#include "IntPointMap.hh"
#include "DimensionTraits.hh"
#include "mpim.h"
using namespace polytope; using namespace polytope::geometry;
#ifndef VPN
#define VPN 3
#endif
#ifndef VPR
#define VPR 4
#endif
typedef std::vector<double> VD;
static double ad(double x) { return x < 0 ? -x : x; }
// ---- C19: 2D quads, two nodes anywhere on a lattice around their place, any face orientation
extern "C" void h_area() {
  Tessellation<2, double> m; grid2(m, 2, 2, 4, 4); m.nodes[8] = G("x", 2, 6); m.nodes[9] = G("y", 2, 6); m.nodes[0] = G("u", -2, 1); m.nodes[1] = G("v", -2, 1); for (int f = 0; f < 4; ++f) if (vp_conc(vp_bool("flip"))) flipFace(m, f);
  for (unsigned c = 0; c < 4; ++c) {
    VD p; for (size_t k = 0; k < m.cells[c].size(); ++k) { const int s = m.cells[c][k]; VD q = xyz(m, m.faces[fid(s)][s < 0 ? 1 : 0]); p.push_back(q[0]); p.push_back(q[1]); }
    double A = 0, cx = 0, cy = 0, mx = 0, my = 0; const int n = p.size() / 2; for (int k = 0; k < n; ++k) { mx += p[2*k]; my += p[2*k+1]; const int l = (k + 1) % n; const double ax = p[2*k] - 4, ay = p[2*k+1] - 4, bx = p[2*l] - 4, by = p[2*l+1] - 4, d = ax*by - ay*bx; A += d; cx += d * (ax + bx); cy += d * (ay + by); }
    double cen[2], area = -9, mean[2]; computeCellCentroidAndSignedArea<double>(m, c, 1e-10, cen, area); computeCellCentroid(m, c, mean);
    vp_assert(2 * area == A, "signed area is the shoelace area, positive counter-clockwise"); vp_assert(ad((cen[0] - 4) * 3 * A - cx) < 1e-6 && ad((cen[1] - 4) * 3 * A - cy) < 1e-6, "centroid is the area centroid"); vp_assert(ad(mean[0] * n - mx) < 1e-9 && ad(mean[1] * n - my) < 1e-9, "node centroid is the mean of the cell's nodes");
    ReducedPLC<2, double> r = cellToReducedPLC(m, c); vp_assert(r.facets.size() == (size_t)n && r.points.size() == 2 * (size_t)n && r.holes.empty() && r.valid(), "cell PLC has one facet per face"); double B = 0; std::vector<VD> want, got;
    for (int k = 0; k < n; ++k) { const int i = r.facets[k][0], j = r.facets[k][1]; vp_assert(i >= 0 && i < n && j == r.facets[(k + 1) % n][0], "cell PLC is a closed loop"); B += r.points[2*i] * r.points[2*j+1] - r.points[2*i+1] * r.points[2*j]; got.push_back(VD(r.points.begin() + 2*i, r.points.begin() + 2*i + 2)); want.push_back(VD(p.begin() + 2*k, p.begin() + 2*k + 2)); }
    vp_assert(B == A, "cell PLC keeps the cell's shape and orientation"); int sh = -1; for (int s = 0; s < n; ++s) { bool e = true; for (int k = 0; k < n; ++k) e &= eqv(got[k], want[(k + s) % n]); if (e) sh = s; } vp_assert(sh >= 0, "cell PLC visits the cell's nodes in order");
  }
  vp_cover("end");
}
// ---- 3D: hexahedra under an arbitrary lattice shear and shift
extern "C" void h_volume() {
  Tessellation<3, double> m; grid3(m, 2, 1, 1); const double a = G("a", 1, 3), b = G("b", -2, 2), c = G("c", -2, 2), d = G("d", 1, 3), e = G("e", -1, 1), f = G("f", 1, 2), t = G("t", -3, 3); const unsigned nn = m.nodes.size() / 3;
  for (unsigned i = 0; i < nn; ++i) { const double x = m.nodes[3*i], y = m.nodes[3*i+1], z = m.nodes[3*i+2]; m.nodes[3*i] = a*x + b*y + c*z + t; m.nodes[3*i+1] = d*y + e*z - t; m.nodes[3*i+2] = f*z + 1; }
  int inner = -1; for (size_t k = 0; k < m.faces.size(); ++k) if (m.faceCells[k].size() == 2) inner = k; if (vp_conc(vp_bool("flip0"))) flipFace(m, 0); if (vp_conc(vp_bool("flipi"))) flipFace(m, inner);
  for (unsigned q = 0; q < 2; ++q) { double cen[3], v = -9, mean[3]; computeCellCentroidAndSignedVolume(m, q, cen, v); computeCellCentroid(m, q, mean); const double w[3] = {a*(q + .5) + b*.5 + c*.5 + t, d*.5 + e*.5 - t, f*.5 + 1};
    vp_assert(ad(ad(v) - a*d*f) < 1e-9, "volume of a parallelepiped is its determinant"); vp_assert(v > 0, "volume is positive for outward faces"); for (int k = 0; k < 3; ++k) vp_assert(ad(cen[k] - w[k]) < 1e-9 && ad(mean[k] - w[k]) < 1e-9, "centroid of a parallelepiped is its centre"); }
  vp_cover("end");
}
// ---- a tetrahedron with one node anywhere: volume, centroid, face centroid and unit normal
extern "C" void h_tetcell() {
  Tessellation<3, double> m; const int P[] = {0,0,0, 4,0,0, 1,4,0}; for (int i = 0; i < 9; ++i) m.nodes.push_back(P[i]); const double ax = G("ax", -2, 6), ay = G("ay", -2, 6), az = G("az", 1, 5); m.nodes.push_back(ax); m.nodes.push_back(ay); m.nodes.push_back(az);
  const int F[4][3] = {{0,2,1}, {0,1,3}, {1,2,3}, {2,0,3}}; const int rot = vp_len("rot", 0, 2); m.cells.resize(1); for (int f = 0; f < 4; ++f) { std::vector<unsigned> v; for (int k = 0; k < 3; ++k) v.push_back(F[f][(k + rot) % 3]); m.faces.push_back(v); m.faceCells.push_back(std::vector<int>(1, 0)); m.cells[0].push_back(f); }
  if (vp_conc(vp_bool("f1"))) flipFace(m, 1); if (vp_conc(vp_bool("f2"))) flipFace(m, 2);
  double cen[3], v, mean[3]; computeCellCentroidAndSignedVolume(m, 0, cen, v); computeCellCentroid(m, 0, mean); vp_assert(ad(v - 16 * az / 6) < 1e-9, "volume of a tetrahedron"); const double w[3] = {(5 + ax) / 4, (4 + ay) / 4, az / 4}; for (int k = 0; k < 3; ++k) vp_assert(ad(cen[k] - w[k]) < 1e-9 && ad(mean[k] - w[k]) < 1e-9, "centroid of a tetrahedron is the mean of its nodes");
  for (unsigned f = 0; f < 4; ++f) { double fc[3], n[3]; computeFaceCentroidAndNormal(m, f, fc, n); const std::vector<unsigned>& g = m.faces[f]; VD A = xyz(m, g[0]), B = xyz(m, g[1]), C = xyz(m, g[2]); const double u[3] = {B[0]-A[0], B[1]-A[1], B[2]-A[2]}, s[3] = {C[0]-A[0], C[1]-A[1], C[2]-A[2]}, x[3] = {u[1]*s[2]-u[2]*s[1], u[2]*s[0]-u[0]*s[2], u[0]*s[1]-u[1]*s[0]};
    double nn = 0, xx = 0, nx = 0; for (int k = 0; k < 3; ++k) { vp_assert(ad(3 * fc[k] - A[k] - B[k] - C[k]) < 1e-9, "face centroid is the mean of its nodes"); nn += n[k]*n[k]; xx += x[k]*x[k]; nx += n[k]*x[k]; } vp_assert(ad(nn - 1) < 1e-9 && nx > 0 && ad(nx*nx - xx) < 1e-6 * xx, "face normal is the right-handed unit normal"); }
  ReducedPLC<3, double> r = cellToReducedPLC(m, 0); vp_assert(r.facets.size() == 4 && r.points.size() == 12 && r.valid(), "cell PLC has the cell's faces and nodes"); double vol = 0;
  for (int f = 0; f < 4; ++f) { vp_assert(r.facets[f].size() == 3, "triangular facets"); const double* p[3]; for (int k = 0; k < 3; ++k) { vp_assert(r.facets[f][k] >= 0 && r.facets[f][k] < 4, "facet indices in range"); p[k] = &r.points[3 * r.facets[f][k]]; } vol += p[0][0]*(p[1][1]*p[2][2]-p[1][2]*p[2][1]) - p[0][1]*(p[1][0]*p[2][2]-p[1][2]*p[2][0]) + p[0][2]*(p[1][0]*p[2][1]-p[1][1]*p[2][0]); const int s = m.cells[0][f]; const std::vector<unsigned>& g = m.faces[fid(s)]; for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) vp_assert(p[k][j] == m.nodes[3 * g[s < 0 ? 2 - k : k] + j], "facet k is face k seen from outside"); }
  vp_assert(vol == 16 * az, "cell PLC is closed and outward"); vp_cover("end");
}
// ---- C35: bounding boxes, serial and over two ranks
template <int D> static void bbox1() {
  mpim_init(1, 1); VD p; const long n = vp_len("n", 1, VPN); for (long i = 0; i < D * n; ++i) p.push_back(vp_grid("p", -1000000, 1000000, -4)); double lo[D], hi[D], l2[D], h2[D]; computeBoundingBox<D, double>(p, vp_bool("reduce"), lo, hi); for (int k = 0; k < D; ++k) { l2[k] = vp_grid("l", -1000000, 1000000, -4); h2[k] = l2[k]; } const double l0 = l2[0], h0 = h2[D-1]; VD q(p); expandBoundingBox<D, double>(&q[0], q.size(), false, l2, h2);
  for (int k = 0; k < D; ++k) { double a = p[k], b = p[k]; for (long i = 1; i < n; ++i) { a = std::min(a, p[D*i+k]); b = std::max(b, p[D*i+k]); } vp_assert(lo[k] == a && hi[k] == b, "bounding box is exactly the extremes"); if (k == 0) vp_assert(l2[0] == std::min(l0, a), "expanded box covers old and new, low"); if (k == D-1) vp_assert(h2[k] == std::max(h0, b), "expanded box covers old and new, high"); }
  vp_cover("end");
}
extern "C" void h_bbox2() { bbox1<2>(); }
extern "C" void h_bbox3() { bbox1<3>(); }
static VD gp[2]; static double glo[2][2], ghi[2][2], elo[2][2], ehi[2][2];
static void bbrank(void* arg) { const int r = (long)arg; computeBoundingBox<2, double>(gp[r].empty() ? 0 : &gp[r][0], gp[r].size(), true, glo[r], ghi[r]); expandBoundingBox<2, double>(gp[r].empty() ? 0 : &gp[r][0], gp[r].size(), true, elo[r], ehi[r]); }
extern "C" void h_bboxmpi() {
  mpim_init(2, 1); VD all; double l0 = vp_grid("l0", -100, 100, 0); for (int r = 0; r < 2; ++r) { gp[r].clear(); const long n = vp_len("n", 0, 2); for (long i = 0; i < 2 * n; ++i) { gp[r].push_back(vp_grid("p", -1000, 1000, -2)); all.push_back(gp[r].back()); } elo[r][0] = r ? l0 : 5; elo[r][1] = 7; ehi[r][0] = 900; ehi[r][1] = r ? 8 : l0; } vp_assume(!all.empty());
  int t[2]; for (int r = 0; r < 2; ++r) t[r] = vp_thread(bbrank, (void*)(long)r); for (int r = 0; r < 2; ++r) while (vp_alive() > 1) vp_yield(); (void)t; mpim_finish();
  for (int k = 0; k < 2; ++k) { double a = all[k], b = all[k]; for (size_t i = 0; i < all.size() / 2; ++i) { a = std::min(a, all[2*i+k]); b = std::max(b, all[2*i+k]); } for (int r = 0; r < 2; ++r) { vp_assert(glo[r][k] == a && ghi[r][k] == b, "global box is the extremes over all ranks, on every rank"); vp_assert(elo[r][k] == std::min(a, k ? 7. : std::min(5., l0)) && ehi[r][k] == std::max(b, k ? std::max(8., l0) : 900.), "expanded global box covers every rank's old box and points"); } }
  vp_cover("end");
}
// ---- C09
extern "C" void h_remove() {
  const long n = vp_len("n", 0, VPN); std::vector<int> v, want; std::vector<unsigned> el; std::vector<int> map; int k = 0; for (long i = 0; i < n; ++i) { v.push_back((int)vp_int("v", -2147483648L, 2147483647L)); if (vp_conc(vp_bool("rm"))) { el.push_back(i); map.push_back(-1); } else { want.push_back(v.back()); map.push_back(k++); } }
  std::vector<std::vector<int> > w; for (long i = 0; i < n; ++i) w.push_back(std::vector<int>(i, v[i])); std::vector<std::vector<int> > w0(w);
  const std::vector<int> o = internal::removeElements(v, el); vp_assert(eqv(v, want), "the other elements remain in order"); vp_assert(eqv(o, map), "old-to-new map"); internal::removeElements(w, el); vp_assert(w.size() == want.size(), "nested size"); for (long i = 0; i < n; ++i) if (map[i] >= 0) vp_assert(eqv(w[map[i]], w0[i]), "nested elements remain in order");
  if (el.empty()) vp_cover("none"); else if (want.empty()) vp_cover("all"); else vp_cover("some"); vp_obs(v.size());
}
// ---- C21
extern "C" void h_bisect() {
  const long n = vp_len("n", 1, VPN); const bool desc = vp_conc(vp_bool("desc")); std::vector<int> t; for (long i = 0; i < n; ++i) { t.push_back((int)vp_int("t", -1000000, 1000000)); if (i) vp_assume(desc ? t[i] <= t[i-1] : t[i] >= t[i-1]); } const int v = vp_int("v", -1000000, 1000000); vp_assume(!desc || n > 1 && t[0] != t[n-1]);
  const int j = bisectSearch(t, v); int want = -1; for (long i = 0; i < n; ++i) if (desc ? v < t[i] : v >= t[i]) want = i; vp_assert(j == want, "the lower bracketing index"); vp_cover("end"); vp_obs(j);
}
#ifndef VPH
#define VPH 99
#endif
// the map is translation invariant, so the first point is the origin; VPH: a point that is only asked about
template <int D> struct IPM { typedef internal::IntPointMap<D, int> M; typedef typename M::IntPoint P; };
template <int D> static void ipm() {
  typedef typename IPM<D>::P P; const int tol = vp_len("tol", 0, 1); typename IPM<D>::M m(tol); std::vector<P> p; std::vector<size_t> id; const long n = vp_len("n", 1, VPN);
  for (long i = 0; i < n; ++i) { P q; for (int k = 0; k < D; ++k) q[k] = i == 0 ? 0 : (int)vp_int("c", -1000000, 1000000); bool any = false; size_t want = 0; for (long j = 0; j < i; ++j) { bool near = true; for (int k = 0; k < D; ++k) { const long d = (long)q[k] - p[j][k]; near &= d <= tol & d >= -tol; } if (near) { any = true; want = id[j]; } }
    // the map assumes at most one known point within tolerance of a new one
    long cnt = 0, last = 0; for (long j = 0; j < i; ++j) { bool near = true; for (int k = 0; k < D; ++k) { const long d = (long)q[k] - p[j][k]; near &= d <= tol & d >= -tol; } bool dup = false; for (long l = 0; l < j; ++l) dup |= id[l] == id[j]; if (near && !dup) ++cnt; if (near && dup) last = 1; } vp_assume(cnt <= 1 && (tol == 0 || !last));
    vp_assert(m.have(q) == any, "have tells whether a point within tolerance is known"); if (i == VPH) continue; const size_t r = m.index(q); if (any) { vp_assert(r == want, "a known point keeps its number"); vp_cover("known"); } else { size_t mx = 0; for (long j = 0; j < i; ++j) mx = std::max(mx, id[j] + 1); vp_assert(r == mx, "a new point gets the next number"); vp_cover("new"); } p.push_back(q); id.push_back(r); vp_assert(m.have(q), "an added point is known"); }
}
extern "C" void h_ipm2() { ipm<2>(); }
extern "C" void h_ipm3() { ipm<3>(); }
// ---- C04: hashing of positions
static double p2(int k) { double r = 1; while (k > 0) { r *= 2; --k; } while (k < 0) { r /= 2; ++k; } return r; }
// inner box of exactly coordMax quanta of 2^-25 (3D 2^-17), wider or narrower along each axis; outer box eight times as large
template <int D> static void hash_(bool out) {
  typedef Hasher<D, double> H; const unsigned long M = H::coordMax(); double lo[D], hi[D], olo[D], ohi[D], a[D], b[D], q[D]; const long shift = vp_len("shift", 0, 2);
  for (int k = 0; k < D; ++k) { const int sh = (D == 2 ? -25 : -17) + (shift == 1 ? k : shift == 2 ? -k : 0); const double dx = p2(sh), L = (double)M * dx; q[k] = out ? 8 * dx : dx;
    lo[k] = shift == 1 ? k + 1 : shift == 2 ? -k : 0; hi[k] = lo[k] + L; olo[k] = lo[k] - 4 * L; ohi[k] = hi[k] + 3 * L; const bool left = out && k == 0; a[k] = (out ? olo[k] : lo[k]) + vp_grid("a", 0, left ? 8 * (long)M - 8 : 4 * (long)M * (out ? 4 : 1), sh + (out ? -1 : -2)); b[k] = (out ? olo[k] : lo[k]) + vp_grid("b", 0, left ? 8 * (long)M - 8 : 4 * (long)M * (out ? 4 : 1), sh + (out ? -1 : -2)); }
  const unsigned long ha = H::hashPosition(a, lo, hi, olo, ohi), hb = H::hashPosition(b, lo, hi, olo, ohi); double ua[D]; H::unhashPosition(ua, lo, hi, olo, ohi, ha);
  vp_assert((ha >> 63) == out && (hb >> 63) == out, "top bit tells inner from outer box"); bool same = true, far = false; for (int k = 0; k < D; ++k) { vp_assert(ad(ua[k] - a[k]) <= q[k], "unhashing returns to within a quantum"); same &= a[k] == b[k]; far |= ad(a[k] - b[k]) >= q[k]; }
  if (same) { vp_assert(ha == hb, "equal positions hash equally"); vp_cover("same"); } if (far) { vp_assert(ha != hb, "positions a quantum apart hash differently"); vp_cover("far"); }
  const unsigned long x = vp_int("hx", 0, M), y = vp_int("hy", 0, M), z = vp_int("hz", 0, M); if constexpr (D == 2) { const unsigned long h = H::hash(x, y); uint64_t c[2]; H::hashedPosition(c, h); vp_assert(H::qxval(h) == x && H::qyval(h) == y && c[0] == x && c[1] == y, "hash keeps every coordinate bit"); } else { const unsigned long h = H::hash(x, y, z); vp_assert(H::qxval(h) == x && H::qyval(h) == y && H::qzval(h) == z, "hash keeps every coordinate bit"); }
}
extern "C" void h_hash2() { hash_<2>(false); }
extern "C" void h_hash3() { hash_<3>(false); }
extern "C" void h_hasho2() { hash_<2>(true); }
extern "C" void h_hasho3() { hash_<3>(true); }
template <int D> static void uniq() {
  double lo[D], hi[D]; VD p, u; std::vector<unsigned> m; for (int k = 0; k < D; ++k) { lo[k] = -1; hi[k] = -1 + (double)Hasher<D, double>::coordMax() * p2(D == 2 ? -20 : -10); } const double tol = vp_conc(vp_bool("tol")) ? 1.0 : 0.0, q = tol > 0 ? 1.0 : p2(D == 2 ? -20 : -10); const long n = vp_len("n", 1, VPN); for (long i = 0; i < D * n; ++i) p.push_back(-1 + vp_grid("p", 0, (long)Hasher<D, double>::coordMax(), D == 2 ? -20 : -10));
  uniquePoints<D, double>(p, lo, hi, tol, u, m); vp_assert(m.size() == (size_t)n && u.size() % D == 0 && u.size() <= p.size(), "sizes"); const unsigned nu = u.size() / D; unsigned next = 0;
  for (long i = 0; i < n; ++i) { vp_assert(m[i] <= next && m[i] < nu, "numbered in order of first appearance"); const bool fresh = m[i] == next; if (fresh) { for (int k = 0; k < D; ++k) vp_assert(u[D*m[i]+k] == p[D*i+k], "unique points are the first of their kind, unchanged"); ++next; }
    for (int k = 0; k < D; ++k) vp_assert(ad(u[D*m[i]+k] - p[D*i+k]) <= q, "points are only merged within tolerance"); for (long j = 0; j < i; ++j) { bool same = true; for (int k = 0; k < D; ++k) same &= p[D*i+k] == p[D*j+k]; if (same) { vp_assert(m[i] == m[j], "equal points are merged"); vp_cover("merged"); } } }
  vp_assert(next == nu, "no spare points"); if (nu > 1) vp_cover("distinct"); vp_obs(nu);
}
extern "C" void h_uniq2() { uniq<2>(); }
extern "C" void h_uniq3() { uniq<3>(); }
