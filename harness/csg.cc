// Constructive solid geometry on piecewise linear complexes
#include "util.hh"
#include "polytope.hh"
#include "PLC_CSG_2d.hh"
#include "PLC_CSG_3d.hh"
using namespace polytope;
#ifndef VPR
#define VPR 3
#endif
#ifndef VPC
#define VPC(x) (x)   // or vp_conc: one path per offset
#endif
#ifndef VPT
#define VPT double
#endif
typedef VPT R;
typedef ReducedPLC<2, R> P2;
static P2 loops(const R (*p)[2], int n, R dx, R dy, const R (*h)[2] = 0, int nh = 0) {
  P2 r; for (int l = 0; l < 2; ++l) { const int m = l ? nh : n, o = r.points.size() / 2; for (int i = 0; i < m; ++i) { r.points.push_back((l ? h : p)[i][0] + dx); r.points.push_back((l ? h : p)[i][1] + dy); std::vector<int> f; f.push_back(o + i); f.push_back(o + (i + 1) % m); r.facets.push_back(f); } } return r;
}
// number of times the directed facets wind round (4x, 4y) / 4 -- the point never lies level with a vertex
static int winding(const P2& s, R x4, R y4) {
  int w = 0; for (size_t i = 0; i < s.facets.size(); ++i) { const int a = s.facets[i][0], b = s.facets[i][1]; const R ax = 4*s.points[2*a] - x4, ay = 4*s.points[2*a+1] - y4, bx = 4*s.points[2*b] - x4, by = 4*s.points[2*b+1] - y4, c = ax*by - ay*bx;
    w += (ay < 0 & by > 0 & c > 0) ? 1 : 0; w -= (ay > 0 & by < 0 & c < 0) ? 1 : 0; } return w;
}
static const R BOX[4][2] = {{0,0},{4,0},{4,4},{0,4}}, ELL[6][2] = {{0,0},{5,0},{5,2},{2,2},{2,5},{0,5}}, SQ[4][2] = {{0,0},{2,0},{2,3},{0,3}}, DIA[4][2] = {{2,0},{4,2},{2,4},{0,2}}, TRI[3][2] = {{0,0},{4,0},{0,4}}, OUT[4][2] = {{0,0},{6,0},{6,6},{0,6}}, HOLE[4][2] = {{1,1},{1,5},{5,5},{5,1}}, VEE[5][2] = {{0,0},{3,0},{6,0},{6,4},{3,1}}, CHEV[4][2] = {{0,0},{4,0},{4,4},{2,2}};
static P2 shape(int k, R dx, R dy) { switch (k) { case 0: return loops(BOX, 4, dx, dy); case 1: return loops(ELL, 6, dx, dy); case 2: return loops(DIA, 4, dx, dy); case 3: return loops(OUT, 4, dx, dy, HOLE, 4); case 4: return loops(TRI, 3, dx, dy); case 5: return loops(SQ, 4, dx, dy); default: return loops(CHEV, 4, dx, dy); } }
#ifndef VPA0
#define VPA0 0
#define VPA1 4
#endif
// 2D: where the two shapes lie and which point is asked about are symbolic
extern "C" void h_csg2() {
  const int ka = vp_len("a", VPA0, VPA1), kb = vp_len("b", 0, VPS), op = vp_len("op", 0, 2); static const int KB[4] = {5, 2, 4, 6}; static const R O[4][2] = {{-1, -1}, {-2, -2}, {-2, -2}, {-2, -2}};
  const R dx = O[kb][0] + (R)VPC(vp_int("dx", 0, VPR)) * VPD, dy = O[kb][1] + (R)vp_conc(vp_int("dy", 0, VPR)) * VPD;
  const P2 a = shape(ka, 0, 0), b = shape(KB[kb], dx, dy); const std::vector<R> pa(a.points), pb(b.points); const long live = vp_heaplive();
  { P2 r = op == 0 ? CSG::csg_union(a, b) : op == 1 ? CSG::csg_intersect(a, b) : CSG::csg_subtract(a, b);
  vp_assert(eqv(a.points, pa) && eqv(b.points, pb), "the operands are not changed");
  const R x4 = (R)(4 * vp_int("qx", -3, 9) + 2), y4 = (R)(4 * vp_int("qy", -3, 9) + 1);
  const int wa = winding(a, x4, y4), wb = winding(b, x4, y4), w = winding(r, x4, y4);
  const int want = op == 0 ? (wa | wb) : op == 1 ? (wa & wb) : (wa & !wb);
  vp_assert(w == want, op == 0 ? "a point is in the union exactly when it is in either" : op == 1 ? "a point is in the intersection exactly when it is in both" : "a point is in the difference exactly when it is in the first only");
  // every end of a facet is the start of as many facets: the boundary is closed
  bool closed = true; for (size_t i = 0; i < r.points.size() / 2; ++i) { int bal = 0; for (size_t f = 0; f < r.facets.size(); ++f) { const int s = r.facets[f][0], e = r.facets[f][1]; bal += (r.points[2*s] == r.points[2*i] & r.points[2*s+1] == r.points[2*i+1]) ? 1 : 0; bal -= (r.points[2*e] == r.points[2*i] & r.points[2*e+1] == r.points[2*i+1]) ? 1 : 0; } closed &= bal == 0; }
  vp_assert(closed, "the boundary of the result closes"); vp_cover(op == 0 ? "union" : op == 1 ? "intersection" : "difference"); vp_obs(w); }
  vp_assert(vp_heaplive() == live, "nothing stays allocated");
}
typedef ReducedPLC<3, R> P3;
// box, or right-angled wedge with the slope x/nx + z/nz = 1, counter-clockwise seen from outside
static P3 solid(bool wedge, R x, R y, R z, R nx, R ny, R nz) {
  P3 r; static const int C[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}, FB[6][4] = {{0,3,2,1},{4,5,6,7},{0,1,5,4},{3,7,6,2},{0,4,7,3},{1,2,6,5}}, FW[5][4] = {{0,3,2,1},{1,2,5,4},{0,4,5,3},{0,1,4,-1},{3,5,2,-1}}, CW[6][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{0,1,1}};
  for (int i = 0; i < (wedge ? 6 : 8); ++i) { const int* c = wedge ? CW[i] : C[i]; r.points.push_back(x + c[0]*nx); r.points.push_back(y + c[1]*ny); r.points.push_back(z + c[2]*nz); }
  for (int i = 0; i < (wedge ? 5 : 6); ++i) { std::vector<int> f; for (int j = 0; j < 4; ++j) { const int k = wedge ? FW[i][j] : FB[i][j]; if (k >= 0) f.push_back(k); } r.facets.push_back(f); }
  return r;
}
// how often the facets wind round the half line going up in x from a quarter of (x4, y4, z4); vertices never lie level with it
static int winding(const P3& s, R x4, R y4, R z4) {
  int w = 0; for (size_t f = 0; f < s.facets.size(); ++f) { const std::vector<int>& v = s.facets[f]; const int n = v.size(); R nx = 0, ny = 0, nz = 0, h = 0; int wf = 0; const R ox = 4*s.points[3*v[0]] - x4, oy = 4*s.points[3*v[0]+1] - y4, oz = 4*s.points[3*v[0]+2] - z4;
    for (int i = 0; i < n; ++i) { const int a = 3*v[i], b = 3*v[(i + 1) % n]; const R ax = 4*s.points[a] - x4, ay = 4*s.points[a+1] - y4, az = 4*s.points[a+2] - z4, bx = 4*s.points[b] - x4, by = 4*s.points[b+1] - y4, bz = 4*s.points[b+2] - z4, c = ay*bz - az*by;
      wf += (az < 0 & bz > 0 & c > 0) ? 1 : 0; wf -= (az > 0 & bz < 0 & c < 0) ? 1 : 0; nx += c; ny += az*bx - ax*bz; nz += ax*by - ay*bx; }
    h = nx*ox + ny*oy + nz*oz; w += (wf > 0 & h > 0 | wf < 0 & h < 0) ? wf : 0; }
  return w;
}
#ifndef VPX
#define VPX 2
#endif
extern "C" void h_csg3() {
  const int op = vp_len("op", 0, 2), k = vp_len("shapes", VPX, VPX); const R dx = (R)vp_len("dx", -3, VPR), dy = (R)vp_len("dy", -2, VPR), dz = (R)vp_len("dz", -2, VPR);
  const P3 a = solid(k == 1, 0, 0, 0, 4, 4, 4), b = solid(k == 2, dx, dy, dz, k == 2 ? 4 : 2, k == 1 ? 4 : 2, k == 1 ? 2 : 4); const std::vector<R> pa(a.points), pb(b.points); const long live = vp_heaplive();
  { P3 r = op == 0 ? CSG::csg_union(a, b) : op == 1 ? CSG::csg_intersect(a, b) : CSG::csg_subtract(a, b);
  vp_assert(eqv(a.points, pa) && eqv(b.points, pb), "the operands are not changed");
  const R x4 = (R)(4 * vp_int("qx", -3, 6) + 3), y4 = (R)(4 * vp_int("qy", -2, 5) + 2), z4 = (R)(4 * vp_int("qz", -2, 6) + 1);
  const int wa = winding(a, x4, y4, z4), wb = winding(b, x4, y4, z4), w = winding(r, x4, y4, z4), want = op == 0 ? (wa | wb) : op == 1 ? (wa & wb) : (wa & !wb);
  vp_assert(w == want, op == 0 ? "a point is in the union exactly when it is in either" : op == 1 ? "a point is in the intersection exactly when it is in both" : "a point is in the difference exactly when it is in the first only");
  std::map<std::pair<int, int>, int> e; bool ok = true, distinct = true; for (size_t f = 0; f < r.facets.size(); ++f) { const std::vector<int>& v = r.facets[f]; for (size_t i = 0; i < v.size(); ++i) { const int p = v[i], q = v[(i + 1) % v.size()]; ok &= p >= 0 && 3*p + 2 < (int)r.points.size(); distinct &= p != q; if (p < q) ++e[std::make_pair(p, q)]; else --e[std::make_pair(q, p)]; } }
  vp_assert(ok && distinct, "facets name distinct existing points"); bool closed = true; for (std::map<std::pair<int, int>, int>::iterator i = e.begin(); i != e.end(); ++i) closed &= i->second == 0;
  vp_assert(closed, "each edge is used as often in either direction"); vp_cover(op == 0 ? "union" : op == 1 ? "intersection" : "difference"); vp_obs(w); }
  vp_assert(vp_heaplive() == live, "nothing stays allocated");
}
