// Boolean operations on PLCs through Boost.Geometry
#include "util.hh"
#include "polytope.hh"
#include "polytope_tessellator_utilities.hh"
#include "PLC_Boost_2d.hh"
using namespace polytope;
#ifndef VPR
#define VPR 2
#endif
#ifndef VPT
#define VPT double
#endif
typedef VPT R;
typedef ReducedPLC<2, R> P2;
static void ring(P2& r, const R (*p)[2], int n, R dx, R dy, bool hole, bool rev) {
  const int o = r.points.size() / 2; std::vector<std::vector<int> > fs; for (int i = 0; i < n; ++i) { const int k = rev ? n - 1 - i : i; r.points.push_back(p[k][0] + dx); r.points.push_back(p[k][1] + dy); std::vector<int> f; f.push_back(o + i); f.push_back(o + (i + 1) % n); fs.push_back(f); }
  if (hole) r.holes.push_back(fs); else r.facets = fs;
}
static int wind(const P2& s, const std::vector<std::vector<int> >& fs, R x4, R y4) {
  int w = 0; for (size_t i = 0; i < fs.size(); ++i) { vp_assert(fs[i].size() == 2 && fs[i][0] >= 0 && fs[i][1] >= 0 && 2*fs[i][0] < (int)s.points.size() && 2*fs[i][1] < (int)s.points.size(), "facets join two existing points"); const int a = fs[i][0], b = fs[i][1]; const R ax = 4*s.points[2*a] - x4, ay = 4*s.points[2*a+1] - y4, bx = 4*s.points[2*b] - x4, by = 4*s.points[2*b+1] - y4, c = ax*by - ay*bx;
    w += (ay < 0 & by > 0 & c > 0) ? 1 : 0; w -= (ay > 0 & by < 0 & c < 0) ? 1 : 0; } return w;
}
static int inside(const P2& s, R x4, R y4) { int w = wind(s, s.facets, x4, y4) != 0; for (size_t h = 0; h < s.holes.size(); ++h) w &= wind(s, s.holes[h], x4, y4) == 0; return w; }
static void chain(const std::vector<std::vector<int> >& f) { vp_assert(f.size() >= 3, "a loop has at least three facets"); for (size_t i = 0; i < f.size(); ++i) vp_assert(f[i][0] != f[i][1] && f[i][1] == f[(i + 1) % f.size()][0], "facets follow each other round the loop"); }
static const R BOX[4][2] = {{0,0},{4,0},{4,4},{0,4}}, ELL[6][2] = {{0,0},{5,0},{5,2},{2,2},{2,5},{0,5}}, SQ[4][2] = {{0,0},{2,0},{2,3},{0,3}}, DIA[4][2] = {{2,0},{4,2},{2,4},{0,2}}, OUT[4][2] = {{0,0},{6,0},{6,6},{0,6}}, HOLE[4][2] = {{1.375,1.5},{4.625,1.5},{4.625,4.875},{1.375,4.875}};   // the other shape never touches the hole in a single point, which Boost.Geometry does not get right
static P2 shape(int k, R dx, R dy, bool rev) { P2 r; switch (k) { case 0: ring(r, BOX, 4, dx, dy, false, rev); break; case 1: ring(r, ELL, 6, dx, dy, false, rev); break; case 2: ring(r, OUT, 4, dx, dy, false, rev); ring(r, HOLE, 4, dx, dy, true, !rev); break; case 3: ring(r, SQ, 4, dx, dy, false, rev); break; default: ring(r, DIA, 4, dx, dy, false, rev); } return r; }
extern "C" void h_bg() {
  const int ka = vp_len("a", 0, VPA), kb = vp_len("b", 3, VPS), op = vp_len("op", 0, 3); const bool rev = vp_conc(vp_bool("clockwise"));
  const R dx = (R)vp_len("dx", -2, VPR), dy = (R)vp_len("dy", -2, VPR); const P2 a = shape(ka, 0, 0, rev), b = shape(kb, dx, dy, rev); std::vector<P2> r;
  if (op == 3) { std::vector<P2> in; in.push_back(a); in.push_back(b); r = BG::boost_unionReduce(in); } else r = op == 0 ? BG::boost_union(a, b) : op == 1 ? BG::boost_intersect(a, b) : BG::boost_subtract(a, b);
  const R x4 = (R)(4 * vp_int("qx", -3, 9) + 2), y4 = (R)(4 * vp_int("qy", -3, 9) + 1); const int wa = inside(a, x4, y4), wb = inside(b, x4, y4);
  int w = 0; for (size_t i = 0; i < r.size(); ++i) { w += inside(r[i], x4, y4); chain(r[i].facets); for (size_t h = 0; h < r[i].holes.size(); ++h) { chain(r[i].holes[h]); vp_cover("hole"); } }
  const int want = op == 1 ? (wa & wb) : op == 2 ? (wa & !wb) : (wa | wb);
  vp_assert(w == want, op == 1 ? "a point is in one piece of the intersection exactly when it is in both" : op == 2 ? "a point is in one piece of the difference exactly when it is in the first only" : "a point is in one piece of the union exactly when it is in either");
  vp_cover("end"); vp_obs(w);
}
static const R YOU[8][2] = {{0,0},{6,0},{6,6},{4,6},{4,2},{2,2},{2,6},{0,6}}, BAR[4][2] = {{0,0},{8,0},{8,2},{0,2}};
// the piece of the intersection that holds a point, and the other pieces
extern "C" void h_clip() {
  P2 a, b; const bool rev = vp_conc(vp_bool("clockwise")); const R dx = (R)vp_len("dx", -7, 5), dy = (R)vp_len("dy", -1, 5); ring(a, YOU, 8, 0, 0, false, rev); ring(b, BAR, 4, dx, dy, false, rev);
  const R p4x = (R)(4 * vp_len("px", 0, 5) + 2), p4y = (R)(4 * vp_len("py", 0, 5) + 1); vp_assume(inside(a, p4x, p4y) && inside(b, p4x, p4y));
  std::vector<P2> orphans; const P2 r = BG::boost_clip(a, b, Point2<R>(p4x / 4, p4y / 4), orphans);
  chain(r.facets); vp_assert(inside(r, p4x, p4y) == 1, "the piece returned holds the point"); if (!orphans.empty()) vp_cover("orphan"); else vp_cover("single");
  const R x4 = (R)(4 * vp_int("qx", -1, 7) + 2), y4 = (R)(4 * vp_int("qy", -1, 7) + 1); int w = inside(r, x4, y4); for (size_t i = 0; i < orphans.size(); ++i) { chain(orphans[i].facets); w += inside(orphans[i], x4, y4); }
  vp_assert(w == (inside(a, x4, y4) & inside(b, x4, y4)), "the piece and the orphans together are the intersection"); vp_obs(w);
}
extern "C" void h_bwithin() {
  const int k = vp_len("a", 0, 4); const bool rev = vp_conc(vp_bool("clockwise")); const P2 a = shape(k, 0, 0, rev); const R x4 = (R)(4 * vp_int("qx", -1, 7) + 2), y4 = (R)(4 * vp_int("qy", -1, 7) + 1);
  const bool in = BG::boost_within(Point2<R>(x4 / 4, y4 / 4), a); vp_assert(in == (inside(a, x4, y4) != 0), "within tells whether the point is inside"); if (in) vp_cover("in"); else vp_cover("out"); vp_obs(in);
}
extern "C" void h_bcross() {
  const int ka = vp_len("a", 0, 1), kb = vp_len("b", 3, 4); const R dx = (R)vp_len("dx", -6, 7), dy = (R)vp_len("dy", -6, 7); const P2 a = shape(ka, 0, 0, false), b = shape(kb, dx, dy, false); const bool hit = BG::boost_intersects(a, b);
  // shapes are unions of quarter cells: probe the centres of the cells' quarters
  const R x4 = (R)(4 * vp_int("qx", -8, 12) + 2), y4 = (R)(4 * vp_int("qy", -8, 12) + 1); const bool both = inside(a, x4, y4) & inside(b, x4, y4); vp_assert(hit || !both, "shapes that share a point intersect");
  const R bw = kb == 3 ? 2 : 4, bh = kb == 3 ? 3 : 4, aw = ka == 0 ? 4 : 5; if (dx > aw || dy > aw || dx + bw < 0 || dy + bh < 0) { vp_assert(!hit, "shapes apart do not intersect"); vp_cover("apart"); } vp_assert(!BG::boost_intersects(a), "simple shapes do not cross themselves"); if (hit) vp_cover("hit");
}
