// Point/segment queries against 2D PLCs
#include "util.hh"
#include "polytope.hh"
#include "within.hh"
#include "nearestPoint.hh"
#include "intersect.hh"
using namespace polytope;
#ifndef VPM
#define VPM 1
#define VPS 0
#endif
#ifndef VPA
#define VPA 0
#define VPB 4
#endif
#ifndef VPL
#define VPL 0
#define VPH 8
#define VPT 0
#endif
#ifndef VPR
#define VPR 1
#endif
typedef std::vector<double> VD;
struct Shape { VD v; PLC<2, double> plc; std::vector<std::vector<int> > loops; };
static void addLoop(Shape& s, const int* xy, int n, bool rev, int rot, bool hole) {
  std::vector<int> ids(n); const int base = s.v.size() / 2;
  for (int i = 0; i < n; ++i) { s.v.push_back(xy[2*i]); s.v.push_back(xy[2*i+1]); }
  for (int i = 0; i < n; ++i) ids[i] = base + (rev ? (2*n - i - rot) % n : (i + rot) % n);
  std::vector<std::vector<int> > f; for (int i = 0; i < n; ++i) { std::vector<int> e(2); e[0] = ids[i]; e[1] = ids[(i + 1) % n]; f.push_back(e); }
  if (hole) s.plc.holes.push_back(f); else s.plc.facets = f; s.loops.push_back(ids);
}
static const int QUAD[] = {0,0, 8,2, 6,8, 1,6}, ELL[] = {0,0, 8,0, 8,4, 3,4, 3,8, 0,8}, TRI[] = {0,1, 8,0, 4,8}, HOLE[] = {3,3, 5,3, 5,5, 3,4}, HOLE2[] = {1,1, 2,1, 2,2}, DART[] = {0,0, 8,0, 4,3, 4,8}, BOX[] = {0,0, 8,0, 8,8, 0,8}, BH1[] = {1,1, 3,2, 1,4}, BH2[] = {4,5, 7,3, 6,7};
// mix: facets in no particular order or direction (only a loop test may rely on them)
static void makeShape(Shape& s, bool mix = false) {
  const long k = vp_len("shape", VPA, VPB); const int rot = vp_len("rot", 0, VPR); const bool rev = mix && VPR > 0 ? rot > 0 : vp_conc(vp_bool("rev"));
  if (k == 0) { addLoop(s, QUAD, 4, rev, rot, false); addLoop(s, HOLE, 4, !rev, rot, true); }
  else if (k == 1) { addLoop(s, ELL, 6, rev, rot, false); addLoop(s, HOLE2, 3, rev, 0, true); }
  else if (k == 2) addLoop(s, TRI, 3, rev, rot, false);
  else if (k == 3) addLoop(s, DART, 4, rev, rot, false);
  else { addLoop(s, BH1, 3, rev, rot, false); s.plc.facets.clear(); Shape t; addLoop(t, BOX, 4, rev, rot, false); for (int i = 0; i < 8; ++i) s.v.push_back(t.v[i]); for (size_t i = 0; i < 4; ++i) { std::vector<int> e(t.plc.facets[i]); e[0] += 3; e[1] += 3; s.plc.facets.push_back(e); } s.loops.clear(); for (int i = 0; i < 4; ++i) t.loops[0][i] += 3; s.loops.push_back(t.loops[0]);
    std::vector<int> h1; std::vector<std::vector<int> > f1; for (int i = 0; i < 3; ++i) { h1.push_back(rev ? i : 2 - i); std::vector<int> e(2); e[0] = rev ? i : 2 - i; e[1] = rev ? (i + 1) % 3 : (4 - i) % 3; f1.push_back(e); } s.plc.holes.push_back(f1); s.loops.push_back(h1); addLoop(s, BH2, 3, !rev, rot, true); }
  if (mix && rot) for (size_t l = 0; l <= s.plc.holes.size(); ++l) { std::vector<std::vector<int> >& f = l ? s.plc.holes[l-1] : s.plc.facets; std::swap(f[0], f[2]); std::swap(f[1][0], f[1][1]); }
}
// exact: 2 on the loop, 1 inside, 0 outside
static int side(const Shape& s, const std::vector<int>& ids, double px, double py) {
  bool in = false, on = false; const int n = ids.size();
  for (int i = 0; i < n; ++i) {
    const double ax = s.v[2*ids[i]], ay = s.v[2*ids[i]+1], bx = s.v[2*ids[(i+1)%n]], by = s.v[2*ids[(i+1)%n]+1]; const double c = (bx-ax)*(py-ay) - (by-ay)*(px-ax);
    const bool inx = (std::min(ax,bx) <= px) & (px <= std::max(ax,bx)), iny = (std::min(ay,by) <= py) & (py <= std::max(ay,by));
    on |= (c == 0) & inx & iny; in ^= ((ay > py) != (by > py)) & ((by > ay) ? c > 0 : c < 0);
  }
  return on ? 2 : in ? 1 : 0;
}
extern "C" void h_within() {
  Shape s; makeShape(s); double p[2] = {G("px", -VPM, 8*VPM+VPM, VPS), G("py", -VPM, 8*VPM+VPM, VPS)}; const VD v0(s.v);
  const bool r = within<2, double>(p, s.v.size() / 2, &s.v[0], s.plc);
  bool want = side(s, s.loops[0], p[0], p[1]) > 0; for (size_t h = 1; h < s.loops.size(); ++h) if (side(s, s.loops[h], p[0], p[1]) == 1) want = false;
  vp_assert(r == want, "within is true exactly on the closed outer boundary minus the open holes"); vp_assert(eqv(v0, s.v), "vertices unchanged");
  if (r) vp_cover("in"); else vp_cover("out"); vp_obs(r);
}
static double absd(double x) { return x < 0 ? -x : x; }
extern "C" void h_nearest() {
  Shape s; makeShape(s, true); double p[2] = {G("px", -VPM, 8*VPM+VPM, VPS), G("py", -VPM, 8*VPM+VPM, VPS)}, q[2] = {-99, -99};
  const double d = nearestPoint<2, double>(p, s.v.size() / 2, &s.v[0], s.plc, q); double best = 1e300; bool onb = false;
  for (size_t l = 0; l < s.loops.size(); ++l) { const std::vector<int>& ids = s.loops[l]; const int n = ids.size(); for (int i = 0; i < n; ++i) {
    const double ax = s.v[2*ids[i]], ay = s.v[2*ids[i]+1], ex = s.v[2*ids[(i+1)%n]] - ax, ey = s.v[2*ids[(i+1)%n]+1] - ay, L = ex*ex + ey*ey, t = (p[0]-ax)*ex + (p[1]-ay)*ey; double d2;
    if (t <= 0) d2 = (p[0]-ax)*(p[0]-ax) + (p[1]-ay)*(p[1]-ay); else if (t >= L) d2 = (p[0]-ax-ex)*(p[0]-ax-ex) + (p[1]-ay-ey)*(p[1]-ay-ey); else { const double c = (p[0]-ax)*ey - (p[1]-ay)*ex; d2 = c*c/L; }
    if (d2 < best) best = d2;
    const double c = (q[0]-ax)*ey - (q[1]-ay)*ex; onb |= (absd(c) < 1e-9) && (std::min(ax, ax+ex) - 1e-9 <= q[0]) && (q[0] <= std::max(ax, ax+ex) + 1e-9) && (std::min(ay, ay+ey) - 1e-9 <= q[1]) && (q[1] <= std::max(ay, ay+ey) + 1e-9);
  } }
  vp_assert(absd(d*d - best) < 1e-9, "returned distance is the distance to the boundary"); vp_assert(onb, "returned point lies on a facet or hole facet"); const double dx = q[0]-p[0], dy = q[1]-p[1]; vp_assert(absd(dx*dx + dy*dy - best) < 1e-9, "returned point is at that distance"); vp_cover("end");
  vp_obs(d < 1e-9);
}
extern "C" void h_intersect() {
  Shape s; makeShape(s, true); double a[2] = {G("ax", VPL, VPH, VPT), G("ay", VPL, VPH, VPT)}, b[2] = {G("bx", VPL, VPH, VPT), G("by", VPL, VPH, VPT)}; VD out(3, 7.0);
  const unsigned n = intersect<2, double>(a, b, s.v.size() / 2, &s.v[0], s.plc, out);
  vp_assert(out.size() == 3 + 2 * n, "count is the number of points appended"); vp_assert(out[0] == 7 && out[1] == 7 && out[2] == 7, "existing results kept");
  unsigned proper = 0, touch = 0;
  for (size_t l = 0; l < s.loops.size(); ++l) { const std::vector<int>& ids = s.loops[l]; const int m = ids.size(); for (int i = 0; i < m; ++i) {
    const double cx = s.v[2*ids[i]], cy = s.v[2*ids[i]+1], dx = s.v[2*ids[(i+1)%m]], dy = s.v[2*ids[(i+1)%m]+1];
    const double o1 = (b[0]-a[0])*(cy-a[1]) - (b[1]-a[1])*(cx-a[0]), o2 = (b[0]-a[0])*(dy-a[1]) - (b[1]-a[1])*(dx-a[0]), o3 = (dx-cx)*(a[1]-cy) - (dy-cy)*(a[0]-cx), o4 = (dx-cx)*(b[1]-cy) - (dy-cy)*(b[0]-cx);
    const bool par = (b[0]-a[0])*(dy-cy) - (b[1]-a[1])*(dx-cx) == 0; bool hit = false;
    if (!par && ((o1 >= 0) != (o2 > 0) || o1 == 0 || o2 == 0) && ((o1 <= 0 && o2 >= 0) || (o1 >= 0 && o2 <= 0)) && ((o3 <= 0 && o4 >= 0) || (o3 >= 0 && o4 <= 0))) hit = true;
    if (hit) { ++touch; if (o1 != 0 && o2 != 0) ++proper; bool found = false; for (unsigned k = 0; k < n; ++k) { const double x = out[3+2*k], y = out[4+2*k], c = (dx-cx)*(y-cy) - (dy-cy)*(x-cx), e = (b[0]-a[0])*(y-a[1]) - (b[1]-a[1])*(x-a[0]); if (absd(c) < 1e-6 && absd(e) < 1e-6) found = true; } vp_assert(found, "every facet the segment meets has its intersection reported"); }
  } }
  vp_assert(n <= touch, "no more intersections than facets met"); vp_assert(n >= proper, "every crossing away from vertices reported separately");
  for (unsigned k = 0; k < n; ++k) for (unsigned j = 0; j < k; ++j) if (s.loops.size() == 1) vp_assert(out[3+2*k] != out[3+2*j] || out[4+2*k] != out[4+2*j], "no intersection reported twice");
  if (n) vp_cover("hit"); else vp_cover("miss"); vp_obs(n);
}
