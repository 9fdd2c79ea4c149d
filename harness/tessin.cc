// What the tessellator's entry points hand to the tessellation proper; snapping nodes to the boundary; error reports
#include "util.hh"
#include "polytope.hh"
#include "snapToBoundary.hh"
#include "ErrorHandler.hh"
using namespace polytope;
#ifndef VPN
#define VPN 3
#endif
#ifndef VPL
#define VPL 3
#endif
#ifndef VPS
#define VPS 6
#endif
#ifndef VPK
#define VPK 1
#endif
typedef std::vector<double> V;
struct Spy : public Tessellator<2, double> {
  mutable int calls = 0, kind = -1; mutable V pts, bpts; mutable std::vector<std::vector<int> > fac; mutable size_t holes = 0; mutable const void* mesh = 0;
  using Tessellator<2, double>::tessellate;
  void tessellate(const V& p, Tessellation<2, double>& m) const { ++calls; kind = 0; pts = p; mesh = &m; }
  void tessellate(const V& p, const V& q, const PLC<2, double>& g, Tessellation<2, double>& m) const { ++calls; kind = 1; pts = p; bpts = q; fac = g.facets; holes = g.holes.size(); mesh = &m; }
  void tessellateQuantized(QuantizedTessellation&) const { vp_assert(0, "no tessellation of its own"); }
  std::string name() const { return "spy"; }
  double degeneracy() const { return 1e-9; }
};
static bool boxed(const Spy& s, const double* lo, const double* hi) {   // one counter-clockwise loop through the four corners
  if (s.bpts.size() != 8 || s.fac.size() != 4 || s.holes) return false; const double cx[4] = {lo[0], hi[0], hi[0], lo[0]}, cy[4] = {lo[1], lo[1], hi[1], hi[1]}; int at[4]; bool ok = true;
  for (int i = 0; i < 4; ++i) { if (s.fac[i].size() != 2) return false; const int a = s.fac[i][0], b = s.fac[i][1]; if (a < 0 || a > 3 || b < 0 || b > 3) return false; int k = -1; for (int c = 0; c < 4; ++c) if (sameBits(s.bpts[2*a], cx[c]) & sameBits(s.bpts[2*a+1], cy[c])) k = c; if (k < 0) return false; at[i] = k; ok &= sameBits(s.bpts[2*b], cx[(k+1)%4]) & sameBits(s.bpts[2*b+1], cy[(k+1)%4]); }
  return ok && ((1 << at[0]) | (1 << at[1]) | (1 << at[2]) | (1 << at[3])) == 15;
}
// a box, a PLC and a reduced PLC all reach the tessellation unchanged
extern "C" void h_entry() {
  Spy s; Tessellation<2, double> m; V p; for (long i = 0, n = vp_len("n", 1, VPN); i < 2 * n; ++i) p.push_back(vp_anydouble("p"));
  const int mode = vp_len("mode", 0, 1); const Tessellator<2, double>& t = s;
  if (mode == 0) { double lo[2], hi[2]; for (int d = 0; d < 2; ++d) { lo[d] = G("lo", -4, 4); hi[d] = G("hi", -4, 4); vp_assume(lo[d] < hi[d]); } t.tessellate(p, lo, hi, m); vp_assert(s.calls == 1 && s.kind == 1 && boxed(s, lo, hi), "a box becomes its counter-clockwise outline"); }
  else { ReducedPLC<2, double> g; for (int i = 0; i < 8; ++i) g.points.push_back(vp_anydouble("q")); g.facets = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; if (vp_bool("hole")) g.holes.push_back({{0, 1}, {1, 2}, {2, 0}}); t.tessellate(p, g, m); vp_assert(s.calls == 1 && s.kind == 1 && eqv(s.fac, g.facets) && s.holes == g.holes.size() && s.bpts.size() == 8, "a reduced PLC reaches the tessellation"); for (int i = 0; i < 8; ++i) vp_assert(sameBits(s.bpts[i], g.points[i]), "with its points"); }
  vp_assert(s.mesh == &m && s.pts.size() == p.size(), "all generators reach the tessellation"); for (size_t i = 0; i < p.size(); ++i) vp_assert(sameBits(s.pts[i], p[i]), "unchanged"); vp_cover("end");
}
// degenerate generators: each input is mapped to a generator within the tolerance
extern "C" void h_degen() {
  Spy s; Tessellation<2, double> m; const int mode = vp_len("mode", 0, 3); const double tol = 0.5; V p{0.25, 6.25}; const bool first = vp_bool("last");
  V f; for (int i = 0; i < VPN - 1; ++i) { f.push_back(G("x", 0, VPL) + 0.25); f.push_back(6.25 + 0.5 * G("y", 0, 1)); } if (first) p.insert(p.end(), f.begin(), f.end()); else p.insert(p.begin(), f.begin(), f.end()); const int n = p.size() / 2;
  double lo[2] = {0, 0}, hi[2] = {8, 8}; ReducedPLC<2, double> g; g.points = V{0, 0, 8, 0, 8, 8, 0, 8}; g.facets = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; const Tessellator<2, double>& t = s; std::vector<unsigned> r;
  if (mode == 0) r = t.tessellateDegenerate(p, tol, m); else if (mode == 1) r = t.tessellateDegenerate(p, lo, hi, tol, m); else if (mode == 2) r = t.tessellateDegenerate(p, g.points, g, tol, m); else r = t.tessellateDegenerate(p, g, tol, m);
  vp_assert(s.calls == 1 && s.mesh == &m && s.kind == (mode > 0), "tessellated once"); if (mode) vp_assert(boxed(s, lo, hi), "in the same boundary"); const int u = s.pts.size() / 2; vp_assert((int)r.size() == n && u <= n && u > 0, "one cell number per input generator");
  std::vector<int> hit(u, 0);
  for (int i = 0; i < n; ++i) { vp_assert((int)r[i] < u, "cell exists"); hit[r[i]] = 1; const double dx = p[2*i] - s.pts[2*r[i]], dy = p[2*i+1] - s.pts[2*r[i]+1]; vp_assert((dx <= tol) & (dx >= -tol) & (dy <= tol) & (dy >= -tol), "the cell's generator is within the tolerance"); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if ((p[2*i] == p[2*j]) & (p[2*i+1] == p[2*j+1])) vp_assert(r[i] == r[j], "equal generators share a cell"); else if ((p[2*i] != p[2*j]) | (p[2*i+1] - p[2*j+1] > tol) | (p[2*j+1] - p[2*i+1] > tol)) vp_assert(r[i] != r[j], "distinct generators get their own cells");
  for (int i = 0; i < u; ++i) { vp_assert(hit[i], "every cell belongs to an input generator"); bool in = false; for (int j = 0; j < n; ++j) in |= (s.pts[2*i] == p[2*j]) & (s.pts[2*i+1] == p[2*j+1]); vp_assert(in, "generators are input points"); for (int j = 0; j < i; ++j) vp_assert((s.pts[2*i] != s.pts[2*j]) | (s.pts[2*i+1] != s.pts[2*j+1]), "tessellated generators are distinct"); }
  vp_cover("end");
}
// snapping: PLC points near a boundary node become that node, other boundary nodes near the boundary move onto it, nothing else moves
extern "C" void h_snap() {
  const double deg = 1.0 / 64, tol = 0.5; const bool hole = vp_bool("hole"); ReducedPLC<2, double> g; g.points = V{0, 0, 8, 0, 8, 8, 0, 8}; g.facets = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; if (hole) { const double h[8] = {3, 3, 3, 5, 5, 5, 5, 3}; g.points.insert(g.points.end(), h, h + 8); g.holes = {{{4, 5}, {5, 6}, {6, 7}, {7, 4}}}; }
  const int np = g.points.size() / 2, rot = vp_len("rot", 0, 2); Tessellation<2, double> m; std::vector<bool> bn; // nodes: the PLC points in some order, slightly off; one mid-side; one inside
  for (int i = 0; i < np; ++i) { const int k = (i + rot) % np; m.nodes.push_back(g.points[2*k] + (k % 2 ? 0.0625 : 0)); m.nodes.push_back(g.points[2*k+1] - (k % 3 ? 0 : 0.0625)); }
  m.nodes.push_back(4); m.nodes.push_back(0.125); m.nodes.push_back(2); m.nodes.push_back(6);
  const int nn = m.nodes.size() / 2, who = vp_len("who", 0, nn - 1), inner = nn - 1; m.nodes[2*who] += G("dx", -VPS, VPS, -3); m.nodes[2*who+1] += G("dy", -VPS, VPS, -3);
  for (int i = nn - 1; i >= 0; --i) if (i != inner || vp_bool("flag")) m.boundaryNodes.push_back(i); m.faces = {{0, 1}, {1, 2}}; m.cells = {{0, ~1}}; m.faceCells = {{0}, {~0}}; m.boundaryFaces = {1};
  const V old = m.nodes; const std::vector<unsigned> ob = m.boundaryNodes; snapToBoundary(m, g.points, g, deg);
  vp_assert(m.nodes.size() == old.size() && eqv(m.boundaryNodes, ob) && m.faces.size() == 2 && m.cells.size() == 1 && m.cells[0][1] == ~1 && m.boundaryFaces.size() == 1, "the mesh itself stays the same");
  auto d2 = [](double x, double y, double u, double v) { return (x-u)*(x-u) + (y-v)*(y-v); };
  auto seg2 = [](double x, double y, double ax, double ay, double bx, double by) { const double ux = bx-ax, uy = by-ay; double t = ((x-ax)*ux + (y-ay)*uy) / (ux*ux + uy*uy); t = t < 0 ? 0 : t > 1 ? 1 : t; const double ex = ax + t*ux - x, ey = ay + t*uy - y; return ex*ex + ey*ey; };
  auto bd2 = [&](double x, double y) { double r = 1e30; auto side = [&](const std::vector<int>& f) { const double q = seg2(x, y, g.points[2*f[0]], g.points[2*f[0]+1], g.points[2*f[1]], g.points[2*f[1]+1]); r = r < q ? r : q; }; for (auto& f : g.facets) side(f); for (auto& h : g.holes) for (auto& f : h) side(f); return r; };
  std::set<int> isb(ob.begin(), ob.end());
  for (int i = 0; i < nn; ++i) { const double x = m.nodes[2*i], y = m.nodes[2*i+1], ox = old[2*i], oy = old[2*i+1]; const bool same = (x == ox) & (y == oy); if (!isb.count(i)) { vp_assert(same, "interior nodes stay"); continue; } const double b = bd2(ox, oy), e = tol*tol;
    if (i == who || i == inner) { if (b > 1.0001 * e) { vp_assert(same, "nodes far from the boundary stay"); continue; } if (b > 0.9999 * e) continue; }
    vp_assert(bd2(x, y) < 1e-18, "boundary nodes end up on the boundary"); vp_assert(d2(x, y, ox, oy) < 1.0001 * e, "no node moves further than the tolerance");
    bool corner = false; for (int k = 0; k < np; ++k) corner |= (x == g.points[2*k]) & (y == g.points[2*k+1]); if (!corner) vp_assert(d2(x, y, ox, oy) < b + 1e-9, "nodes move to the nearest boundary point"); }
  for (int k = 0; k < np; ++k) { bool nearby = false, is = false; for (int i : isb) { nearby |= d2(old[2*i], old[2*i+1], g.points[2*k], g.points[2*k+1]) < 0.9999 * tol * tol; is |= (m.nodes[2*i] == g.points[2*k]) & (m.nodes[2*i+1] == g.points[2*k+1]); } vp_assert(!nearby | is, "a boundary point with a boundary node nearby becomes exactly a node"); }
  vp_cover("end");
}
// error reports
static int gCalls[2], gStatus; static std::string gMsg;
static void hA(const std::string& s, int c) { ++gCalls[0]; gMsg = s; gStatus = c; }
static void hB(const std::string& s, int c) { ++gCalls[1]; gMsg = s; gStatus = c; }
extern "C" void h_error() {
  gCalls[0] = gCalls[1] = 0; int want[2] = {0, 0}, cur = vp_len("first", 0, 1); setErrorHandler(cur ? hB : hA);
  for (int i = 0; i < 3; ++i) { if (vp_bool("switch")) { cur ^= 1; setErrorHandler(cur ? hB : hA); } const int st = vp_int("status", -2147483647, 2147483647); std::string msg(vp_len("len", 0, 2), 'x'); for (char& c : msg) c = (char)vp_int("c", 0, 255); error(msg, st); ++want[cur]; vp_assert(gCalls[0] == want[0] && gCalls[1] == want[1], "the handler set last is called once per error"); vp_assert(gStatus == st && gMsg.size() == msg.size(), "with the status"); for (size_t k = 0; k < msg.size(); ++k) vp_assert(gMsg[k] == msg[k], "and the message"); }
  vp_cover("end");
}
