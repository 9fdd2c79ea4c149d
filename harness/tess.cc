// The Boost tessellator end to end: Voronoi cells of the generators inside a boundary
#include "util.hh"
#include "polytope.hh"
#include "BoostTessellator.hh"
#include "makeBoxPLC.hh"
using namespace polytope;
#ifndef VPN
#define VPN 2
#endif
#ifndef VPL
#define VPL 1
#endif
#ifndef VPH
#define VPH 3
#endif
#ifndef VPC
#define VPC 0
#endif
#ifndef VPT
#define VPT 1
#endif
#ifndef VPS
#define VPS 0
#endif
typedef std::vector<double> V;
static double ad(double x) { return x < 0 ? -x : x; }
#ifndef VPG
#define VPG (VPS == 1)
#endif
static const double GEN[2][4][2] = {{{3.25, 2.5}, {6.5, 6.25}, {1.5, 6.75}, {7.5, 0.75}}, {{3.25, 2.5}, {6.5, 3.25}, {1.5, 6.75}, {7.5, 0.75}}};
static const double TOL = 1e-5;
// shapes: a box, an L, a tilted quadrilateral, a box with a square hole
static void shape(int s, V& p, PLC<2, double>& plc, double& area) {
  auto loop = [&](int a, int n) { std::vector<std::vector<int> > f; for (int i = 0; i < n; ++i) f.push_back({a + i, a + (i + 1) % n}); return f; };
  switch (s) {
  case 0: p = V{0,0, 8,0, 8,8, 0,8}; plc.facets = loop(0, 4); area = 64; return;
  case 1: p = V{0,0, 8,0, 8,4, 4,4, 4,8, 0,8}; plc.facets = loop(0, 6); area = 48; return;
  case 2: p = V{1,-1, 9,2, 6,9, -1,6}; plc.facets = loop(0, 4); area = 0; for (int i = 0; i < 4; ++i) area += 0.5 * (p[2*i] * p[2*((i+1)%4)+1] - p[2*i+1] * p[2*((i+1)%4)]); return;
  default: p = V{0,0, 8,0, 8,8, 0,8, 3,3, 3,5, 5,5, 5,3}; plc.facets = loop(0, 4); plc.holes.push_back(loop(4, 4)); area = 60; return;
  }
}
// strictly inside the shape
static bool inRegion(int s, const double* x) {
  if (s == 2) { V p; PLC<2, double> q; double a; shape(2, p, q, a); bool r = true; for (int i = 0; i < 4; ++i) { const double* u = &p[2*i]; const double* v = &p[2*((i+1)%4)]; r &= (v[0]-u[0])*(x[1]-u[1]) - (v[1]-u[1])*(x[0]-u[0]) > 0; } return r; }
  const bool box = x[0] > 0 && x[0] < 8 && x[1] > 0 && x[1] < 8;
  return s == 1 ? box & !(x[0] >= 4 && x[1] >= 4) : s == 3 ? box & !(x[0] >= 3 && x[0] <= 5 && x[1] >= 3 && x[1] <= 5) : box;
}
static double segDist2(double x, double y, const double* a, const double* b) { const double ux = b[0]-a[0], uy = b[1]-a[1]; double t = ((x-a[0])*ux + (y-a[1])*uy) / (ux*ux + uy*uy); t = t < 0 ? 0 : t > 1 ? 1 : t; const double dx = x - a[0] - t*ux, dy = y - a[1] - t*uy; return dx*dx + dy*dy; }
// the mesh is a partition of the region of the given area into one cell per generator; convex region: each cell the Voronoi cell
static void check(const V& g, const Tessellation<2, double>& m, const V& pp, const PLC<2, double>& plc, double area, bool voronoi) {
  const int n = g.size() / 2, nf = m.faces.size(), nn = m.nodes.size() / 2; vp_assert((int)m.cells.size() == n, "one cell per generator"); vp_assert((int)m.faceCells.size() == nf, "cells of every face");
  std::vector<std::vector<int> > fc(nf); double sum = 0;
  for (int i = 0; i < n; ++i) {
    const int k = m.cells[i].size(); vp_assert(k >= 3, "cells have three faces"); double A = 0; bool near = true, inside = true;
    for (int j = 0; j < k; ++j) {
      const int c = m.cells[i][j], f = c < 0 ? ~c : c, c2 = m.cells[i][(j+1)%k], f2 = c2 < 0 ? ~c2 : c2; vp_assert(f < nf && f2 < nf && m.faces[f].size() == 2 && m.faces[f2].size() == 2, "faces of two nodes"); fc[f].push_back(c < 0 ? ~i : i);
      const int a = m.faces[f][c < 0], b = m.faces[f][c >= 0]; vp_assert(a < nn && b < nn && a != b, "faces join two nodes"); vp_assert(b == (int)m.faces[f2][c2 < 0], "the faces of a cell form a loop");
      const double ax = m.nodes[2*a], ay = m.nodes[2*a+1], bx = m.nodes[2*b], by = m.nodes[2*b+1]; A += 0.5 * (ax * by - bx * ay);
      if (voronoi) { inside &= (bx-ax)*(g[2*i+1]-ay) - (by-ay)*(g[2*i]-ax) > -TOL; const double dx = ax - g[2*i], dy = ay - g[2*i+1], d = dx*dx + dy*dy; for (int o = 0; o < n; ++o) { const double ex = ax - g[2*o], ey = ay - g[2*o+1]; near &= d <= ex*ex + ey*ey + TOL; } }
    }
    vp_assert(A > 0, "cells run counter-clockwise"); vp_assert(inside, "every generator is inside its cell"); vp_assert(near, "every point of a cell is nearest to its generator"); sum += A;
  }
  vp_assert(ad(sum - area) < TOL, "the cells fill the region");
  std::vector<int> bn(nn, 0), bf(nf, 0), used(nn, 0);
  for (int f = 0; f < nf; ++f) { vp_assert(fc[f].size() == 1 || fc[f].size() == 2, "faces have one or two cells"); vp_assert(m.faceCells[f].size() == fc[f].size(), "cells of a face"); for (size_t k = 0; k < fc[f].size(); ++k) { bool ok = false; for (size_t l = 0; l < fc[f].size(); ++l) ok |= m.faceCells[f][l] == fc[f][k]; vp_assert(ok, "the cells of a face are those that use it"); }
    for (int k = 0; k < 2; ++k) used[m.faces[f][k]] = 1; if (fc[f].size() == 1) { bf[f] = 1; bn[m.faces[f][0]] = bn[m.faces[f][1]] = 1; } else vp_assert((fc[f][0] < 0) != (fc[f][1] < 0), "shared faces run opposite ways"); }
  int cf = 0, cn = 0; for (int x : bf) cf += x; for (int x : bn) cn += x;
  vp_assert((int)m.boundaryFaces.size() == cf && (int)m.boundaryNodes.size() == cn, "boundary lists"); for (auto f : m.boundaryFaces) vp_assert((int)f < nf && bf[f], "boundary faces"); for (auto x : m.boundaryNodes) vp_assert((int)x < nn && bn[x], "boundary nodes");
  for (int i = 0; i < nn; ++i) { vp_assert(used[i], "no unused nodes"); if (!bn[i]) continue; bool on = false; auto tst = [&](const std::vector<std::vector<int> >& L) { for (auto& f : L) on |= segDist2(m.nodes[2*i], m.nodes[2*i+1], &pp[2*f[0]], &pp[2*f[1]]) < 1e-18; }; tst(plc.facets); for (auto& h : plc.holes) tst(h); vp_assert(on, "boundary nodes lie on the boundary"); }
  for (size_t k = 0; k < pp.size() / 2; ++k) { bool at = false; for (int i = 0; i < nn; ++i) at |= bn[i] && m.nodes[2*i] == pp[2*k] && m.nodes[2*i+1] == pp[2*k+1]; vp_assert(at, "every boundary point is a node"); }
}
static V gens() { V g; for (int i = 0; i + 1 < VPN; ++i) { g.push_back(GEN[VPG][i][0]); g.push_back(GEN[VPG][i][1]); } const int at = vp_len("at", 0, 1) * (VPN - 1); const double q[2] = {VPT * G("x", VPL / VPT, VPH / VPT, VPC), VPT * G("y", VPL / VPT, VPH / VPT, VPC)}; g.insert(g.begin() + 2 * at, q, q + 2); for (size_t i = 0; i < g.size(); i += 2) for (size_t j = 0; j < i; j += 2) vp_assume(g[i] != g[j] | g[i+1] != g[j+1]); return g; }
extern "C" void h_plc() {
  V p; PLC<2, double> plc; double area; shape(VPS, p, plc, area); const V g = gens(); for (size_t i = 0; i < g.size() / 2; ++i) vp_assume(inRegion(VPS, &g[2 * i]));
  Tessellation<2, double> m; BoostTessellator<double> t; t.tessellate(g, p, plc, m); check(g, m, p, plc, area, VPS == 0 || VPS == 2); vp_cover("end"); vp_obs(m.faces.size());
}
extern "C" void h_boxpts() {
  double lo[2] = {0, 0}, hi[2] = {8, 8}; V p; PLC<2, double> plc; double area; shape(0, p, plc, area); const V g = gens();
  Tessellation<2, double> m; BoostTessellator<double> t; t.tessellate(g, lo, hi, m); check(g, m, p, plc, area, true); vp_cover("end"); vp_obs(m.faces.size());
}
// the recorded findings: fragments cut off by a hole among four generators (fixed inputs)
extern "C" void h_orphans1() {
  V p; PLC<2, double> plc; double area; shape(3, p, plc, area); BoostTessellator<double> t; const V g{3.25,2.5, 6.5,6.25, 1.5,6.75, 6.25,6}; Tessellation<2, double> m; t.tessellate(g, p, plc, m); int bad = 0;
  for (auto n : m.boundaryNodes) { bool on = false; auto tst = [&](const std::vector<std::vector<int> >& L) { for (auto& f : L) on |= segDist2(m.nodes[2*n], m.nodes[2*n+1], &p[2*f[0]], &p[2*f[1]]) < 1e-18; }; tst(plc.facets); for (auto& h : plc.holes) tst(h); bad += !on; }
  vp_assert(bad == 0, "orphans by a hole keep the mesh conforming");
}
extern "C" void h_orphans2() {
  V p; PLC<2, double> plc; double area; shape(3, p, plc, area); BoostTessellator<double> t; const V g{3.25,2.5, 6.5,6.25, 1.5,6.75, 3.5,2.25}; Tessellation<2, double> m; t.tessellate(g, p, plc, m); double A = 0;
  for (auto& c : m.cells) for (int f : c) { const int a = m.faces[f < 0 ? ~f : f][f < 0], b = m.faces[f < 0 ? ~f : f][f >= 0]; A += 0.5 * (m.nodes[2*a] * m.nodes[2*b+1] - m.nodes[2*a+1] * m.nodes[2*b]); }
  vp_assert(ad(A - area) < TOL, "orphans of orphans are not lost");
}
