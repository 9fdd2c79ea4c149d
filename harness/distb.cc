// Distributed tessellators over the Boost tessellator: fixed generators, every assignment of them to ranks
#include "util.hh"
#include "mpim.h"
#include "polytope.hh"
#include "BoostTessellator.hh"
#include "DistributedTessellator.hh"
#include "SerialDistributedTessellator.hh"
using namespace polytope;
#ifndef VPN
#define VPN 6
#endif
#ifndef VPR
#define VPR 2
#endif
#ifndef VPG
#define VPG 0
#endif
#ifndef VPM
#define VPM 1
#endif
#ifndef VPC
#define VPC 1.0
#endif
typedef std::vector<double> V;
typedef Tessellation<2, double> M2;
static const double GEN[3][8][2] = {{{1, 1}, {3, 1}, {5, 1}, {1, 3}, {3, 3}, {5, 3}, {7, 1}, {7, 3}}, {{1.25, 1}, {3.5, 0.75}, {6, 1.5}, {1, 3}, {4, 2.75}, {5.75, 3.5}, {2.5, 2}, {7.25, 2.25}}, {{0.5, 2}, {1.5, 2}, {3, 2}, {4, 2}, {5.5, 2}, {6, 2}, {7, 2}, {7.5, 2}}};
static V gp[VPR]; static M2 gm[VPR]; static int gSerial; static double gLo[2], gHi[2]; static ReducedPLC<2, double> gP;
template <class T> static void go(const T& t, const V& p, M2& m) { if (VPM == 1) t.tessellate(p, gLo, gHi, m); else t.tessellate(p, gP.points, gP, m); }
static void run(void* a) { const int r = (long)a; Tessellator<2, double>* s = new BoostTessellator<double>(); if (gSerial) { SerialDistributedTessellator<2, double> t(s, true, true); go(t, gp[r], gm[r]); } else { DistributedTessellator<2, double> t(s, true, true); go(t, gp[r], gm[r]); } }
static bool close(double a, double b) { return a - b < 1e-5 * VPC && b - a < 1e-5 * VPC; }
static std::set<unsigned> corners(const M2& m, int i) { std::set<unsigned> s; for (int c : m.cells[i]) { const unsigned f = c < 0 ? ~c : c; vp_assert(f < m.faces.size() && m.faces[f].size() == 2, "faces of a cell exist"); for (unsigned q : m.faces[f]) { vp_assert(q < m.nodes.size() / 2, "nodes of a face exist"); s.insert(q); } } return s; }
static void distb(int serial) {
  mpim_init(VPR, vp_bool("eager")); gSerial = serial; gP.clear(); const double C = VPC;
  gLo[0] = 0; gLo[1] = 0; gHi[0] = 8 * C; gHi[1] = 4 * C; gP.points = V{0, 0, 8*C, 0, 8*C, 4*C, 4*C, 4*C, 4*C, 4.5*C, 0, 4.5*C}; gP.facets = {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 0}};
  int own[VPN], cnt[VPR] = {}; for (int i = 0; i < VPN; ++i) { own[i] = vp_len("own", 0, VPR - 1); ++cnt[own[i]]; } if (!serial) for (int r = 0; r < VPR; ++r) vp_assume(cnt[r] > 0);
  std::vector<int> ids[VPR]; V all; for (int r = 0; r < VPR; ++r) { gp[r].clear(); gm[r].clear(); } for (int i = 0; i < VPN; ++i) { for (int d = 0; d < 2; ++d) { const double x = C * GEN[VPG][i][d]; all.push_back(x); gp[own[i]].push_back(x); } ids[own[i]].push_back(i); }
  M2 g; { BoostTessellator<double> t; go(t, all, g); } vp_assert(g.cells.size() == VPN, "one cell per generator");
  for (int r = 0; r < VPR; ++r) vp_thread(run, (void*)(long)r); while (vp_alive() > 0) vp_yield(); mpim_finish();
  std::vector<std::set<unsigned> > nc(g.nodes.size() / 2); for (int i = 0; i < VPN; ++i) for (unsigned q : corners(g, i)) nc[q].insert(own[i]);
  for (int r = 0; r < VPR; ++r) {
    const M2& m = gm[r]; const int n = ids[r].size(); vp_assert((int)m.cells.size() == n, "each rank keeps exactly its own cells"); std::set<unsigned> used;
    for (int i = 0; i < n; ++i) { const std::set<unsigned> a = corners(m, i), b = corners(g, ids[r][i]); used.insert(a.begin(), a.end()); vp_assert(a.size() == b.size(), "cells have the corners of the global tessellation"); for (unsigned q : a) { bool hit = false; for (unsigned w : b) hit |= close(m.nodes[2*q], g.nodes[2*w]) && close(m.nodes[2*q+1], g.nodes[2*w+1]); vp_assert(hit, "cells are those of the global tessellation"); } }
    vp_assert(used.size() * 2 == m.nodes.size(), "no leftover nodes"); vp_assert(m.sharedNodes.size() == m.neighborDomains.size() && m.sharedFaces.size() == m.neighborDomains.size() && m.faceCells.size() == m.faces.size(), "lists per neighbor");
    int j = 0;
    for (int s = 0; s < VPR; ++s) { if (s == r) continue; int sn = 0, sf = 0; for (auto& c : nc) sn += c.count(r) && c.count(s);
      for (auto& c : g.faceCells) if (c.size() == 2) { const int a = own[c[0] < 0 ? ~c[0] : c[0]], b = own[c[1] < 0 ? ~c[1] : c[1]]; sf += (a == r && b == s) || (a == s && b == r); }
      const bool nb = j < (int)m.neighborDomains.size() && (int)m.neighborDomains[j] == s; vp_assert(nb == (sn + sf > 0), "neighbor domains are exactly those sharing an element, in order"); if (!nb) continue;
      vp_assert((int)m.sharedNodes[j].size() == sn && (int)m.sharedFaces[j].size() == sf, "every shared node and face is listed once");
      const M2& o = gm[s]; int k = -1; for (size_t q = 0; q < o.neighborDomains.size(); ++q) if ((int)o.neighborDomains[q] == r) k = q; vp_assert(k >= 0 && o.sharedNodes[k].size() == m.sharedNodes[j].size() && o.sharedFaces[k].size() == m.sharedFaces[j].size(), "neighbors agree");
      vp_assert(std::set<unsigned>(m.sharedNodes[j].begin(), m.sharedNodes[j].end()).size() == m.sharedNodes[j].size() && std::set<unsigned>(m.sharedFaces[j].begin(), m.sharedFaces[j].end()).size() == m.sharedFaces[j].size(), "shared elements are listed once");
      for (int q = 0; q < sn; ++q) { const unsigned a = m.sharedNodes[j][q], b = o.sharedNodes[k][q]; vp_assert(a < m.nodes.size() / 2 && b < o.nodes.size() / 2, "shared nodes exist"); vp_assert(m.nodes[2*a] == o.nodes[2*b] && m.nodes[2*a+1] == o.nodes[2*b+1], "shared nodes are the same points in the same order"); }
      for (int q = 0; q < sf; ++q) { const unsigned a = m.sharedFaces[j][q], b = o.sharedFaces[k][q]; vp_assert(a < m.faces.size() && b < o.faces.size() && m.faces[a].size() == 2 && o.faces[b].size() == 2, "shared faces exist"); vp_assert(m.faceCells[a].size() == 1 && o.faceCells[b].size() == 1, "a shared face has one local cell"); for (int d = 0; d < 2; ++d) vp_assert(m.nodes[2*m.faces[a][0]+d] + m.nodes[2*m.faces[a][1]+d] == o.nodes[2*o.faces[b][0]+d] + o.nodes[2*o.faces[b][1]+d], "shared faces are the same faces in the same order"); }
      ++j; }
    vp_assert(j == (int)m.neighborDomains.size(), "no other neighbors");
  }
  vp_cover("end");
}
extern "C" void h_bdist() { distb(0); }
extern "C" void h_bserial() { distb(1); }
