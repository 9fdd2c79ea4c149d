// Distributed tessellators over an MPI model: per-rank meshes and their shared nodes and faces
#include "util.hh"
#include "mpim.h"
#include "polytope.hh"
#include "DistributedTessellator.hh"
#include "SerialDistributedTessellator.hh"
using namespace polytope;
#ifndef VPN
#define VPN 3
#endif
#ifndef VPR
#define VPR 2
#endif
#ifndef VPX
#define VPX 7
#endif
#ifndef VPC
#define VPC 0
#endif
typedef std::vector<double> V;
typedef Tessellation<2, double> M2;
static const double BIG = 4096;
// Serial tessellator for generators on a horizontal line: the Voronoi cells are vertical strips of the box.
// Nodes, faces and cell orientations are numbered differently on every rank.
struct Strips : public Tessellator<2, double> {
  int flip; Strips(int f): flip(f) {}
  void strips(const V& p, double x0, double y0, double x1, double y1, M2& m) const {
    const int n = p.size() / 2; std::vector<int> o; for (int i = 0; i < n; ++i) { int k = o.size(); while (k > 0 && p[2 * o[k-1]] > p[2 * i]) --k; o.insert(o.begin() + k, i); }
    m.nodes.resize(4 * (n + 1)); m.faces.resize(3 * n + 1); m.faceCells.resize(3 * n + 1); m.cells.resize(n);
    auto N = [&](int k, int t) { const int id = 2 * k + t; return flip & 1 ? 2 * n + 1 - id : id; };
    auto F = [&](int id) { return flip & 1 ? 3 * n - id : id; };           // k: side k; n+1+2j: bottom of strip j; n+2+2j: top
    for (int k = 0; k <= n; ++k) { const double x = k == 0 ? x0 : k == n ? x1 : 0.5 * (p[2 * o[k-1]] + p[2 * o[k]]); for (int t = 0; t < 2; ++t) { m.nodes[2 * N(k, t)] = x; m.nodes[2 * N(k, t) + 1] = t ? y1 : y0; } m.faces[F(k)] = flip & 2 ? std::vector<unsigned>{(unsigned)N(k, 1), (unsigned)N(k, 0)} : std::vector<unsigned>{(unsigned)N(k, 0), (unsigned)N(k, 1)}; }
    for (int j = 0; j < n; ++j) {
      m.faces[F(n + 1 + 2 * j)] = {(unsigned)N(j, 0), (unsigned)N(j + 1, 0)}; m.faces[F(n + 2 + 2 * j)] = {(unsigned)N(j + 1, 1), (unsigned)N(j, 1)};
      auto add = [&](int f, bool fwd) { m.cells[o[j]].push_back(fwd ? f : ~f); m.faceCells[f].push_back(fwd ? o[j] : ~o[j]); };
      add(F(n + 1 + 2 * j), true); add(F(j + 1), !(flip & 2)); add(F(n + 2 + 2 * j), true); add(F(j), (flip & 2) != 0);
    }
    for (int f = 0; f <= 3 * n; ++f) if (m.faceCells[f].size() == 1) m.boundaryFaces.push_back(f);
    for (int i = 0; i < 2 * (n + 1); ++i) m.boundaryNodes.push_back(i);
  }
  void tessellate(const V& p, M2& m) const { strips(p, -BIG, -BIG, BIG, BIG, m); }
  void tessellate(const V& p, double* lo, double* hi, M2& m) const { strips(p, lo[0], lo[1], hi[0], hi[1], m); }
  void tessellate(const V& p, const V& q, const PLC<2, double>& g, M2& m) const { double a = q[0], b = q[1], c = a, d = b; for (auto& f : g.facets) for (int i : f) { a = std::min(a, q[2*i]); c = std::max(c, q[2*i]); b = std::min(b, q[2*i+1]); d = std::max(d, q[2*i+1]); } strips(p, a, b, c, d, m); }
  void tessellate(const V& p, const ReducedPLC<2, double>& g, M2& m) const { tessellate(p, g.points, g, m); }
  void tessellateQuantized(QuantizedTessellation&) const {}
  std::string name() const { return "strips"; }
  double degeneracy() const { return 1.0 / (1 << 28); }
};
static V gp[VPR]; static M2 gm[VPR]; static int gMode, gSerial, gFlip, gInfo; static double gLo[2], gHi[2]; static ReducedPLC<2, double> gP;
template <class T> static void go(T& t, int r) { if (gMode == 0) t.tessellate(gp[r], gm[r]); else if (gMode == 1) t.tessellate(gp[r], gLo, gHi, gm[r]); else if (gMode == 2) t.tessellate(gp[r], gP.points, gP, gm[r]); else t.tessellate(gp[r], gP, gm[r]); }
static void run(void* a) { const int r = (long)a; Strips* s = new Strips(gSerial ? gFlip : r ^ gFlip); if (gSerial) { SerialDistributedTessellator<2, double> t(s, true, true); go(t, r); } else { DistributedTessellator<2, double> t(s, true, gInfo); go(t, r); } }
static void dist(int serial) {
  mpim_init(VPR, vp_bool("eager")); gSerial = serial; gInfo = serial || !vp_bool("noinfo"); gMode = vp_len("mode", 0, 3); gFlip = vp_len("flip", 0, 2); gP.clear();
  const double W = VPX + 1, sc = (double)(1 << (VPC)); gLo[0] = -sc; gLo[1] = -2 * sc; gHi[0] = W * sc; gHi[1] = 2 * sc; gP.points = V{gLo[0], gLo[1], gHi[0], gLo[1], gHi[0], gHi[1], gLo[0], gHi[1]}; gP.facets = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
  const double x0 = gMode ? gLo[0] : -BIG, x1 = gMode ? gHi[0] : BIG, y0 = gMode ? gLo[1] : -BIG, y1 = gMode ? gHi[1] : BIG;
  V all; int own[VPN], left = VPN, at = 0; for (int r = 0; r < VPR; ++r) { gp[r].clear(); gm[r].clear(); const int k = r == VPR - 1 ? left : (int)vp_len("share", serial ? 0 : 1, left - (serial ? 0 : VPR - 1 - r)); for (int j = 0; j < k; ++j) { own[at++] = r; const double x = sc * G("x", 0, VPX); for (size_t i = 0; i < all.size(); ++i) vp_assume(all[i] != x); all.push_back(x); gp[r].push_back(x); gp[r].push_back(0); } left -= k; }
  for (int r = 0; r < VPR; ++r) vp_thread(run, (void*)(long)r); while (vp_alive() > 0) vp_yield(); mpim_finish();
  // the global mesh: order of the generators, cell walls
  std::vector<int> o; for (int i = 0; i < VPN; ++i) { int k = o.size(); while (k > 0 && all[o[k-1]] > all[i]) --k; o.insert(o.begin() + k, i); } V wall; for (int k = 0; k <= VPN; ++k) wall.push_back(k == 0 ? x0 : k == VPN ? x1 : 0.5 * (all[o[k-1]] + all[o[k]]));
  at = 0;
  for (int r = 0; r < VPR; ++r) {
    const M2& m = gm[r]; const int n = gp[r].size() / 2; vp_assert((int)m.cells.size() == n, "each rank keeps exactly its own cells"); std::set<unsigned> used, usedF;
    for (int i = 0; i < n; ++i, ++at) { int k = 0; while (o[k] != at) ++k; vp_assert(m.cells[i].size() == 4, "cells are whole"); int hit = 0; for (int c : m.cells[i]) { const unsigned f = c < 0 ? ~c : c; vp_assert(f < m.faces.size() && m.faces[f].size() == 2, "faces of a cell exist"); usedF.insert(f); for (unsigned q : m.faces[f]) { vp_assert(q < m.nodes.size() / 2, "nodes of a face exist"); used.insert(q); const double x = m.nodes[2*q], y = m.nodes[2*q+1]; vp_assert((x == wall[k] | x == wall[k+1]) & (y == y0 | y == y1), "cells are those of the global tessellation"); hit |= 1 << ((x == wall[k+1] ? 2 : 0) + (y == y1 ? 1 : 0)); } } vp_assert(hit == 15, "all corners of a cell"); }
    vp_assert(used.size() * 2 == m.nodes.size() && usedF.size() == m.faces.size(), "no leftover nodes or faces"); vp_assert(m.sharedNodes.size() == m.neighborDomains.size() && m.sharedFaces.size() == m.neighborDomains.size(), "lists per neighbor");
    if (!gInfo) { vp_assert(m.neighborDomains.empty() && m.sharedNodes.empty() && m.sharedFaces.empty(), "no communication info unless requested"); continue; }
    // expected neighbors and shared elements
    for (int s = 0, j = 0; s < VPR; ++s) { if (s == r) continue; std::vector<int> w; for (int k = 1; k < VPN; ++k) if ((own[o[k-1]] == r && own[o[k]] == s) || (own[o[k-1]] == s && own[o[k]] == r)) w.push_back(k);
      int sn = 0; for (int k = 0; k <= VPN; ++k) { bool a = false, b = false; for (int d = k - 1; d <= k; ++d) if (d >= 0 && d < VPN) { a |= own[o[d]] == r; b |= own[o[d]] == s; } sn += a && b; }
      const bool nb = j < (int)m.neighborDomains.size() && (int)m.neighborDomains[j] == s; vp_assert(nb == !w.empty(), "neighbor domains are exactly those sharing an element, in order"); if (!nb) continue;
      vp_assert((int)m.sharedFaces[j].size() == (int)w.size() && (int)m.sharedNodes[j].size() == 2 * sn, "every shared node and face is listed once");
      const M2& m2 = gm[s]; int j2 = -1; for (size_t k = 0; k < m2.neighborDomains.size(); ++k) if ((int)m2.neighborDomains[k] == r) j2 = k; vp_assert(j2 >= 0, "neighbors agree"); vp_assert(m2.sharedNodes[j2].size() == m.sharedNodes[j].size() && m2.sharedFaces[j2].size() == m.sharedFaces[j].size(), "neighbors agree on the number of shared elements");
      std::set<unsigned> u(m.sharedNodes[j].begin(), m.sharedNodes[j].end()), v(m.sharedFaces[j].begin(), m.sharedFaces[j].end()); vp_assert(u.size() == m.sharedNodes[j].size() && v.size() == m.sharedFaces[j].size(), "shared elements are listed once");
      for (size_t k = 0; k < m.sharedNodes[j].size(); ++k) { const unsigned a = m.sharedNodes[j][k], b = m2.sharedNodes[j2][k]; vp_assert(a < m.nodes.size() / 2 && b < m2.nodes.size() / 2, "shared nodes exist"); vp_assert((m.nodes[2*a] == m2.nodes[2*b]) & (m.nodes[2*a+1] == m2.nodes[2*b+1]), "shared nodes are the same points in the same order"); }
      for (size_t k = 0; k < m.sharedFaces[j].size(); ++k) { const unsigned a = m.sharedFaces[j][k], b = m2.sharedFaces[j2][k]; vp_assert(a < m.faces.size() && b < m2.faces.size(), "shared faces exist"); double sa[2] = {0, 0}, sb[2] = {0, 0}; for (int e = 0; e < 2; ++e) for (int d = 0; d < 2; ++d) { sa[d] += m.nodes[2 * m.faces[a][e] + d]; sb[d] += m2.nodes[2 * m2.faces[b][e] + d]; } bool in = false; for (int q : w) in |= sa[0] == 2 * wall[q]; vp_assert(in & (sa[0] == sb[0]) & (sa[1] == sb[1]), "shared faces are the same faces in the same order"); }
      ++j; }
    int nd = 0; for (unsigned q : m.neighborDomains) { vp_assert((int)q < VPR && (int)q != r, "neighbors are other ranks"); ++nd; }
  }
  vp_cover("end");
}
extern "C" void h_dist() { dist(0); }
extern "C" void h_serial() { dist(1); }
