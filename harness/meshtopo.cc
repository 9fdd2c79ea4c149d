#include "mesh.hh"
#include "findBoundaryElements.hh"
#include "deleteCells.hh"
#include "MeshEditor.hh"
#include "mpim.h"
#include "QuantizedTessellation2d.hh"
using namespace polytope;
#ifndef VPN
#define VPN 2
#endif
typedef std::vector<double> VD; typedef std::vector<std::vector<double> > VVD;
template <int D> static VVD faceGeom(const Tessellation<D, double>& m, int s) { VVD r; const std::vector<unsigned>& f = m.faces[fid(s)]; for (size_t k = 0; k < f.size(); ++k) r.push_back(xyz(m, f[s < 0 ? f.size() - 1 - k : k])); return r; }
// what a kept cell looks like in space: for each of its faces, in order, the node positions in the cell's own orientation
template <int D> static bool sameCell(const Tessellation<D, double>& a, int ca, const Tessellation<D, double>& b, int cb) { if (a.cells[ca].size() != b.cells[cb].size()) return false; for (size_t k = 0; k < a.cells[ca].size(); ++k) { VVD x = faceGeom(a, a.cells[ca][k]), y = faceGeom(b, b.cells[cb][k]); if (x != y) return false; } return true; }
template <int D> static void tagNodes(Tessellation<D, double>& m) { for (size_t i = 0; i < m.nodes.size() / D; ++i) m.nodes[D * i] = m.nodes[D * i] + 0.0; }
template <int D> static void makeMesh(Tessellation<D, double>& m);
template <> void makeMesh<2>(Tessellation<2, double>& m) { grid2(m, VPN, 2); }
template <> void makeMesh<3>(Tessellation<3, double>& m) { grid3(m, VPN, 2, 1); }
template <int D> static void symbolicMesh(Tessellation<D, double>& m) { makeMesh(m); int inner = -1; for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 2) { inner = f; break; } if (vp_bool("flip0")) flipFace(m, 0); if (vp_bool("flipi")) flipFace(m, inner); if (vp_bool("swapfc")) std::swap(m.faceCells[inner][0], m.faceCells[inner][1]); }
// ---- shared lists: every face/node on the line i==1 plus arbitrary extra, two neighbours
template <int D> static void sharedLists(Tessellation<D, double>& m) {
  m.neighborDomains.push_back(1); m.neighborDomains.push_back(2); m.sharedNodes.resize(2); m.sharedFaces.resize(2);
  unsigned nn = m.nodes.size() / D, nf = m.faces.size();
  for (unsigned k = 0; k < nn; k += 2) m.sharedNodes[0].push_back(nn - 1 - k); for (unsigned k = 0; k < nf; k += 3) m.sharedFaces[0].push_back(k);
  m.sharedNodes[1].push_back(vp_len("sn", 0, nn - 1)); m.sharedFaces[1].push_back(1);
}
template <int D> static void checkDeleted(const Tessellation<D, double>& o, const Tessellation<D, double>& m, const std::vector<unsigned>& keep) {
  checkMesh(m, true); size_t j = 0; std::set<VD> want, got; std::set<VVD> wf, gf;
  for (size_t c = 0; c < o.cells.size(); ++c) if (keep[c]) { vp_assert(j < m.cells.size(), "kept cell still there"); vp_assert(sameCell(o, c, m, j), "kept cell keeps its faces, positions and orientation"); ++j; for (size_t k = 0; k < o.cells[c].size(); ++k) { int f = fid(o.cells[c][k]); wf.insert(faceGeom(o, f)); for (size_t q = 0; q < o.faces[f].size(); ++q) want.insert(xyz(o, o.faces[f][q])); } }
  vp_assert(j == m.cells.size(), "no other cell left");
  for (size_t n = 0; n < m.nodes.size() / D; ++n) got.insert(xyz(m, n));
  for (size_t f = 0; f < m.faces.size(); ++f) gf.insert(faceGeom(m, f));
  vp_assert(got == want && got.size() == m.nodes.size() / D, "nodes left are those of kept cells"); vp_assert(gf == wf && gf.size() == m.faces.size(), "faces left are those of kept cells");
  vp_assert(m.sharedNodes.size() == o.sharedNodes.size() && m.sharedFaces.size() == o.sharedFaces.size(), "neighbour lists kept");
  for (size_t d = 0; d < o.sharedNodes.size(); ++d) {
    VVD a, b; for (size_t k = 0; k < o.sharedNodes[d].size(); ++k) { VD p = xyz(o, o.sharedNodes[d][k]); if (want.count(p)) a.push_back(p); } for (size_t k = 0; k < m.sharedNodes[d].size(); ++k) { vp_assert(m.sharedNodes[d][k] < m.nodes.size() / D, "shared node in range"); b.push_back(xyz(m, m.sharedNodes[d][k])); } vp_assert(a == b, "shared nodes follow the renumbering, in order");
    std::vector<VVD> x, y; for (size_t k = 0; k < o.sharedFaces[d].size(); ++k) { VVD p = faceGeom(o, o.sharedFaces[d][k]); if (wf.count(p)) x.push_back(p); } for (size_t k = 0; k < m.sharedFaces[d].size(); ++k) { vp_assert(m.sharedFaces[d][k] < m.faces.size(), "shared face in range"); y.push_back(faceGeom(m, m.sharedFaces[d][k])); } vp_assert(x == y, "shared faces follow the renumbering, in order");
  }
  checkBoundary(m);
  vp_obs(m.cells.size()); vp_obs(m.faces.size()); vp_obs(m.nodes.size());
}
template <int D> static void del() {
  Tessellation<D, double> o, m; symbolicMesh(o); sharedLists(o); findBoundaryElements(o, o.boundaryFaces, o.boundaryNodes); copyMesh(o, m);
  std::vector<unsigned> mask; unsigned n = 0; for (size_t c = 0; c < o.cells.size(); ++c) { mask.push_back(vp_bool("keep") ? 1 : 0); n += mask.back(); } vp_assume(n > 0);
  polytope::deleteCells(m, mask); checkDeleted(o, m, mask); if (n == o.cells.size()) vp_cover("all kept"); else vp_cover("some deleted");
}
extern "C" void h_del2() { del<2>(); }
extern "C" void h_del3() { del<3>(); }
template <int D> static void edel() {
  Tessellation<D, double> o, m; symbolicMesh(o); sharedLists(o); findBoundaryElements(o, o.boundaryFaces, o.boundaryNodes); copyMesh(o, m);
  std::vector<unsigned> keep, cells; for (size_t c = 0; c < o.cells.size(); ++c) { keep.push_back(vp_bool("keep") ? 1 : 0); if (!keep.back()) cells.push_back(c); } vp_assume(cells.size() > 0 && cells.size() < o.cells.size());
  if (vp_bool("rev")) std::reverse(cells.begin(), cells.end());
  MeshEditor<D, double> e(m); e.deleteCells(cells); checkDeleted(o, m, keep); vp_cover("deleted");
}
extern "C" void h_edel2() { edel<2>(); }
extern "C" void h_edel3() { edel<3>(); }
// ---- queries
template <int D> static void query() {
  Tessellation<D, double> m; symbolicMesh(m);
  std::vector<std::set<unsigned> > a = m.computeNodeCells(), b = m.computeCellToNodes(); const unsigned nn = m.nodes.size() / D, nc = m.cells.size();
  vp_assert(a.size() == nn && b.size() == nc, "one set per node, one per cell");
  for (unsigned c = 0; c < nc; ++c) for (unsigned n = 0; n < nn; ++n) { bool t = false; for (size_t k = 0; k < m.cells[c].size(); ++k) { const std::vector<unsigned>& f = m.faces[fid(m.cells[c][k])]; for (size_t q = 0; q < f.size(); ++q) t |= f[q] == n; } vp_assert((a[n].count(c) == 1) == t, "node's cells are the cells with a face at the node"); vp_assert((b[c].count(n) == 1) == t, "cell's nodes are the nodes of its faces"); }
  for (unsigned n = 0; n < nn; ++n) for (std::set<unsigned>::iterator i = a[n].begin(); i != a[n].end(); ++i) vp_assert(*i < nc, "cell index in range");
  for (unsigned c = 0; c < nc; ++c) for (std::set<unsigned>::iterator i = b[c].begin(); i != b[c].end(); ++i) vp_assert(*i < nn, "node index in range");
  vp_cover("end"); vp_obs(a[0].size());
}
extern "C" void h_query2() { query<2>(); }
extern "C" void h_query3() { query<3>(); }
// a mesh whose faces have arbitrary nodes and arbitrary owner cells
extern "C" void h_queryArb() {
  Tessellation<2, double> m; const int nn = 3, nf = 3, nc = 2; m.nodes.resize(2 * nn); m.faces.resize(nf); m.faceCells.resize(nf); m.cells.resize(nc);
  for (int f = 0; f < nf; ++f) { m.faces[f].push_back(vp_int("n", 0, nn - 1)); m.faces[f].push_back(vp_int("n", 0, nn - 1)); }
  for (int f = 0; f < nf; ++f) { int o = vp_len("own", 0, 2); if (o != 1) m.cells[0].push_back(vp_bool("s") ? ~f : f); if (o != 0) m.cells[1].push_back(~f); m.faceCells[f].push_back(0); }
  std::vector<std::set<unsigned> > a = m.computeNodeCells(), b = m.computeCellToNodes();
  for (unsigned c = 0; c < nc; ++c) for (unsigned n = 0; n < nn; ++n) { bool t = false; for (size_t k = 0; k < m.cells[c].size(); ++k) { const std::vector<unsigned>& f = m.faces[fid(m.cells[c][k])]; for (size_t q = 0; q < f.size(); ++q) t |= f[q] == n; } vp_assert((a[n].count(c) == 1) == t, "node's cells are the cells with a face at the node"); vp_assert((b[c].count(n) == 1) == t, "cell's nodes are the nodes of its faces"); }
  vp_cover("end");
}
// clear() empties everything and empty() is true exactly when the mesh holds nothing
extern "C" void h_clear() {
  Tessellation<2, double> m; vp_assert(m.empty(), "new mesh is empty"); int what = vp_len("what", 0, 9); double x = vp_anydouble("x"); int k = (int)vp_int("k", -2147483648L, 2147483647L); size_t n = vp_len("n", 1, 3);
  switch (what) { case 0: m.nodes.assign(n, x); break; case 1: m.cells.assign(n, std::vector<int>(1, k)); break; case 2: m.faces.assign(n, std::vector<unsigned>(2, k)); break; case 3: m.boundaryNodes.assign(n, k); break; case 4: m.boundaryFaces.assign(n, k); break; case 5: m.faceCells.assign(n, std::vector<int>(1, k)); break; case 6: m.convexHull.facets.assign(n, std::vector<int>(2, k)); break; case 7: m.neighborDomains.assign(n, k); break; case 8: m.sharedNodes.assign(n, std::vector<unsigned>(1, k)); break; case 9: m.sharedFaces.assign(n, std::vector<unsigned>(1, k)); break; }
  if (what <= 6) vp_assert(!m.empty(), "mesh holding data is not empty");
  if (vp_bool("more")) { grid2(m, 2, 1); m.sharedNodes.resize(2); vp_assert(!m.empty(), "mesh holding data is not empty"); }
  m.clear(); vp_assert(m.empty() && m.nodes.empty() && m.cells.empty() && m.faces.empty() && m.boundaryNodes.empty() && m.boundaryFaces.empty() && m.faceCells.empty() && m.convexHull.facets.empty() && m.convexHull.holes.empty() && m.neighborDomains.empty() && m.sharedNodes.empty() && m.sharedFaces.empty(), "clear leaves nothing behind");
  vp_cover("end");
}
// ---- boundary elements
extern "C" void h_bound() {
  Tessellation<2, double> m; const int nn = VPN + 1, nf = VPN + 1; m.nodes.resize(2 * nn, 0.0); for (int f = 0; f < nf; ++f) { std::vector<unsigned> e; e.push_back(vp_int("a", 0, nn - 1)); e.push_back(vp_int("b", 0, nn - 1)); m.faces.push_back(e); m.faceCells.push_back(std::vector<int>(vp_bool("inner") ? 2 : 1, f)); }
  std::vector<unsigned> bf(3, 77u), bn(2, 99u); if (vp_bool("fresh")) { bf.clear(); bn.clear(); }
  findBoundaryElements(m, bf, bn);
  size_t j = 0; bool used[nn]; for (int n = 0; n < nn; ++n) used[n] = false; for (int f = 0; f < nf; ++f) if (m.faceCells[f].size() == 1) { vp_assert(j < bf.size() && bf[j] == (unsigned)f, "boundary faces are the faces with one cell, ascending"); ++j; for (int k = 0; k < 2; ++k) for (int n = 0; n < nn; ++n) used[n] |= m.faces[f][k] == (unsigned)n; }
  vp_assert(j == bf.size(), "no other boundary face"); for (size_t i = 0; i < bn.size(); ++i) { vp_assert(bn[i] < nn, "boundary node in range"); if (i) vp_assert(bn[i - 1] < bn[i], "boundary nodes ascending and unique"); }
  size_t cnt = 0; for (int n = 0; n < nn; ++n) { bool in = false; for (size_t i = 0; i < bn.size(); ++i) in |= bn[i] == (unsigned)n; vp_assert(in == used[n], "boundary nodes are exactly the nodes of boundary faces"); cnt += in; }
  if (j == 0) vp_cover("none"); if (j == (size_t)nf) vp_cover("all"); vp_obs(bn.size());
}
extern "C" void h_bound3() { Tessellation<3, double> m; symbolicMesh(m); if (vp_bool("drop")) m.faceCells[0].push_back(~1); std::vector<unsigned> bf, bn; findBoundaryElements(m, m.boundaryFaces, m.boundaryNodes); checkBoundary(m); vp_cover("end"); }
// ---- quantized tessellation -> tessellation
extern "C" void h_fill() {
  typedef QuantizedTessellation2d<int, double> Q; const double ext = (double)Q::coordMax - (double)Q::coordMin; double lo[2] = {0, 0}, hi[2] = {ext * 0.5, ext * 0.5}; std::vector<double> none; Q q(none, lo, hi);
  Tessellation<2, double> ref; symbolicMesh(ref); const int nn = ref.nodes.size() / 2;
  for (int i = 0; i < nn; ++i) q.nodes.push_back(Q::IntPoint((int)vp_int("x", Q::coordMin, Q::coordMax), (int)vp_int("y", Q::coordMin, Q::coordMax), (unsigned)i));
  for (size_t f = 0; f < ref.faces.size(); ++f) q.edges.push_back(std::make_pair((int)ref.faces[f][0], (int)ref.faces[f][1]));
  q.cellEdges = ref.cells; q.generators.resize(ref.cells.size());
  Tessellation<2, double> m; q.fillTessellation(m);
  vp_assert(m.cells == ref.cells, "cells are the quantized cells"); vp_assert(m.faces == ref.faces, "faces are the quantized edges"); vp_assert(m.nodes.size() == 2 * (size_t)nn, "one node per quantized node");
  for (int i = 0; i < nn; ++i) { vp_assert(m.nodes[2 * i] == 0.5 * (q.nodes[i].x - (double)Q::coordMin), "node x is the dequantized coordinate"); vp_assert(m.nodes[2 * i + 1] == 0.5 * (q.nodes[i].y - (double)Q::coordMin), "node y is the dequantized coordinate"); }
  vp_assert(m.faceCells.size() == m.faces.size(), "one cell list per face"); checkMesh(m, true); vp_cover("end");
}
// ---- edge cleaning: a strip of quads whose node columns/rows have moved, so some edges are short
extern "C" void h_clean() {
  mpim_init(1, 1); Tessellation<2, double> o, m; grid2(o, VPN + 1, 2, 16, 16); const int nx = VPN + 1;
  for (int i = 1; i < nx; ++i) { double s = G("s", 0, 15); o.nodes[2 * (1 * (nx + 1) + i)] += s; }                       // interior nodes move in x
  { double s = G("b", 0, 15); o.nodes[2 * 1] += s; }                                                                       // a boundary node slides along the bottom
  if (vp_bool("flip")) flipFace(o, 0); findBoundaryElements(o, o.boundaryFaces, o.boundaryNodes);
  o.neighborDomains.push_back(1); o.sharedNodes.resize(1); o.sharedFaces.resize(1); for (unsigned k = 0; k < o.nodes.size() / 2; ++k) o.sharedNodes[0].push_back(k); for (unsigned k = 0; k < o.faces.size(); ++k) o.sharedFaces[0].push_back(k);
  copyMesh(o, m); const double tol = 0.25; MeshEditor<2, double> e(m); e.cleanEdges(tol);
  vp_assert(m.cells.size() == o.cells.size(), "no cell is lost"); checkMesh(m, true); checkBoundary(m);
  // every surviving node is an original one; corners survive; boundary nodes do not leave the boundary
  std::map<VD, unsigned> pos; for (unsigned n = 0; n < m.nodes.size() / 2; ++n) { VD p = xyz(m, n); bool f = false; for (unsigned k = 0; k < o.nodes.size() / 2; ++k) f |= xyz(o, k) == p; vp_assert(f, "a surviving node is one of the original nodes"); }
  VD corner[4] = {xyz(o, 0), xyz(o, nx), xyz(o, 2 * (nx + 1)), xyz(o, 2 * (nx + 1) + nx)};
  for (int c = 0; c < 4; ++c) { bool f = false; for (unsigned n = 0; n < m.nodes.size() / 2; ++n) f |= xyz(m, n) == corner[c]; vp_assert(f, "corners stay"); }
  for (size_t k = 0; k < m.boundaryNodes.size(); ++k) { VD p = xyz(m, m.boundaryNodes[k]); vp_assert(p[0] == 0 || p[0] == 16 * nx || p[1] == 0 || p[1] == 32, "boundary stays on the boundary"); }
  // faces that went away were short relative to the longest edge of a neighbouring cell; each cell keeps the others in order
  std::vector<double> len(o.faces.size()), big(o.faces.size(), 0.0); for (size_t f = 0; f < o.faces.size(); ++f) { VD a = xyz(o, o.faces[f][0]), b = xyz(o, o.faces[f][1]); len[f] = (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]); }
  for (size_t c = 0; c < o.cells.size(); ++c) { double mx = 0; for (size_t k = 0; k < o.cells[c].size(); ++k) { double l = len[fid(o.cells[c][k])]; if (l > mx) mx = l; } for (size_t k = 0; k < o.cells[c].size(); ++k) { double& b = big[fid(o.cells[c][k])]; if (mx > b) b = mx; } }
  size_t shortN = 0; for (size_t f = 0; f < o.faces.size(); ++f) shortN += len[f] < tol * tol * big[f];
  vp_assert(o.faces.size() - m.faces.size() <= shortN, "only short edges are removed");
  for (size_t c = 0; c < o.cells.size(); ++c) { size_t lo = 0; for (size_t k = 0; k < o.cells[c].size(); ++k) lo += !(len[fid(o.cells[c][k])] < tol * tol * big[fid(o.cells[c][k])]); vp_assert(m.cells[c].size() >= lo && m.cells[c].size() <= o.cells[c].size(), "every long edge of a cell survives"); }
  bool must = false; for (size_t f = 0; f < o.faces.size(); ++f) if (len[f] < tol * tol * big[f]) { bool cn = false; for (int k = 0; k < 2; ++k) { VD p = xyz(o, o.faces[f][k]); for (int c = 0; c < 4; ++c) cn |= p == corner[c]; } must |= !cn; }
  vp_assert(must == (m.faces.size() < o.faces.size()), "some removable short edge is removed whenever there is one");
  for (size_t k = 0; k < m.sharedNodes[0].size(); ++k) vp_assert(m.sharedNodes[0][k] == k, "shared nodes renumbered"); vp_assert(m.sharedNodes[0].size() == m.nodes.size() / 2 && m.sharedFaces[0].size() == m.faces.size(), "shared lists hold every survivor");
  if (must) vp_cover("cleaned"); else vp_cover("already clean"); vp_obs(m.faces.size()); vp_obs(m.nodes.size());
}
