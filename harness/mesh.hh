// Mesh builders and the validity predicate shared by the mesh harnesses.
#pragma once
#include "util.hh"
#include "polytope.hh"
using polytope::Tessellation;
template <int D> static inline std::vector<double> xyz(const Tessellation<D, double>& m, unsigned n) { return std::vector<double>(m.nodes.begin() + D * n, m.nodes.begin() + D * (n + 1)); }
static inline int fid(int f) { return f < 0 ? ~f : f; }
// face added with its nodes ordered so that it is positive for cell `c`, or found again for the second cell
template <int D> struct Builder {
  Tessellation<D, double>& m; std::map<std::vector<unsigned>, int> ids;
  Builder(Tessellation<D, double>& m_) : m(m_) {}
  void face(int c, const std::vector<unsigned>& nodes) {
    std::vector<unsigned> key(nodes); std::sort(key.begin(), key.end());
    while ((int)m.cells.size() <= c) m.cells.push_back(std::vector<int>());
    std::map<std::vector<unsigned>, int>::iterator it = ids.find(key);
    if (it == ids.end()) { int f = m.faces.size(); ids[key] = f; m.faces.push_back(nodes); m.faceCells.push_back(std::vector<int>(1, c)); m.cells[c].push_back(f); }
    else { m.faceCells[it->second].push_back(~c); m.cells[c].push_back(~it->second); }
  }
};
static inline std::vector<unsigned> uv(unsigned a, unsigned b) { std::vector<unsigned> v; v.push_back(a); v.push_back(b); return v; }
static inline std::vector<unsigned> uv(unsigned a, unsigned b, unsigned c, unsigned d) { std::vector<unsigned> v = uv(a, b); v.push_back(c); v.push_back(d); return v; }
// nx x ny quads; node (i,j) at (x0 + i*dx, y0 + j*dy)
static inline void grid2(Tessellation<2, double>& m, int nx, int ny, double dx = 1, double dy = 1) {
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { m.nodes.push_back(i * dx); m.nodes.push_back(j * dy); }
  Builder<2> b(m);
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int c = j * nx + i; unsigned a = j * (nx + 1) + i, e = a + nx + 1; b.face(c, uv(a, a + 1)); b.face(c, uv(a + 1, e + 1)); b.face(c, uv(e + 1, e)); b.face(c, uv(e, a)); }
}
// nx x ny x nz hexahedra, faces counter-clockwise seen from outside
static inline void grid3(Tessellation<3, double>& m, int nx, int ny, int nz) {
  for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { m.nodes.push_back(i); m.nodes.push_back(j); m.nodes.push_back(k); }
  Builder<3> b(m); unsigned X = 1, Y = nx + 1, Z = (nx + 1) * (ny + 1);
  for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int c = (k * ny + j) * nx + i; unsigned a = i * X + j * Y + k * Z;
    b.face(c, uv(a, a + Y, a + X + Y, a + X)); b.face(c, uv(a + Z, a + X + Z, a + X + Y + Z, a + Y + Z));
    b.face(c, uv(a, a + X, a + X + Z, a + Z)); b.face(c, uv(a + Y, a + Y + Z, a + X + Y + Z, a + X + Y));
    b.face(c, uv(a, a + Z, a + Y + Z, a + Y)); b.face(c, uv(a + X, a + X + Y, a + X + Y + Z, a + X + Z)); }
}
// reverse face f: nodes, signs in cells and faceCells
template <int D> static inline void flipFace(Tessellation<D, double>& m, int f) {
  std::reverse(m.faces[f].begin(), m.faces[f].end());
  for (size_t k = 0; k < m.faceCells[f].size(); ++k) { int c = fid(m.faceCells[f][k]); m.faceCells[f][k] = ~m.faceCells[f][k]; for (size_t j = 0; j < m.cells[c].size(); ++j) if (fid(m.cells[c][j]) == f) m.cells[c][j] = ~m.cells[c][j]; }
}
template <int D> static inline void copyMesh(const Tessellation<D, double>& a, Tessellation<D, double>& b) { b.nodes = a.nodes; b.cells = a.cells; b.faces = a.faces; b.boundaryNodes = a.boundaryNodes; b.boundaryFaces = a.boundaryFaces; b.faceCells = a.faceCells; b.neighborDomains = a.neighborDomains; b.sharedNodes = a.sharedNodes; b.sharedFaces = a.sharedFaces; }
// The invariants every user of a Tessellation relies on. orient: 2D cells are closed loops in order.
template <int D> static inline void checkMesh(const Tessellation<D, double>& m, bool loops) {
  const size_t nn = m.nodes.size() / D, nf = m.faces.size(), nc = m.cells.size();
  vp_assert(m.nodes.size() == D * nn && m.faceCells.size() == nf, "array sizes agree");
  std::vector<int> pos(nf, -1), neg(nf, -1), used(nn, 0); std::vector<int> cnt(nf, 0);
  for (size_t f = 0; f < nf; ++f) { vp_assert(m.faces[f].size() >= (D == 2 ? 2u : 3u), "face has enough nodes"); for (size_t k = 0; k < m.faces[f].size(); ++k) { vp_assert(m.faces[f][k] < nn, "face nodes in range"); used[m.faces[f][k]] = 1; } if (D == 2) vp_assert(m.faces[f].size() == 2 && m.faces[f][0] != m.faces[f][1], "2D face joins two nodes"); }
  for (size_t c = 0; c < nc; ++c) for (size_t k = 0; k < m.cells[c].size(); ++k) {
    int s = m.cells[c][k], f = fid(s); vp_assert(f < (int)nf, "cell faces in range"); std::vector<int>& side = s < 0 ? neg : pos; vp_assert(side[f] == -1, "a face borders at most one cell on each side"); side[f] = c; ++cnt[f];
    if (D == 2 && loops) { int t = m.cells[c][(k + 1) % m.cells[c].size()]; vp_assert(m.faces[f][s < 0 ? 0 : 1] == m.faces[fid(t)][t < 0 ? 1 : 0], "consecutive faces of a cell share a node"); }
  }
  for (size_t f = 0; f < nf; ++f) {
    vp_assert(m.faceCells[f].size() == 1 || m.faceCells[f].size() == 2, "face has one or two cells"); vp_assert((int)m.faceCells[f].size() == cnt[f], "faceCells lists every cell of the face");
    for (size_t k = 0; k < m.faceCells[f].size(); ++k) { int s = m.faceCells[f][k], c = fid(s); vp_assert(c < (int)nc && (s < 0 ? neg[f] : pos[f]) == c, "faceCells agrees with the cells' signed faces"); }
    if (m.faceCells[f].size() == 2) vp_assert((m.faceCells[f][0] < 0) != (m.faceCells[f][1] < 0), "an interior face has opposite orientations in its two cells");
  }
  for (size_t n = 0; n < nn; ++n) vp_assert(used[n], "every node belongs to a face");
}
template <int D> static inline void checkBoundary(const Tessellation<D, double>& m) {
  std::vector<int> bn(m.nodes.size() / D, 0), bf(m.faces.size(), 0), gn(bn), gf(bf);
  for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { bf[f] = 1; for (size_t k = 0; k < m.faces[f].size(); ++k) bn[m.faces[f][k]] = 1; }
  for (size_t i = 0; i < m.boundaryFaces.size(); ++i) { vp_assert(m.boundaryFaces[i] < gf.size(), "boundary face in range"); ++gf[m.boundaryFaces[i]]; }
  for (size_t i = 0; i < m.boundaryNodes.size(); ++i) { vp_assert(m.boundaryNodes[i] < gn.size(), "boundary node in range"); ++gn[m.boundaryNodes[i]]; }
  vp_assert(eqv(bf, gf), "boundaryFaces are exactly the faces with one cell, once each"); vp_assert(eqv(bn, gn), "boundaryNodes are exactly the nodes of boundary faces, once each");
}
