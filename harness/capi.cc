// The C interface: PLC handles, tessellation structs, tessellators, writing, errors
#include "util.hh"
#include "polytope_c.h"
#include "polytope.hh"
#ifndef VPN
#define VPN 2
#endif
#ifndef VPK
#define VPK 4
#endif
using namespace polytope;
namespace polytope {
template <int D> void fill_plc(const PLC<D, polytope_real_t>&, polytope_plc_t*);
template <int D> void fill_plc(polytope_plc_t*, PLC<D, polytope_real_t>&);
template <int D> void fill_tessellation(const Tessellation<D, polytope_real_t>&, polytope_tessellation_t*);
template <int D> void fill_tessellation(polytope_tessellation_t*, Tessellation<D, polytope_real_t>&);
}
typedef std::vector<int> VI; typedef std::vector<VI> VVI; typedef std::vector<VVI> VVVI; typedef std::vector<unsigned> VU; typedef std::vector<double> V;
static int anyInt(const char* n) { return (int)vp_int(n, -2147483647 - 1, 2147483647); }
static unsigned anyU(const char* n) { return (unsigned)vp_int(n, 0, 4294967295L); }
static bool eqvv(const VVI& a, const VVI& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) { if (!eqv(a[i], b[i])) return false; } return r; }
static bool eqvvv(const VVVI& a, const VVVI& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!eqvv(a[i], b[i])) return false; return true; }
static std::string msg; static int sta, calls;
static void handler(const char* s, int c) { ++calls; msg = s; sta = c; }

// a string of at most n characters, terminated, nothing written past it
template <class H> static void text(H* h, void (*f)(H*, char*, int)) { const int n = vp_len("room", 1, 2) == 1 ? 7 : 60; char b[64]; for (char& c : b) c = 'Z'; f(h, b, n); int e = -1; for (int i = 0; i < n; ++i) if (e < 0 && b[i] == 0) e = i; vp_assert(e > 0, "the text fits and ends"); bool past = true; for (int i = n; i < 64; ++i) past &= b[i] == 'Z'; vp_assert(past, "nothing is written past the given length"); }

// PLC handles behave like the PLC they stand for
template <int D> static void plc() {
  const long live = vp_heaplive();
  {
    PLC<D, double> m; polytope_plc_t* p = polytope_plc_new(D); vp_assert(polytope_plc_empty(p), "new handles are empty");
    for (int i = 0; i < VPK; ++i) {
      const int op = vp_len("op", 0, 5), nf = m.facets.size(), nh = m.holes.size();
      if (op == 0) { const int r = polytope_plc_add_facet(p); m.facets.push_back(VI()); vp_assert(r == nf, "index of the new facet"); }
      else if (op == 1 && nf) { const int f = vp_len("f", 0, nf - 1), v = anyInt("node"); polytope_plc_add_facet_node(p, f, v); m.facets[f].push_back(v); }
      else if (op == 2) { const int r = polytope_plc_add_hole(p); m.holes.push_back(VVI()); vp_assert(r == nh, "index of the new hole"); }
      else if (op == 3 && nh) { const int h = vp_len("h", 0, nh - 1); const int r = polytope_plc_add_hole_facet(p, h); m.holes[h].push_back(VI()); vp_assert(r == (int)m.holes[h].size() - 1, "index of the new hole facet"); }
      else if (op == 4 && nh) { const int h = vp_len("h", 0, nh - 1), hf = m.holes[h].size(); if (hf) { const int f = vp_len("f", 0, hf - 1), v = anyInt("node"); polytope_plc_add_hole_facet_node(p, h, f, v); m.holes[h][f].push_back(v); } }
      else if (op == 5) { polytope_plc_clear(p); m.clear(); vp_assert(polytope_plc_empty(p), "cleared handles are empty"); }
    }
    vp_assert((bool)polytope_plc_empty(p) == m.empty(), "empty says what the PLC says"); vp_assert((bool)polytope_plc_valid(p) == m.valid(), "valid says what the PLC says");
    for (size_t f = 0; f < m.facets.size(); ++f) { const int n = polytope_plc_num_facet_nodes(p, f); vp_assert(n == (int)m.facets[f].size(), "number of facet nodes"); int got[VPK + 1]; for (int& g : got) g = 77; polytope_plc_get_facet_nodes(p, f, got); for (int i = 0; i < n; ++i) vp_assert(got[i] == m.facets[f][i], "facet nodes in order"); vp_assert(got[n] == 77, "and no more"); }
    for (size_t h = 0; h < m.holes.size(); ++h) { vp_assert(polytope_plc_num_hole_facets(p, h) == (int)m.holes[h].size(), "number of hole facets"); for (size_t f = 0; f < m.holes[h].size(); ++f) { const int n = polytope_plc_num_hole_facet_nodes(p, h, f); vp_assert(n == (int)m.holes[h][f].size(), "number of hole facet nodes"); int got[VPK + 1]; for (int& g : got) g = 77; polytope_plc_get_hole_facet_nodes(p, h, f, got); for (int i = 0; i < n; ++i) vp_assert(got[i] == m.holes[h][f][i], "hole facet nodes in order"); vp_assert(got[n] == 77, "and no more"); } }
    PLC<D, double> q; q.facets = {{9}}; fill_plc(p, q); vp_assert(eqvv(q.facets, m.facets) && eqvvv(q.holes, m.holes), "the handle turns into the same PLC");
    polytope_plc_t* p2 = polytope_plc_new(D); fill_plc(m, p2); PLC<D, double> q2; fill_plc(p2, q2); vp_assert(eqvv(q2.facets, m.facets) && eqvvv(q2.holes, m.holes), "and back");
    polytope_plc_free(p2); polytope_plc_free(p);
  }
  vp_assert(vp_heaplive() == live, "nothing leaks"); vp_cover("end");
}
extern "C" void h_plc2() { plc<2>(); }
extern "C" void h_plc3() { plc<3>(); }
extern "C" void h_text() {
  polytope_plc_t* p = polytope_plc_new(vp_len("dim", 2, 3)); for (int i = vp_len("facets", 0, 1); i > 0; --i) polytope_plc_add_facet(p);
  if (vp_bool("plc")) text(p, polytope_plc_snprintf);
  else { polytope_tessellation_t* t = polytope_tessellation_new(2); text(t, polytope_tessellation_snprintf); polytope_tessellation_free(t); }
  polytope_plc_free(p); vp_cover("end");
}

// C structs carry the whole mesh
static void lists(const char* n, std::vector<VU>& v, int k, int m) { for (int i = 0; i < k; ++i) { v.push_back(VU()); for (long j = 0, e = vp_len(n, 0, m); j < e; ++j) v[i].push_back(anyU(n)); } }
static VU list(const char* n, int m) { VU v; for (long j = 0, e = vp_len(n, 0, m); j < e; ++j) v.push_back(anyU(n)); return v; }
template <int D> static void build(Tessellation<D, double>& m, int part) {   // part: which arrays vary
  const int nn = part == 0 ? vp_len("nodes", 0, VPN) : 2, nc = part == 1 ? vp_len("cells", 0, VPN) : 1, nf = part == 0 ? vp_len("faces", 0, VPN) : 2;
  for (int i = 0; i < D * nn; ++i) m.nodes.push_back(vp_anydouble("x"));
  for (int i = 0; i < nc; ++i) { m.cells.push_back(VI()); for (long j = 0, e = part == 1 ? vp_len("cf", 0, VPN) : 1; j < e; ++j) m.cells[i].push_back(anyInt("cf")); }
  if (part == 0) lists("fn", m.faces, nf, VPN); else for (int i = 0; i < nf; ++i) m.faces.push_back(VU{anyU("fn"), 1u});
  for (int i = 0; i < nf; ++i) { m.faceCells.push_back(VI{anyInt("fc")}); if (part == 1 && vp_conc(vp_bool("inner"))) { m.faceCells[i].push_back(anyInt("fc")); vp_assume(m.faceCells[i][1] != -1); } }
  if (part == 2) { m.boundaryNodes = list("bn", VPN); m.boundaryFaces = list("bf", VPN); for (long i = 0, e = vp_len("hull", 0, 1); i < e; ++i) { VI f; for (int j = 0; j < 2; ++j) f.push_back(anyInt("hf")); m.convexHull.facets.push_back(f); if (vp_bool("hole")) m.convexHull.holes.push_back({f}); } }
  else { m.boundaryNodes = VU{anyU("bn")}; m.boundaryFaces = VU{anyU("bf"), 3u}; }
  if (part == 3) { m.neighborDomains = list("nd", VPN); lists("sn", m.sharedNodes, m.neighborDomains.size(), VPN); lists("sf", m.sharedFaces, m.neighborDomains.size(), VPN); }
}
template <class T, class U> static bool sameList(const std::vector<T>& v, const U* p) { bool r = true; for (size_t i = 0; i < v.size(); ++i) r &= v[i] == (T)p[i]; return r; }
template <class T, class U> static void sameRows(const std::vector<std::vector<T> >& v, const int* off, const U* dat, const char* what) { int at = 0; bool r = true; for (size_t i = 0; i < v.size(); ++i) { vp_assert(off[i] == at, what); r &= sameList(v[i], dat + at); at += v[i].size(); } vp_assert(off[v.size()] == at, what); vp_assert(r, what); }
template <int D> static void sameC(const Tessellation<D, double>& m, polytope_tessellation_t* t) {
  vp_assert(t->dimension == D && t->num_nodes == (int)m.nodes.size() / D && t->num_cells == (int)m.cells.size() && t->num_faces == (int)m.faces.size(), "numbers of nodes, cells and faces");
  bool r = true; for (size_t i = 0; i < m.nodes.size(); ++i) r &= sameBits(m.nodes[i], t->nodes[i]); vp_assert(r, "node coordinates");
  sameRows(m.cells, t->cell_offsets, t->cell_faces, "faces of the cells"); sameRows(m.faces, t->face_offsets, t->face_nodes, "nodes of the faces");
  vp_assert(t->num_boundary_nodes == (int)m.boundaryNodes.size() && sameList(m.boundaryNodes, t->boundary_nodes), "boundary nodes"); vp_assert(t->num_boundary_faces == (int)m.boundaryFaces.size() && sameList(m.boundaryFaces, t->boundary_faces), "boundary faces");
  for (size_t f = 0; f < m.faceCells.size(); ++f) vp_assert((t->face_cells[2*f] == m.faceCells[f][0]) & (t->face_cells[2*f+1] == (m.faceCells[f].size() == 2 ? m.faceCells[f][1] : -1)), "cells of the faces");
  vp_assert(t->num_neighbor_domains == (int)m.neighborDomains.size() && sameList(m.neighborDomains, t->neighbor_domains), "neighbor domains"); sameRows(m.sharedNodes, t->shared_node_domain_offsets, t->shared_nodes, "shared nodes"); sameRows(m.sharedFaces, t->shared_face_domain_offsets, t->shared_faces, "shared faces");
  if (m.convexHull.empty()) vp_assert(t->convex_hull == NULL, "no hull"); else { vp_assert(t->convex_hull != NULL, "a hull"); PLC<D, double> q; fill_plc(t->convex_hull, q); vp_assert(eqvv(q.facets, m.convexHull.facets) && eqvvv(q.holes, m.convexHull.holes), "the convex hull"); }
}
template <int D> static void sameCxx(const Tessellation<D, double>& a, const Tessellation<D, double>& b) {
  vp_assert(a.nodes.size() == b.nodes.size() && a.cells.size() == b.cells.size() && a.faces.size() == b.faces.size() && a.faceCells.size() == b.faceCells.size() && a.sharedNodes.size() == b.sharedNodes.size() && a.sharedFaces.size() == b.sharedFaces.size(), "same sizes both ways");
  bool r = true; for (size_t i = 0; i < a.nodes.size(); ++i) r &= sameBits(a.nodes[i], b.nodes[i]); for (size_t i = 0; i < a.cells.size(); ++i) r &= eqv(a.cells[i], b.cells[i]); for (size_t i = 0; i < a.faces.size(); ++i) r &= eqv(a.faces[i], b.faces[i]) & eqv(a.faceCells[i], b.faceCells[i]); for (size_t i = 0; i < a.sharedNodes.size(); ++i) r &= eqv(a.sharedNodes[i], b.sharedNodes[i]) & eqv(a.sharedFaces[i], b.sharedFaces[i]);
  vp_assert(r & eqv(a.boundaryNodes, b.boundaryNodes) & eqv(a.boundaryFaces, b.boundaryFaces) & eqv(a.neighborDomains, b.neighborDomains), "the same mesh both ways");
}
template <int D> static void mesh() {
  const long live = vp_heaplive();
  {
    Tessellation<D, double> m, b; build(m, vp_len("part", 0, 3)); polytope_tessellation_t* t = polytope_tessellation_new(D); fill_tessellation(m, t); sameC(m, t);
    const Tessellation<D, double>& cm = m; fill_tessellation(t, b); sameCxx(cm, b); sameC(m, t); polytope_tessellation_free(t);
  }
  vp_assert(vp_heaplive() == live, "nothing leaks"); vp_cover("end");
}
extern "C" void h_mesh2() { mesh<2>(); }
extern "C" void h_mesh3() { mesh<3>(); }
// any history of filling and clearing ends with everything freed once
template <int D> static void history() {
  const long live = vp_heaplive();
  {
    polytope_tessellation_t* t = polytope_tessellation_new(D); bool full = false;
    for (int i = 0; i < VPK; ++i) { if (!full && vp_bool("fill")) { Tessellation<D, double> m; m.nodes.resize(2 * D); if (vp_bool("some")) { m.cells.resize(1); m.cells[0].push_back(0); m.faces.resize(1); m.faces[0].resize(2); m.faceCells.resize(1); m.faceCells[0].resize(1); m.boundaryNodes.resize(1); m.boundaryFaces.resize(1); m.neighborDomains.resize(1); m.sharedNodes.resize(1); m.sharedFaces.resize(1); m.convexHull.facets.resize(1); } fill_tessellation(m, t); sameC(m, t); full = true; }
      else if (vp_bool("clear")) { polytope_tessellation_clear(t); full = false; vp_assert(!t->num_nodes && !t->nodes && !t->num_cells && !t->cell_offsets && !t->cell_faces && !t->num_faces && !t->face_offsets && !t->face_nodes && !t->num_boundary_nodes && !t->boundary_nodes && !t->num_boundary_faces && !t->boundary_faces && !t->face_cells && !t->convex_hull && !t->num_neighbor_domains && !t->neighbor_domains && !t->shared_nodes && !t->shared_faces, "cleared structs are empty"); vp_assert(t->dimension == D, "and keep their dimension"); } }
    polytope_tessellation_free(t);
  }
  vp_assert(vp_heaplive() == live, "nothing leaks"); vp_cover("end");
}
extern "C" void h_history2() { history<2>(); }
extern "C" void h_history3() { history<3>(); }

// what the C writer hands to the silo writer (replaced here by a recorder)
#ifdef VPW
typedef std::map<std::string, double*> MF; typedef std::map<std::string, std::vector<int>*> MT;
static Tessellation<2, double> w2; static Tessellation<3, double> w3; static MF wf[4]; static std::map<std::string, VI> wt[4]; static std::string wp, wd; static int wc, wn, wg, wcalls, wdim; static double wtime; static MPI_Comm wm;
static void keep(int d, const MF* const* f, const MT* const* t, const std::string& p, const std::string& dir, int c, double time, MPI_Comm m, int n, int g) { ++wcalls; wdim = d; for (int i = 0; i < 4; ++i) { wf[i] = *f[i]; wt[i].clear(); for (auto& e : *t[i]) wt[i][e.first] = *e.second; } wp = p; wd = dir; wc = c; wtime = time; wm = m; wn = n; wg = g; }
namespace polytope {
#define ARGS const MF &nf, const MT &nt, const MF &ef, const MT &et, const MF &ff, const MT &ft, const MF &cf, const MT &ct, const std::string &p, const std::string &dir, int c, double time, MPI_Comm m, int n, int g
#define KEEP(D) const MF* f[4] = {&nf, &ef, &ff, &cf}; const MT* t[4] = {&nt, &et, &ft, &ct}; keep(D, f, t, p, dir, c, time, m, n, g)
template <> void SiloWriter<2, double>::write(const Tessellation<2, double>& mesh, ARGS) { w2.nodes = mesh.nodes; w2.cells = mesh.cells; w2.faces = mesh.faces; w2.faceCells = mesh.faceCells; w2.boundaryNodes = mesh.boundaryNodes; w2.boundaryFaces = mesh.boundaryFaces; w2.neighborDomains = mesh.neighborDomains; w2.sharedNodes = mesh.sharedNodes; w2.sharedFaces = mesh.sharedFaces; KEEP(2); }
template <> void SiloWriter<3, double>::write(const Tessellation<3, double>& mesh, ARGS) { w3.nodes = mesh.nodes; w3.cells = mesh.cells; w3.faces = mesh.faces; w3.faceCells = mesh.faceCells; w3.boundaryNodes = mesh.boundaryNodes; w3.boundaryFaces = mesh.boundaryFaces; w3.neighborDomains = mesh.neighborDomains; w3.sharedNodes = mesh.sharedNodes; w3.sharedFaces = mesh.sharedFaces; KEEP(3); }
}
template <int D> static void writer(Tessellation<D, double>& got) {
  Tessellation<D, double> m; build(m, 4); m.faceCells[0].push_back(5); polytope_tessellation_t* t = polytope_tessellation_new(D); fill_tessellation(m, t);
  static const char* NM[4][2] = {{"n", "nn"}, {"e", "ee"}, {"f", "ff"}, {"c", "cc"}}; int num[4], nt[4], sz[4][2]; double dat[4][2][2]; double* fp[4][2]; char* names[4][2]; int td[4][2][2]; int* tp[4][2];
  const int vary = vp_len("vary", 0, 3);
  for (int k = 0; k < 4; ++k) { num[k] = k == vary ? vp_len("fields", 0, 2) : 1; nt[k] = k == vary ? vp_len("tags", 0, 2) : 1; for (int i = 0; i < 2; ++i) { names[k][i] = (char*)NM[k][i]; fp[k][i] = dat[k][i]; tp[k][i] = td[k][i]; sz[k][i] = k == vary ? vp_len("size", 0, 2) : 1; for (int j = 0; j < 2; ++j) td[k][i][j] = anyInt("tag"); } }
  const int cyc = anyInt("cycle"), nf = anyInt("files"), tag = anyInt("mpitag"); const double time = vp_anydouble("time"); const bool tags = vp_bool("withtags"); wcalls = 0;
  if (tags) polytope_write_silo_with_tags(t, num[0], names[0], fp[0], nt[0], names[0], sz[0], tp[0], num[1], names[1], fp[1], nt[1], names[1], sz[1], tp[1], num[2], names[2], fp[2], nt[2], names[2], sz[2], tp[2], num[3], names[3], fp[3], nt[3], names[3], sz[3], tp[3], "pre", "dir", cyc, time, MPI_COMM_WORLD, nf, tag);
  else polytope_write_silo(t, num[0], names[0], fp[0], num[1], names[1], fp[1], num[2], names[2], fp[2], num[3], names[3], fp[3], "pre", "dir", cyc, time, MPI_COMM_WORLD, nf, tag);
  vp_assert(wcalls == 1 && wdim == D, "the mesh is written once in its dimension"); const Tessellation<D, double>& cm = m; sameCxx(cm, got); vp_assert(wp == "pre" && wd == "dir" && wc == cyc && sameBits(wtime, time) && wn == nf && wg == tag && wm == MPI_COMM_WORLD, "with the same names and numbers");
  for (int k = 0; k < 4; ++k) { vp_assert((int)wf[k].size() == num[k] && (int)wt[k].size() == (tags ? nt[k] : 0), "every field and tag"); for (int i = 0; i < num[k]; ++i) vp_assert(wf[k].count(NM[k][i]) && wf[k][NM[k][i]] == fp[k][i], "fields under their names"); for (int i = 0; tags && i < nt[k]; ++i) { vp_assert(wt[k].count(NM[k][i]), "tags under their names"); vp_assert(eqv(wt[k][NM[k][i]], VI(td[k][i], td[k][i] + sz[k][i])), "with their entries"); } }
  polytope_tessellation_free(t); vp_cover("end");
}
extern "C" void h_write2() { writer<2>(w2); }
extern "C" void h_write3() { writer<3>(w3); }
#endif

// the C tessellator does what the C++ one does
#ifdef VPB
extern "C" void h_tess() {
  polytope_tessellator_t* b = boost_tessellator_new(); vp_assert(polytope_tessellator_dimension(b) == 2 && polytope_tessellator_handles_plcs(b), "a 2D tessellator that handles PLCs");
  BoostTessellator<double> r; const std::string want = r.name(); const char* name = polytope_tessellator_name(b); { std::string other(40, 'q'); const char* again = polytope_tessellator_name(b); vp_assert(want == name && want == again, "the name outlives the call"); } vp_assert(polytope_tessellator_degeneracy(b) == r.degeneracy(), "degeneracy");
  const int mode = vp_len("mode", 0, 2); V p{3.25, 2.5, 6.5, 6.25, 1.5, 6.75}; p[2] = 5 + vp_len("x", 0, VPK); const int n = vp_len("n", 1, 3); double lo[2] = {0, 0}, hi[2] = {8, 9}; V q{0, 0, 8, 0, 8, 4, 4, 8, 0, 8}; PLC<2, double> g; g.facets = {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}};
  polytope_tessellation_t* t = polytope_tessellation_new(2); Tessellation<2, double> m; const V pts(p.begin(), p.begin() + 2 * n);
  if (mode == 0) { polytope_tessellator_tessellate_unbounded(b, &p[0], n, t); r.tessellate(pts, m); }
  else if (mode == 1) { polytope_tessellator_tessellate_in_box(b, &p[0], n, lo, hi, t); static_cast<Tessellator<2, double>&>(r).tessellate(pts, lo, hi, m); }
  else { polytope_plc_t* c = polytope_plc_new(2); for (int f = 0; f < 5; ++f) { polytope_plc_add_facet(c); polytope_plc_add_facet_node(c, f, f); polytope_plc_add_facet_node(c, f, (f + 1) % 5); } polytope_tessellator_tessellate_in_plc(b, &p[0], n, &q[0], 5, c, t); static_cast<Tessellator<2, double>&>(r).tessellate(pts, q, g, m); polytope_plc_free(c); }
  vp_assert((int)m.cells.size() == n, "one cell per generator"); sameC(m, t); polytope_tessellation_free(t); polytope_tessellator_free(b); vp_cover("end");
}
#endif
// errors reach the C handler
extern "C" void h_cerr() {
  polytope_set_error_handler(handler); for (int i = 0; i < 2; ++i) { std::string s(vp_len("len", 0, 2), 'x'); for (char& c : s) c = (char)vp_int("c", 1, 255); const int st = anyInt("status"); calls = 0; error(s, st); vp_assert(calls == 1 && sta == st && msg.size() == s.size(), "the handler is called with the status"); for (size_t k = 0; k < s.size(); ++k) vp_assert(msg[k] == s[k], "and the message"); }
  vp_cover("end");
}
