// Silo output over a model of the Silo library, the file system and MPI: what ends up in the files of all ranks
#include "util.hh"
#include "mpim.h"
#include "polytope.hh"
#include <dirent.h>
#include <sys/stat.h>
#include <cfloat>
#include "silo.h"
#ifndef VPR
#define VPR 2
#endif
#ifndef VPD
#define VPD 2
#endif
#ifndef VPV
#define VPV 0
#endif
using namespace polytope;
typedef std::vector<int> VI; typedef std::vector<double> V; typedef std::vector<std::string> VS; typedef std::map<std::string, double*> MF; typedef std::map<std::string, VI*> MT;
struct Item { std::string kind, ref; VI a[6]; V d[3]; VS names; int n[3] = {0, 0, 0}; bool hasCycle = false, hasTime = false; int cycle = 0; double time = 0; };
struct File { std::map<std::string, Item> items; std::set<std::string> dirs; int open = 0; };
struct Handle { File* f; std::string cwd; };
static std::map<std::string, File*> disk; static std::set<std::string> folders; static int opendirs;
static Item& put(DBfile* h, const char* name, const char* kind) { Handle* x = (Handle*)h; vp_assert(x != 0 && x->f->open == 1, "objects are written to an open file"); std::string p = x->cwd + (name[0] == '/' ? name + 1 : name); vp_assert(!x->f->items.count(p), "no object is written twice"); Item& i = x->f->items[p]; i.kind = kind; return i; }
static void opts(Item& i, const DBoptlist* o) { if (o) for (int k = 0; k < o->numopts; ++k) { if (o->options[k] == DBOPT_CYCLE) i.hasCycle = true, i.cycle = *(int*)o->values[k]; if (o->options[k] == DBOPT_DTIME) i.hasTime = true, i.time = *(double*)o->values[k]; if (o->options[k] == DBOPT_PHZONELIST) i.ref = (const char*)o->values[k]; } }
static VI ints(const void* p, int n) { VI v; for (int i = 0; i < n; ++i) v.push_back(((const int*)p)[i]); return v; }
static std::string parent(const std::string& s) { const size_t k = s.rfind('/'); return k == std::string::npos ? "." : s.substr(0, k); }
extern "C" {
#ifdef SiloCheckVersion
int SILO_VERS_TAG;
#endif
DBfile* DBCreateReal(const char* name, int mode, int, const char*, int) { vp_assert(folders.count(parent(name)), "files are created in folders that exist"); File*& f = disk[name]; if (f && mode == DB_NOCLOBBER) return 0; if (f) vp_assert(f->open == 0, "no open file is overwritten"); f = new File(); f->open = 1; f->dirs.insert("/"); Handle* h = new Handle(); h->f = f; h->cwd = "/"; return (DBfile*)h; }
DBfile* DBOpenReal(const char* name, int, int mode) { vp_assert(disk.count(name), "opened files exist"); vp_assert(mode == DB_APPEND, "opened for writing"); File* f = disk[name]; vp_assert(f->open == 0, "one rank at a time"); f->open = 1; Handle* h = new Handle(); h->f = f; h->cwd = "/"; return (DBfile*)h; }
int DBClose(DBfile* d) { Handle* h = (Handle*)d; vp_assert(h && h->f->open == 1, "files are closed once"); h->f->open = 0; delete h; return 0; }
int DBMkDir(DBfile* d, const char* n) { Handle* h = (Handle*)d; h->f->dirs.insert(h->cwd + n + "/"); return 0; }
int DBSetDir(DBfile* d, const char* n) { Handle* h = (Handle*)d; std::string p = n[0] == '/' ? n : h->cwd + n; if (p[p.size()-1] != '/') p += '/'; vp_assert(h->f->dirs.count(p), "folders inside a file exist"); h->cwd = p; return 0; }
DBoptlist* DBMakeOptlist(int n) { DBoptlist* o = new DBoptlist(); o->options = new int[n]; o->values = new void*[n]; o->numopts = 0; o->maxopts = n; return o; }
int DBAddOption(DBoptlist* o, int k, void* v) { vp_assert(o->numopts < o->maxopts, "options fit"); o->options[o->numopts] = k; o->values[o->numopts++] = v; return 0; }
int DBFreeOptlist(DBoptlist* o) { delete[] o->options; delete[] o->values; delete o; return 0; }
int DBPutUcdmesh(DBfile* f, const char* n, int nd, char const* const*, DBVCP2_t c, int nn, int nz, const char* zl, const char*, int t, const DBoptlist* o) { Item& i = put(f, n, "mesh"); vp_assert(t == DB_DOUBLE, "coordinates are doubles"); i.n[0] = nd; i.n[1] = nn; i.n[2] = nz; for (int d = 0; d < nd; ++d) i.d[d].assign(((double**)c)[d], ((double**)c)[d] + nn); opts(i, o); if (zl) i.ref = zl; return 0; }
int DBPutZonelist2(DBfile* f, const char* n, int nz, int nd, const int* nl, int ln, int org, int, int, const int* st, const int*, const int* sc, int ns, const DBoptlist*) { Item& i = put(f, n, "zones"); i.n[0] = nz; i.n[1] = nd; vp_assert(org == 0, "counted from 0"); i.a[0] = ints(nl, ln); i.a[1] = ints(st, ns); i.a[2] = ints(sc, ns); return 0; }
int DBPutPHZonelist(DBfile* f, const char* n, int nf, const int* nc, int ln, const int* nl, const char* ext, int nz, const int* fc, int lf, const int* fl, int org, int lo, int hi, const DBoptlist*) { Item& i = put(f, n, "phzones"); vp_assert(org == 0, "counted from 0"); i.n[0] = nz; i.n[1] = lo; i.n[2] = hi; i.a[0] = ints(nc, nf); i.a[1] = ints(nl, ln); for (int k = 0; k < nf; ++k) i.a[2].push_back(ext[k]); i.a[3] = ints(fc, nz); i.a[4] = ints(fl, lf); return 0; }
int DBPutFacelist(DBfile* f, const char* n, int nf, int nd, const int* nl, int ln, int, const int*, const int*, const int*, int, const int*, const int*, int) { Item& i = put(f, n, "facelist"); i.n[0] = nf; i.n[1] = nd; i.a[0] = ints(nl, ln); return 0; }
int DBPutCompoundarray(DBfile* f, const char* n, char const* const* en, const int* el, int ne, const void* v, int nv, int t, const DBoptlist*) { Item& i = put(f, n, "compound"); vp_assert(t == DB_INT, "integers"); for (int k = 0; k < ne; ++k) i.names.push_back(en[k]); i.a[0] = ints(el, ne); i.a[1] = ints(v, nv); return 0; }
int DBPutUcdvar1(DBfile* f, const char* n, const char* m, DBVCP1_t v, int ne, DBVCP1_t, int, int t, int cent, const DBoptlist* o) { Item& i = put(f, n, "var"); vp_assert(t == DB_DOUBLE, "doubles"); i.n[0] = cent; i.d[0].assign((const double*)v, (const double*)v + ne); opts(i, o); i.ref = m; return 0; }
int DBPutMultimesh(DBfile* f, const char* n, int c, char const* const* nm, const int* ty, const DBoptlist* o) { Item& i = put(f, n, "multimesh"); for (int k = 0; k < c; ++k) { i.names.push_back(nm[k]); vp_assert(ty[k] == DB_UCDMESH, "meshes"); } opts(i, o); return 0; }
int DBPutMultivar(DBfile* f, const char* n, int c, char const* const* nm, const int* ty, const DBoptlist* o) { Item& i = put(f, n, "multivar"); for (int k = 0; k < c; ++k) { i.names.push_back(nm[k]); vp_assert(ty[k] == DB_UCDVAR, "variables"); } opts(i, o); return 0; }
DIR* opendir(const char* n) { if (!folders.count(n)) return 0; ++opendirs; return (DIR*)&opendirs; }
int closedir(DIR* d) { vp_assert(d == (DIR*)&opendirs && opendirs > 0, "folders are closed once"); --opendirs; return 0; }
int mkdir(const char* n, mode_t) { if (!*n || folders.count(n)) return -1; vp_assert(folders.count(parent(n)), "folders are made in folders that exist"); folders.insert(n); return 0; }
}
static Tessellation<VPD, double>* mesh[4]; static MF F[4][4]; static MT T[4][4]; static const char* FN[4][2] = {{"a", "nn"}, {"b", "ee"}, {"c", "ff"}, {"d", "cc"}}; static const char* TN[4] = {"node_tags", "edge_tags", "face_tags", "cell_tags"}; static const int CENT[4] = {DB_NODECENT, DB_EDGECENT, DB_FACECENT, DB_ZONECENT};
static std::string pre, dir; static int cyc, files, over; static double tim; static bool eager;
static void rank(void* p) { const int r = (long)p; typedef SiloWriter<VPD, double> W; const Tessellation<VPD, double>& m = *mesh[r]; MF* f = F[r]; MT* t = T[r];
  if (over == 0) W::write(m, f[0], t[0], f[1], t[1], f[2], t[2], f[3], t[3], pre, dir, cyc, tim, MPI_COMM_WORLD, files, 5); else if (over == 1) W::write(m, f[0], f[1], f[2], f[3], pre, dir, cyc, tim, MPI_COMM_WORLD, files); else if (over == 2) W::write(m, f[0], f[1], f[2], f[3], pre, cyc, tim, MPI_COMM_WORLD, files); else if (over == 3) W::write(m, f[0], f[1], f[2], f[3], pre, dir, MPI_COMM_WORLD, files); else W::write(m, f[0], f[1], f[2], f[3], pre, MPI_COMM_WORLD, files); }
static Item& at(File* f, const std::string& p, const char* kind) { vp_assert(f->items.count(p), (std::string("file has its ") + kind).c_str()); Item& i = f->items[p]; vp_assert(i.kind == kind, kind); return i; }
static void meta(const Item& i) { vp_assert(i.hasCycle == (cyc >= 0) && (!i.hasCycle || i.cycle == cyc), "cycle"); if (tim == -FLT_MAX) vp_assert(!i.hasTime, "no time"); else vp_assert(i.hasTime && sameBits(i.time, tim), "time"); }
static bool eqd(const V& a, const double* b, size_t n) { if (a.size() != n) return false; bool r = true; for (size_t i = 0; i < n; ++i) r &= sameBits(a[i], b[i]); return r; }
// everything of one rank in its folder of its file
static void domain(File* f, const std::string& at0, int r) {
  const Tessellation<VPD, double>& m = *mesh[r]; const int nn = m.nodes.size() / VPD, nc = m.cells.size(), nf = m.faces.size(); Item& i = at(f, at0 + "mesh", "mesh"); vp_assert(i.n[0] == VPD && i.n[1] == nn && i.n[2] == nc && i.ref == "mesh_zonelist", "mesh sizes"); meta(i);
  bool ok = true; for (int k = 0; k < nn; ++k) for (int d = 0; d < VPD; ++d) ok &= sameBits(i.d[d][k], m.nodes[VPD*k+d]); vp_assert(ok, "node coordinates");
#if VPD == 2
  Item& z = at(f, at0 + "mesh_zonelist", "zones"); VI want; for (int c = 0; c < nc; ++c) { want.push_back(m.cells[c].size() + 1); for (size_t j = 0; j <= m.cells[c].size(); ++j) { const int k = m.cells[c][j % m.cells[c].size()]; want.push_back(m.faces[k < 0 ? ~k : k][k < 0]); } } vp_assert(z.n[0] == nc && z.n[1] == 2 && eqv(z.a[0], want), "nodes around each cell"); vp_assert(eqv(z.a[1], VI(nc, DB_ZONETYPE_POLYGON)) && eqv(z.a[2], VI(nc, 1)), "polygonal zones");
  Item& b = at(f, at0 + "boundary_faces", "facelist"); VI bw; for (unsigned q : m.boundaryFaces) { bw.push_back(m.faces[q][0]); bw.push_back(m.faces[q][1]); } vp_assert(b.n[0] == (int)m.boundaryFaces.size() && eqv(b.a[0], bw), "boundary faces");
#else
  Item& z = at(f, at0 + "mesh_zonelist", "phzones"); VI fn, fl, ex(nf, 0), cn, cl; for (auto& q : m.faces) { fn.push_back(q.size()); fl.insert(fl.end(), q.begin(), q.end()); } for (auto& c : m.cells) { cn.push_back(c.size()); cl.insert(cl.end(), c.begin(), c.end()); } for (unsigned q : m.boundaryFaces) ex[q] = 1;
  vp_assert(z.n[0] == nc && z.n[1] == 0 && z.n[2] == nc - 1 && eqv(z.a[0], fn) && eqv(z.a[1], fl) && eqv(z.a[3], cn) && eqv(z.a[4], cl), "faces and cells"); vp_assert(eqv(z.a[2], ex), "exterior flags");
#endif
  Item& c = at(f, at0 + "conn", "compound"); VI len, val; len.push_back(nc); int s = 0; for (auto& q : m.cells) { val.push_back(q.size()); s += q.size(); } len.push_back(s); len.push_back(2 * nf); for (auto& q : m.cells) for (int k : q) val.push_back(VPD == 3 && k < 0 ? ~k : k); for (auto& q : m.faceCells) { val.push_back(q[0]); val.push_back(q.size() == 2 ? q[1] : -1); }
  vp_assert(c.names.size() == 3 && c.names[0] == "ncellfaces" && c.names[1] == "cellfaces" && c.names[2] == "facecells", "connectivity arrays"); vp_assert(eqv(c.a[0], len), "and their lengths"); vp_assert(eqv(c.a[1], val), "cell-face connectivity");
  Item& h = at(f, at0 + "convexhull", "compound"); VI hl{1, (int)m.convexHull.facets.size(), 0}, hv{(int)m.convexHull.facets.size()}; for (auto& q : m.convexHull.facets) hv.push_back(q.size()), hl[2] += q.size(); for (auto& q : m.convexHull.facets) hv.insert(hv.end(), q.begin(), q.end()); vp_assert(eqv(h.a[0], hl) && eqv(h.a[1], hv), "convex hull");
  for (int k = 0; k < 4; ++k) {
    const int ne = k == 0 ? nn : k == 3 ? nc : nf; for (auto& e : F[r][k]) { Item& v = at(f, at0 + e.first, "var"); vp_assert(v.n[0] == CENT[k] && v.ref == "mesh", "field centering"); vp_assert(eqd(v.d[0], e.second, ne), "field values"); meta(v); }
    if (over || T[r][k].empty()) { vp_assert(!f->items.count(at0 + TN[k]), "no tags"); continue; }
    Item& t = at(f, at0 + TN[k], "compound"); VI tl, tv; VS tn; for (auto& e : T[r][k]) { tn.push_back(e.first); tl.push_back(e.second->size()); tv.insert(tv.end(), e.second->begin(), e.second->end()); } vp_assert(t.names == tn, "tags under their names"); vp_assert(eqv(t.a[0], tl) && eqv(t.a[1], tv), "tag entries");
  }
}
static int who(File* f, const std::string& p) { Item& i = at(f, p, "mesh"); for (int r = 0; r < VPR; ++r) if (i.d[0].size() && i.d[0][0] == r + 1) return r; return -1; }
static void make(int r, Tessellation<VPD, double>& m, bool full) {
  const int nn = 3; for (int k = 0; k < VPD * nn; ++k) m.nodes.push_back(k ? vp_anydouble("x") : r + 1.0);
  auto node = [&](const char* n) { return (unsigned)vp_int(n, 0, nn - 1); }; m.faces = {{node("fn"), node("fn")}, {0, node("fn")}, {1, 2}}; if (VPD == 3) m.faces[1].push_back(1);
  for (int c = 0; c < 1 + full; ++c) { m.cells.push_back(VI()); for (int j = 0; j < 2; ++j) m.cells[c].push_back(j == c ? c ? ~1 : (int)vp_conc(vp_int("cf", -2, 1)) : ~2); }
  for (int k = 0; k < 3; ++k) { m.faceCells.push_back(VI{(int)vp_int("fc", 0, 1)}); if (k != 1) m.faceCells[k].push_back((int)vp_int("fc", -3, -2)); } m.boundaryFaces = {1, 0}; if (!full) m.boundaryFaces.pop_back();
  if (full) m.convexHull.facets = {{(int)node("h"), 1}, {2, 0}};
  for (int k = 0; k < 4; ++k) { const int ne = k == 0 ? nn : k == 3 ? m.cells.size() : m.faces.size(), nfld = k == VPV ? 2 : 1; for (int j = 0; j < nfld; ++j) { double* v = new double[ne]; for (int q = 0; q < ne; ++q) v[q] = r + 10 * k + q + 0.5; v[ne-1] = vp_anydouble("v"); F[r][k][FN[k][j]] = v; } if (full) for (int j = 0; j < nfld; ++j) T[r][k][FN[k][j]] = new VI(j ? 0 : 2, (int)vp_int("tag", -5, 5)); }
}
extern "C" void h_silo() {
  folders.insert("."); over = vp_len("overload", 0, VPV == 0 ? 4 : 0); pre = vp_bool("suffix") ? "m.silo" : "m"; dir = vp_bool("dir") ? "out" : ""; if (!dir.empty() && vp_bool("exists")) folders.insert(dir); const int CY[2] = {-1, 12}; cyc = CY[vp_len("cycle", 0, 1)]; tim = vp_anydouble("time"); vp_assume(tim == tim); files = vp_len("files", -1, VPR); vp_assume(files != 0);
  Tessellation<VPD, double> M[VPR]; for (int r = 0; r < VPR; ++r) { make(r, M[r], r == 0 && VPV < 4); mesh[r] = &M[r]; } eager = true; mpim_init(VPR, 1); for (int r = 0; r < VPR; ++r) vp_thread(rank, (void*)(long)r); while (vp_alive() > 0) vp_yield(); mpim_finish();
  if (over == 2 || over == 4) dir = ""; if (over >= 3) { cyc = -1; tim = -FLT_MAX; } const int nfile = files == -1 ? VPR : files; vp_assert(opendirs == 0, "folders are closed"); for (auto& e : disk) vp_assert(e.second->open == 0, "files are closed");
  const std::string root = dir.empty() ? pre + "-" + char('0' + VPR) : dir, name = cyc < 0 ? "m.silo" : "m-12.silo"; vp_assert(disk.count(root + "/" + name), "the master file has the documented place and name"); vp_assert((int)disk.size() == nfile + 1, "one file per group and the master file");
  File* top = disk[root + "/" + name]; Item& mm = at(top, "/mesh", "multimesh"); meta(mm); vp_assert((int)mm.names.size() == VPR, "the master file lists every rank's mesh"); VI seen(VPR, 0), order;
  auto split = [&](const std::string& n, File*& f, std::string& p) { const size_t k = n.find(":"); vp_assert(k != std::string::npos && disk.count(root + "/" + n.substr(0, k)), "listed files exist"); f = disk[root + "/" + n.substr(0, k)]; p = n.substr(k + 1); };
  for (auto& n : mm.names) { File* f; std::string p; split(n, f, p); const int r = who(f, p); vp_assert(r >= 0 && !seen[r], "every mesh is listed once"); seen[r] = 1; order.push_back(r); domain(f, p.substr(0, p.size() - 4), r); }
  for (int k = 0; k < 4; ++k) for (auto& e : F[0][k]) { Item& mv = at(top, "/" + e.first, "multivar"); vp_assert((int)mv.names.size() == VPR, "the master file lists every rank's field"); for (int j = 0; j < VPR; ++j) { File* f; std::string p; split(mv.names[j], f, p); Item& v = at(f, p, "var"); const int r = order[j]; vp_assert(sameBits(v.d[0][0], F[r][k][e.first][0]) && parent(p) + "/" + e.first == p && who(f, parent(p) + "/mesh") == r, "in the order of the meshes"); } }
  int sum = 0; for (auto& e : disk) if (e.second != top) { Item& g = at(e.second, "/mesh", "multimesh"); VI s2(VPR, 0); sum += g.names.size(); for (auto& n : g.names) { const int r = who(e.second, "/" + n); vp_assert(r >= 0 && !s2[r], "each file lists its meshes once"); s2[r] = 1; } for (int k = 0; k < 4; ++k) for (auto& q : F[0][k]) { Item& mv = at(e.second, "/" + q.first, "multivar"); vp_assert(mv.names.size() == g.names.size(), "and its fields"); for (auto& n : mv.names) at(e.second, "/" + n, "var"); } } vp_assert(sum == VPR, "each file lists all its meshes");
  for (int r = 0; r < VPR; ++r) for (int k = 0; k < 4; ++k) { for (auto& e : F[r][k]) delete[] e.second; for (auto& e : T[r][k]) delete e.second; } vp_cover("end");
}
