// Path-forking symbolic executor over LLVM bitcode.
#include "ir.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <set>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

// ---------------------------------------------------------------- shared control
struct Shared { volatile int idle; volatile int stop; volatile uint64_t paths, samples, violations, steps; volatile int fatal; };
static Shared* SH; static std::string gOut; static double gDeadline = 1e18; static int gMaxSamples = 40, gMaxViol = 6;
static bool gIncomplete = false; static std::string gIncompleteWhy;
static uint64_t gStepLimit = 400000000ull; static bool gTrace = false; static bool gNoPar = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void outLine(const std::string& s) {
  int fd = open(gOut.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); flock(fd, LOCK_EX); std::string t = s + "\n";
  size_t o = 0; while (o < t.size()) { ssize_t k = write(fd, t.data() + o, t.size() - o); if (k <= 0) break; o += k; } flock(fd, LOCK_UN); close(fd);
}
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string gWhere();
[[noreturn]] void engineFatal(const std::string& m) {
  fprintf(stderr, "ENGINE-FATAL: %s\n%s\n", m.c_str(), gWhere().c_str());
  if (SH) { SH->fatal = 1; SH->stop = 1; }
  if (!gOut.empty()) outLine("{\"t\":\"fatal\",\"msg\":" + jstr(m + " @ " + gWhere()) + "}");
  _exit(3);
}
static void incomplete(const std::string& w) { if (!gIncomplete) { gIncomplete = true; gIncompleteWhy = w; } }

// ---------------------------------------------------------------- memory
enum OK_ : uint8_t { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWA, K_FUNC };
struct Cell { uint8_t n; Val v; };
struct Obj { int refs = 1; uint32_t size = 0; uint8_t kind = 0; bool freed = false, ro = false; uint32_t dl = 0; std::vector<uint8_t> d; std::map<uint32_t, Cell> sym; };
static const unsigned PS = 32, HEAPR = 17; static const uint32_t HEAP0 = HEAPR << 20;
struct Page { int refs = 1; Obj* o[PS]; };
static Obj* deadObj;
struct Mem {
  std::vector<Page*> reg[HEAPR + 1];
  uint32_t nHeap = 0;
  Mem() {}
  Mem(const Mem& m): nHeap(m.nHeap) { for (unsigned i = 0; i <= HEAPR; ++i) { reg[i] = m.reg[i]; for (Page* p : reg[i]) if (p) p->refs++; } }
  ~Mem() { for (auto& r : reg) for (Page* p : r) if (p) drop(p); }
  static void dropO(Obj* o) { if (o && --o->refs == 0) delete o; }
  static void drop(Page* p) { if (--p->refs == 0) { for (Obj* o : p->o) dropO(o); delete p; } }
  static unsigned region(uint32_t id) { unsigned r = id >> 20; return r < HEAPR ? r : HEAPR; }
  Obj* get(uint32_t id) const { unsigned r = region(id); uint32_t i = id - (r << 20); uint32_t p = i / PS; if (p >= reg[r].size() || !reg[r][p]) return nullptr; return reg[r][p]->o[i % PS]; }
  Obj*& slot(uint32_t id) {
    unsigned r = region(id); uint32_t i = id - (r << 20), p = i / PS;
    if (p >= reg[r].size()) reg[r].resize(p + 1, nullptr);
    Page*& pg = reg[r][p];
    if (!pg) { pg = new Page(); memset(pg->o, 0, sizeof pg->o); }
    else if (pg->refs > 1) { Page* n = new Page(); for (unsigned k = 0; k < PS; ++k) { n->o[k] = pg->o[k]; if (n->o[k]) n->o[k]->refs++; } pg->refs--; pg = n; }
    return pg->o[i % PS];
  }
  Obj* getW(uint32_t id) {
    Obj* o = get(id); if (!o) return nullptr;
    unsigned r = region(id); uint32_t i = id - (r << 20); Page* pg = reg[r][i / PS];
    if (pg->refs == 1 && o->refs == 1) return o;
    Obj*& s = slot(id);
    if (s->refs > 1) { Obj* n = new Obj(*s); n->refs = 1; s->refs--; s = n; }
    return s;
  }
  void set(uint32_t id, Obj* o) { Obj*& s = slot(id); Obj* old = s; s = o; dropO(old); }
};

struct Frame { Func* f; uint32_t pc, base; int32_t retDst; uint32_t retN, stackMark; };
struct Thread { std::vector<Val> regs; std::vector<Frame> fr; uint32_t sp = 0; bool done = false, started = false; };
struct Inp { std::string key; Expr* e; int kind; int sc; };   // kind 0 int, 1 grid, 2 bits
struct State {
  std::vector<Thread> th; int cur = 0; Mem mem; std::vector<Expr*> pc; MP model; std::vector<Inp> inputs; std::map<std::string, int> names;
  std::vector<std::pair<Expr*, uint64_t>> known; uint64_t steps = 0; std::vector<Val> obs; std::vector<std::string> covers; uint32_t forks = 0; uint64_t baseFr = 0;
  std::unordered_map<std::string, uint64_t> kv;
};
static State* gCur = nullptr;
static std::deque<State*> work;
static std::map<std::string, uint64_t> gCovers; static uint64_t gAsserts = 0, gAssertQ = 0, gForks = 0, gBranches = 0, gPaths = 0, gKilled = 0, gSteps = 0, gConcs = 0;
static std::map<std::string, uint64_t> gAssertLabels, gConcWhy;
static std::string stackOf(State& S) {
  std::string s; auto& T = S.th[S.cur];
  for (int i = (int)T.fr.size() - 1; i >= 0 && i > (int)T.fr.size() - 14; --i) { auto& f = T.fr[i]; s += "  #" + std::to_string(T.fr.size() - 1 - i) + " " + f.f->name.substr(0, 120) + " " + (f.pc < f.f->code.size() ? gDLs[f.f->code[f.pc].dl] : "") + "\n"; }
  return s;
}
static std::string gWhere() { return gCur && !gCur->th.empty() ? stackOf(*gCur) : ""; }

static State* cloneS(State& S) { State* n = new State(S); n->forks++; gForks++; return n; }

static std::string inputsJson(State& S, const Model& m) {
  std::string s = "[";
  for (auto& i : S.inputs) {
    u128 v = evalE(i.e, m); std::string val;
    if (i.kind == 2) { char b[32]; snprintf(b, 32, "0x%016llx", (unsigned long long)v); val = b; } else val = i128str(i.e->w == 1 ? (i128)v : sextW(v, i.e->w));
    if (s.size() > 1) s += ","; s += "[" + jstr(i.key) + "," + jstr(val) + "]";
  }
  return s + "]";
}
static std::string userLoc(State& S) {   // innermost frame in /repo
  auto& T = S.th[S.cur];
  for (int i = (int)T.fr.size() - 1; i >= 0; --i) { auto& f = T.fr[i]; std::string d = f.pc < f.f->code.size() ? gDLs[f.f->code[f.pc].dl] : ""; if (d.find("/src/") != std::string::npos && d.find("/usr/") == std::string::npos) return d; }
  return "";
}
static void report(State& S, const std::string& kind, const std::string& label, const MP& m) {
  static std::map<std::string, int> cnt;
  std::string loc = userLoc(S);
  int c = cnt[kind + "|" + label + "|" + loc]++;
  if (c < 3) {
    __sync_fetch_and_add(&SH->violations, 1);
    outLine("{\"t\":\"viol\",\"kind\":" + jstr(kind) + ",\"label\":" + jstr(label) + ",\"loc\":" + jstr(loc) + ",\"inputs\":" + inputsJson(S, *m) + ",\"stack\":" + jstr(stackOf(S)) + "}");
    if ((int)SH->violations >= gMaxViol) SH->stop = 2;
  }
}

struct KillPath {};      // thrown to end the current path
struct Violate { std::string kind, label; };

static bool inPC(State& S, Expr* c) { for (size_t i = S.pc.size(); i-- > 0;) if (S.pc[i] == c) return true; return false; }
static void addPC(State& S, Expr* c) { if (!isC(c)) S.pc.push_back(c); }
static void pushState(State* s) { work.push_back(s); }

// Decide a condition on the current path, forking when both outcomes are feasible.
static bool decide(State& S, Expr* c) {
  if (isC(c)) return c->cv;
  if (inPC(S, c)) return true;
  Expr* nc = mkNot(c); if (inPC(S, nc)) return false;
  gBranches++;
  fixTies(S.model, c);
  bool b = evalE(c, *S.model);
  Expr* other = b ? nc : c; MP m2;
  SR r = solve(S.pc, other, m2, S.model.get());
  if (r == UNK) incomplete("solver timeout on a branch");
  if (r == SAT) { if (getenv("VP_DBGU")) fprintf(stderr, "branch in %s\n", stackOf(S).c_str()); State* n = cloneS(S); n->model = m2; addPC(*n, other); pushState(n); addPC(S, b ? c : nc); }
  else if (r == UNSAT) addPC(S, b ? c : nc);   // implied: recorded to avoid re-asking
  return b;
}
static uint64_t concE(State& S, Expr* e) {
  if (isC(e)) return (uint64_t)e->cv;
  for (size_t i = S.known.size(); i-- > 0;) if (S.known[i].first == e) return S.known[i].second;
  fixTies(S.model, e);
  u128 v = evalE(e, *S.model);
  Expr* eq = mkBin(E_EQ, e, mkConst(v, e->w));
  if (!isC(eq)) {
    if (!inPC(S, eq)) {
      MP m2; SR r = solve(S.pc, mkNot(eq), m2, S.model.get());
      if (r == UNK) incomplete("solver timeout on a value split");
      if (r == SAT) { if (getenv("VP_DBGU")) fprintf(stderr, "split in %s\n", stackOf(S).c_str()); State* n = cloneS(S); n->model = m2; addPC(*n, mkNot(eq)); pushState(n); gConcs++; }
      addPC(S, eq);
    }
  }
  S.known.push_back({e, (uint64_t)v});
  return (uint64_t)v;
}
static uint64_t conc(State& S, Val v, const char* why = "") {
  if (v.conc()) return v.c;
  if (v.isR() && v.r()->ld) engineFatal(std::string("bits of a long double: ") + why);
  if (v.isE()) return concE(S, v.e());
  gConcWhy[why]++;
  std::vector<uint32_t> sup; supportVars(v, sup); std::sort(sup.begin(), sup.end()); sup.erase(std::unique(sup.begin(), sup.end()), sup.end());
  for (uint32_t x : sup) if (!gVars[x].isU) concE(S, gVars[x].e);
  fixTiesR(S.model, v);
  return fromD(evalR(v, *S.model));
}
static Expr* toE(State& S, Val v, unsigned w) {
  if (v.conc()) return mkConst(v.c & (w >= 64 ? ~0ull : ((1ull << w) - 1)), w);
  if (v.isR() && w == 64) { std::vector<uint32_t> vs; supportVars(v, vs); if (!vs.empty() && tabDomain(vs)) { static std::unordered_map<uint32_t, Expr*> memo; Expr*& e = memo[v.r()->id]; if (!e) e = tabValue(vs, 64, [&](const Model& m) { return (u128)fromD(evalR(v, m)); }); return e; } }
  if (v.isR()) { if (getenv("VP_DBGU")) { fprintf(stderr, "int-op w %u in %s\n", w, stackOf(S).c_str()); } return mkConst(conc(S, v, "int-op"), w); }
  Expr* e = v.e(); if (e->w != w) engineFatal("expression width"); return e;
}
static inline uint64_t mk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

// ---- objects
static uint64_t heapAlloc(State& S, uint64_t size, uint8_t kind, int fill, uint32_t dl) {
  if (size > (1ull << 30)) throw Violate{"memory", "allocation of " + std::to_string(size) + " bytes"};
  uint32_t id = HEAP0 + S.mem.nHeap++; Obj* o = new Obj(); o->size = size; o->kind = kind; o->dl = dl; o->d.assign(size, (uint8_t)fill); S.mem.set(id, o); return (uint64_t)id << 32;
}
static uint64_t stackAlloc(State& S, uint64_t size) {
  Thread& T = S.th[S.cur]; uint32_t id = ((uint32_t)(S.cur + 1) << 20) + T.sp++; if (T.sp >= (1u << 20)) throw Violate{"memory", "stack overflow"};
  Obj* o = new Obj(); o->size = size; o->kind = K_STACK; o->d.assign(size, 0xbe); S.mem.set(id, o); return (uint64_t)id << 32;
}
static void stackPop(State& S, uint32_t mark) {
  Thread& T = S.th[S.cur]; while (T.sp > mark) { --T.sp; uint32_t id = ((uint32_t)(S.cur + 1) << 20) + T.sp; deadObj->refs++; S.mem.set(id, deadObj); }
}
static void memErr(const std::string& what, uint64_t addr, uint64_t n, Obj* o) {
  std::string s = what; (void)addr; (void)n; if (o && !o->freed) s += " (object of " + std::to_string(o->size) + " bytes, offset " + std::to_string((int32_t)addr) + ", access " + std::to_string(n) + ")";
  throw Violate{"memory", s};
}
static Obj* check(State& S, uint64_t addr, uint64_t n, bool w) {
  uint32_t id = addr >> 32, off = (uint32_t)addr; Obj* o = id ? S.mem.get(id) : nullptr;
  if (!o) memErr(id == 0 ? "null or wild pointer access" : "access through invalid pointer", addr, n, nullptr);
  if (o->freed) memErr(o->kind == K_STACK ? "use after scope" : "use after free", addr, n, o);
  if ((uint64_t)off + n > o->size) memErr(w ? "out-of-bounds write" : "out-of-bounds read", addr, n, o);
  if (o->kind == K_FUNC) memErr("data access to code", addr, n, o);
  if (w && o->ro) memErr("write to constant", addr, n, o);
  return w ? S.mem.getW(id) : o;
}
// first symbolic cell overlapping [off,off+n)
static std::map<uint32_t, Cell>::iterator firstSym(Obj* o, uint32_t off) {
  auto it = o->sym.lower_bound(off); if (it != o->sym.begin()) { auto p = std::prev(it); if (p->first + p->second.n > off) return p; } return it;
}
static void clearSym(State& S, Obj* o, uint32_t off, uint32_t n) {
  if (o->sym.empty()) return;
  auto it = firstSym(o, off);
  while (it != o->sym.end() && it->first < off + n) {
    uint32_t co = it->first; Cell c = it->second;
    if (c.v.isR() && !(co >= off && co + c.n <= off + n)) { uint64_t b = conc(S, c.v, "partial-overwrite"); it = o->sym.erase(it); memcpy(&o->d[co], &b, 8); continue; }
    it = o->sym.erase(it);
    if (co >= off && co + c.n <= off + n) continue;
    for (unsigned k = 0; k < c.n; ++k) if (co + k < off || co + k >= off + n) { Expr* b = mkExtract(c.v.e(), 8 * k, 8); if (isC(b)) o->d[co + k] = (uint8_t)b->cv; else o->sym[co + k] = Cell{1, Val::E(b)}; }
    it = o->sym.lower_bound(off);
  }
}
static Val loadV(State& S, uint64_t addr, unsigned w) {
  unsigned n = (w + 7) / 8; Obj* o = check(S, addr, n, false); uint32_t off = (uint32_t)addr;
  if (!o->sym.empty()) {
    auto it = firstSym(o, off);
    if (it != o->sym.end() && it->first < off + n) {
      if (it->first == off && it->second.n == n) {
        Val v = it->second.v; if (v.isR()) return v; Expr* e = v.e(); return Val::E(e->w == w ? e : mkExtract(e, 0, w)); }
      // general byte assembly
      Expr* r = nullptr;
      for (unsigned k = 0; k < n; ++k) {
        Expr* b; auto q = firstSym(o, off + k);
        if (q != o->sym.end() && q->first <= off + k) {
          if (q->second.v.isR()) { uint64_t bits = conc(S, q->second.v, "partial-load"); uint32_t co = q->first; o = S.mem.getW(addr >> 32); o->sym.erase(co); memcpy(&o->d[co], &bits, 8); b = mkConst(o->d[off + k], 8); }
          else b = mkExtract(q->second.v.e(), 8 * (off + k - q->first), 8);
        } else b = mkConst(o->d[off + k], 8);
        r = r ? mkConcat(b, r) : b;
      }
      return Val::E(r->w == w ? r : mkExtract(r, 0, w));
    }
  }
  if (w == 80) { long double x = 0; memcpy(&x, &o->d[off], 10); return ldConst(x); }
  uint64_t v = 0; memcpy(&v, &o->d[off], n); return Val(v & mk(w));
}
static void storeV(State& S, uint64_t addr, unsigned w, Val v) {
  unsigned n = (w + 7) / 8; Obj* o = check(S, addr, n, true); uint32_t off = (uint32_t)addr;
  if (!o->sym.empty()) { clearSym(S, o, off, n); }
  if (w == 80) { if (v.conc() && v.c == 0) v = ldConst(0); if (isLdConst(v)) { long double x = v.r()->lval; memcpy(&o->d[off], &x, 10); return; } o->sym[off] = Cell{10, v}; return; }
  if (v.conc()) { memcpy(&o->d[off], &v.c, n); return; }
  if (v.isE() && v.e()->w != 8 * n) v = Val::E(mkZExt(v.e(), 8 * n));
  if (v.conc()) { memcpy(&o->d[off], &v.c, n); return; }
  o->sym[off] = Cell{(uint8_t)n, v};
}
static void copyMem(State& S, uint64_t dst, uint64_t src, uint64_t n) {
  if (n == 0) return;
  Obj* so = check(S, src, n, false); uint32_t s = (uint32_t)src, d = (uint32_t)dst;
  std::vector<uint8_t> tmp(so->d.begin() + s, so->d.begin() + s + n); std::vector<std::pair<uint32_t, Cell>> cells;
  if (!so->sym.empty()) for (auto it = firstSym(so, s); it != so->sym.end() && it->first < s + n; ++it) {
    uint32_t co = it->first; Cell c = it->second;
    if (co >= s && co + c.n <= s + n) cells.push_back({co - s, c});
    else if (c.v.isR()) { uint64_t b = conc(S, c.v, "partial-copy"); for (unsigned k = 0; k < c.n; ++k) if (co + k >= s && co + k < s + n) tmp[co + k - s] = (uint8_t)(b >> (8 * k)); }
    else for (unsigned k = 0; k < c.n; ++k) if (co + k >= s && co + k < s + n) { Val bv = Val::E(mkExtract(c.v.e(), 8 * k, 8)); if (bv.conc()) tmp[co + k - s] = bv.c; else cells.push_back({co + k - s, Cell{1, bv}}); }
  }
  Obj* o = check(S, dst, n, true); clearSym(S, o, d, n); memcpy(&o->d[d], tmp.data(), n); for (auto& c : cells) o->sym[d + c.first] = c.second;
}
static std::string cstr(State& S, uint64_t p) { std::string s; for (;; ++p) { Val v = loadV(S, p, 8); char c = (char)conc(S, v, "string"); if (!c) return s; s += c; if (s.size() > 100000) return s; } }

// ---------------------------------------------------------------- arithmetic helpers
static Expr* dblLtBits(Expr* a, Expr* b, bool orEq) {
  auto nan = [](Expr* x) { return mkBin(E_ULT, mkConst(0x7ff0000000000000ull, 64), mkBin(E_AND, x, mkConst(0x7fffffffffffffffull, 64))); };
  auto isz = [](Expr* x) { return mkBin(E_EQ, mkBin(E_AND, x, mkConst(0x7fffffffffffffffull, 64)), mkConst(0, 64)); };
  auto key = [](Expr* x) { return mkIte(mkBin(E_SLT, x, mkConst(0, 64)), mkBin(E_XOR, x, mkConst(0x7fffffffffffffffull, 64)), x); };
  Expr* ok = mkAnd(mkNot(nan(a)), mkNot(nan(b))); Expr* bz = mkAnd(isz(a), isz(b));
  Expr* r = mkBin(E_SLT, key(a), key(b)); r = mkAnd(r, mkNot(bz)); if (orEq) r = mkOr(r, mkOr(mkBin(E_EQ, a, b), bz)); return mkAnd(ok, r);
}
static Expr* dblUno(Expr* a, Expr* b) { auto nan = [](Expr* x) { return mkBin(E_ULT, mkConst(0x7ff0000000000000ull, 64), mkBin(E_AND, x, mkConst(0x7fffffffffffffffull, 64))); }; return mkOr(nan(a), nan(b)); }
static bool fcmpD(unsigned p, double a, double b) { return ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b) || ((p & 8) && (a != a || b != b)); }
// ---- extended precision
static Val concL(State& S, Val v) {
  if (isLdConst(v)) return v; gConcWhy["long double"]++;
  std::vector<uint32_t> sup; supportVars(v, sup); std::sort(sup.begin(), sup.end()); sup.erase(std::unique(sup.begin(), sup.end()), sup.end());
  for (uint32_t x : sup) if (!gVars[x].isU) concE(S, gVars[x].e);
  fixTiesR(S.model, v); return ldConst(evalRL(v, *S.model));
}
static Val asL(Val v) { if (v.isR() && v.r()->ld) return v; if (v.conc() && v.c == 0) return ldConst(0); engineFatal("long double operand"); }
static bool smallL(const Val& a, const Val& b, Expr* c = nullptr) { std::vector<uint32_t> vs; supportVars(a, vs); supportVars(b, vs); if (c) supportVarsE(c, vs); return tabDomain(vs); }
static Val lop(State& S, RO op, Val a, Val b, long double (*f)(long double) = nullptr) {
  a = asL(a); const bool bin = op == R_ADD || op == R_SUB || op == R_MUL || op == R_DIV; if (bin) b = asL(b);
  if (!smallL(a, b)) { a = concL(S, a); if (bin) b = concL(S, b); }
  LReal* r = ldNode(op, a, b, op != R_LTOD); r->lfn1 = f; Val v = Val::R(r);
  if (isLdConst(a) && (!bin || isLdConst(b))) { Model m; return op == R_LTOD ? Val(fromD((double)a.r()->lval)) : ldConst(evalRL(v, m)); }
  return v;
}
static bool fcmpL(unsigned p, long double x, long double y) { bool u = x != x || y != y; if (u) return p & 8; return ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y); }
static Val lcmp(State& S, unsigned p, Val a, Val b) {
  a = asL(a); b = asL(b); if (!smallL(a, b)) { a = concL(S, a); b = concL(S, b); }
  if (isLdConst(a) && isLdConst(b)) return Val(fcmpL(p, a.r()->lval, b.r()->lval));
  std::vector<uint32_t> vs; supportVars(a, vs); supportVars(b, vs); tabDomain(vs); return Val::E(tabPred(vs, [&](const Model& m) { return fcmpL(p, evalRL(a, m), evalRL(b, m)); }));
}
static Val wrapD(Val a) { if (!a.isE()) return a; Val ov; if (a.e()->w == 64 && opqFn(R_FN1, a, Val(), [](double x) { return x; }, nullptr, ov)) return ov; return a; }   // bits of few inputs used as a double
static Val fcmp(State& S, unsigned p, Val a, Val b, unsigned w) {
  if (w == 80) return lcmp(S, p, a, b);
  if (a.conc() && b.conc()) { if (w == 32) { float x, y; memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4); return Val(fcmpD(p, x, y)); } return Val(fcmpD(p, toD(a.c), toD(b.c))); }
  if (w == 32) { float x, y; uint64_t ca = conc(S, a, "float32"), cb = conc(S, b, "float32"); memcpy(&x, &ca, 4); memcpy(&y, &cb, 4); return Val(fcmpD(p, x, y)); }
  if (w == 64 && (a.isR() || b.isR())) { a = wrapD(a); b = wrapD(b); }
  if (a.isR() || b.isR()) {
    if (a.isE() || b.isE()) { uint64_t x = conc(S, a, "opaque-cmp"), y = conc(S, b, "opaque-cmp"); return Val(fcmpD(p, toD(x), toD(y))); }
    if (isOpq(a) || isOpq(b)) { Expr* e; if (opqPred(a, b, [p](double x, double y) { return fcmpD(p, x, y); }, e)) return Val::E(e); uint64_t x = conc(S, a, "comparison over many inputs"), y = conc(S, b, "comparison over many inputs"); return Val(fcmpD(p, toD(x), toD(y))); }
    double k = a.conc() ? toD(a.c) : b.conc() ? toD(b.c) : 0; LReal* r = a.isR() ? a.r() : b.r(); bool cl = a.conc();
    if (a.conc() || b.conc()) {
      if (k != k) return Val((p & 8) ? 1 : 0);
      if (std::fabs(k) > r->mag + r->err) { bool big = k > 0; // k beyond every value of r
        double x = cl ? (big ? 1 : -1) : 0, y = cl ? 0 : (big ? 1 : -1); return Val(fcmpD(p, x, y)); }
    }
    try {
      Expr* e; switch (p & 7) { case 0: return Val(0); case 7: return Val(1); case 1: e = realCmp(0, a, b); break; case 6: e = mkNot(realCmp(0, a, b)); break;
        case 2: e = realCmp(1, b, a); break; case 3: e = realCmp(2, b, a); break; case 4: e = realCmp(1, a, b); break; default: e = realCmp(2, a, b); }
      return Val::E(e);
    } catch (RealUnsupported& u) { Expr* e; if (opqPred(a, b, [p](double x, double y) { return fcmpD(p, x, y); }, e)) return Val::E(e); uint64_t x = conc(S, a, u.why.c_str()), y = conc(S, b, u.why.c_str()); return Val(fcmpD(p, toD(x), toD(y))); }
  }
  Expr *x = toE(S, a, 64), *y = toE(S, b, 64); Expr* r = mkFalse();
  if ((p & 7) == 7) r = mkNot(dblUno(x, y));
  else if ((p & 7) == 6) r = mkOr(dblLtBits(x, y, false), dblLtBits(y, x, false));
  else if ((p & 7) == 1) r = mkAnd(dblLtBits(x, y, true), dblLtBits(y, x, true));
  else if ((p & 7) == 2) r = dblLtBits(y, x, false); else if ((p & 7) == 3) r = dblLtBits(y, x, true); else if ((p & 7) == 4) r = dblLtBits(x, y, false); else if ((p & 7) == 5) r = dblLtBits(x, y, true);
  if (p & 8) r = mkOr(r, dblUno(x, y));
  return Val::E(r);
}
static double fbinD(unsigned k, double a, double b) { switch (k) { case F_ADD: return a + b; case F_SUB: return a - b; case F_MUL: return a * b; case F_DIV: return a / b; default: return std::fmod(a, b); } }
static Val fbin(State& S, unsigned k, Val a, Val b, unsigned w) {
  if (w == 80) { if (k == F_REM) engineFatal("long double remainder"); return lop(S, k == F_ADD ? R_ADD : k == F_SUB ? R_SUB : k == F_MUL ? R_MUL : R_DIV, a, b); }
  if (w == 32) { float x, y; uint64_t ca = conc(S, a, "float32"), cb = conc(S, b, "float32"); memcpy(&x, &ca, 4); memcpy(&y, &cb, 4); float r = k == F_ADD ? x + y : k == F_SUB ? x - y : k == F_MUL ? x * y : k == F_DIV ? x / y : fmodf(x, y); uint64_t c = 0; memcpy(&c, &r, 4); return Val(c); }
  if (a.conc() && b.conc()) return Val(fromD(fbinD(k, toD(a.c), toD(b.c))));
  a = wrapD(a); b = wrapD(b);
  if (k != F_REM && !a.isE() && !b.isE()) {
    const RO ro = k == F_ADD ? R_ADD : k == F_SUB ? R_SUB : k == F_MUL ? R_MUL : R_DIV; Val ov;
    if ((isOpq(a) || isOpq(b)) && opqFn(ro, a, b, nullptr, nullptr, ov)) return ov;
    try {
      if (k == F_DIV) {
        Expr* z = realDenZero(b); LReal* r = asReal(b);
        if (!(isC(z) && !z->cv)) {
          if (r->err != 0) throw RealUnsupported{"division by imprecise value"};
          if (decide(S, z)) { // x / 0 (sign of zero taken as +)
            Val zero(fromD(0.0)); Val lt = fcmp(S, 4, a, zero, 64), gt = fcmp(S, 2, a, zero, 64);
            bool l = lt.conc() ? lt.c : decide(S, lt.e()); bool g = gt.conc() ? gt.c : decide(S, gt.e());
            return Val(fromD(l ? -INFINITY : g ? INFINITY : NAN));
          }
        }
      }
      return realBin(k == F_ADD ? R_ADD : k == F_SUB ? R_SUB : k == F_MUL ? R_MUL : R_DIV, a, b);
    } catch (RealUnsupported& u) { if (opqFn(ro, a, b, nullptr, nullptr, ov)) return ov; uint64_t x = conc(S, a, u.why.c_str()), y = conc(S, b, u.why.c_str()); return Val(fromD(fbinD(k, toD(x), toD(y)))); }
  }
  if (k == F_REM) { Val ov; if (opqFn(R_FN2, a, b, nullptr, [](double x, double y) { return std::fmod(x, y); }, ov)) return ov; }
  uint64_t x = conc(S, a, "opaque-arith"), y = conc(S, b, "opaque-arith"); return Val(fromD(fbinD(k, toD(x), toD(y))));
}
static Val fun1(State& S, RO op, Val a, double (*f)(double)) {
  if (a.isR() && a.r()->ld) engineFatal("long double libm");
  if (a.conc()) return Val(fromD(f(toD(a.c))));
  if (a.isE()) { if (op == R_ABS) return Val::E(mkBin(E_AND, a.e(), mkConst(0x7fffffffffffffffull, 64))); if (op == R_NEG) return Val::E(mkBin(E_XOR, a.e(), mkConst((u128)0x8000000000000000ull, 64))); }
  a = wrapD(a); Val ov;
  if (a.isR() && (op == R_ROUND || isOpq(a)) && opqFn(R_FN1, a, Val(), f, nullptr, ov)) return ov;
  if (a.isR() && op != R_ROUND) {
    try {
      if (isOpq(a)) throw RealUnsupported{"value without algebraic image"};
      if (op == R_SQRT) { LReal* r = a.r(); if (r->num->smin < 0) { Val lt = fcmp(S, 4, a, Val(fromD(0.0)), 64); bool l = lt.conc() ? lt.c : decide(S, lt.e()); if (l) return Val(fromD(-NAN)); } }
      return realUn(op, a);
    } catch (RealUnsupported& u) { if (opqFn(R_FN1, a, Val(), f, nullptr, ov)) return ov; return Val(fromD(f(toD(conc(S, a, u.why.c_str()))))); }
  }
  return Val(fromD(f(toD(conc(S, a, "libm")))));
}
static Val fptoi(State& S, Val a, unsigned w, unsigned w2, bool sg) {
  auto cv = [&](double d) -> uint64_t { if (sg) { if (!(d >= -std::ldexp(1.0, w - 1) && d < std::ldexp(1.0, w - 1))) return (1ull << (w - 1)); return (uint64_t)(int64_t)d & mk(w); }
    if (w == 64) return d >= 9223372036854775808.0 ? (uint64_t)(int64_t)(d - 9223372036854775808.0) ^ 0x8000000000000000ull : (uint64_t)(int64_t)d; return (uint64_t)(int64_t)d & mk(w); };
  if (w2 == 80) {
    auto cl = [&](long double d) -> uint64_t { if (sg) { if (!(d >= -std::ldexp(1.0L, w - 1) && d < std::ldexp(1.0L, w - 1))) return (1ull << (w - 1)); return (uint64_t)(int64_t)d & mk(w); } if (w < 64) return (uint64_t)(int64_t)d & mk(w); return d >= 9223372036854775808.0L ? (uint64_t)(int64_t)(d - 9223372036854775808.0L) ^ 0x8000000000000000ull : (uint64_t)(int64_t)d; };
    a = asL(a); if (!smallL(a, a)) a = concL(S, a); if (isLdConst(a)) return Val(cl(a.r()->lval));
    std::vector<uint32_t> vs; supportVars(a, vs); tabDomain(vs); return Val::E(tabValue(vs, w, [&](const Model& m) { return (u128)cl(evalRL(a, m)); }));
  }
  if (w2 == 32) { uint64_t c = conc(S, a, "float32"); float f; memcpy(&f, &c, 4); return Val(cv(f)); }
  if (a.isR()) {
    try {
      Expr* n = realToInt(a, w, sg); i128 lo = sg ? sminW(w) : 0, hi = sg ? smaxW(w) : (i128)maskW(w);
      if (n->smin < lo || n->smax > hi) {
        if (!sg && n->smin < lo) { if (w == 64) { lo = -((i128)1 << 63); } }
        Expr* in = mkAnd(zLe(zConst(lo), n), zLe(n, zConst(hi))); if (!decide(S, in)) return Val(cv(toD(conc(S, a, "fptoi range")))); }
      Expr* e = n->w == w ? n : n->w > w ? mkExtract(n, 0, w) : mkSExt(n, w); return Val::E(e);
    } catch (RealUnsupported& u) {
      std::vector<uint32_t> vs; supportVars(a, vs); if (tabDomain(vs)) if (Expr* e = tabInt(vs, w, [&](const Model& m) { return (u128)cv(evalR(a, m)); }, 64)) return Val::E(e); else return Val::E(tabValue(vs, w, [&](const Model& m) { return (u128)cv(evalR(a, m)); }));
      return Val(cv(toD(conc(S, a, u.why.c_str())))); }
  }
  return Val(cv(toD(conc(S, a, "fptoi"))));
}
static Val ibin(State& S, unsigned k, Val a, Val b, unsigned w) {
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c, m = mk(w);
    switch (k) {
      case E_ADD: return Val((x + y) & m); case E_SUB: return Val((x - y) & m); case E_MUL: return Val((x * y) & m);
      case E_AND: return Val(x & y); case E_OR: return Val(x | y); case E_XOR: return Val(x ^ y);
      case E_SHL: return Val(y >= w ? 0 : (x << y) & m); case E_LSHR: return Val(y >= w ? 0 : x >> y); case E_ASHR: return Val((uint64_t)(sx(x, w) >> (y >= w ? 63 : y)) & m);
      case E_UDIV: case E_UREM: if (!y) throw Violate{"arith", "integer division by zero"}; return Val(k == E_UDIV ? x / y : x % y);
      case E_SDIV: case E_SREM: { int64_t p = sx(x, w), q = sx(y, w); if (!q) throw Violate{"arith", "integer division by zero"}; if (q == -1) { if (k == E_SREM) return Val(0); return Val((uint64_t)(0 - (uint64_t)p) & m); } return Val((uint64_t)(k == E_SDIV ? p / q : p % q) & m); }
    }
  }
  Expr *x = toE(S, a, w), *y = toE(S, b, w);
  if (k >= E_UDIV && k <= E_SREM) if (decide(S, mkBin(E_EQ, y, mkConst(0, w)))) throw Violate{"arith", "integer division by zero"};
  return Val::E(mkBin((EK)k, x, y));
}
static Val icmp(State& S, unsigned p, Val a, Val b, unsigned w) {
  using namespace llvm;
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c; int64_t i = sx(x, w), j = sx(y, w);
    switch (p) { case CmpInst::ICMP_EQ: return Val(x == y); case CmpInst::ICMP_NE: return Val(x != y); case CmpInst::ICMP_UGT: return Val(x > y); case CmpInst::ICMP_UGE: return Val(x >= y); case CmpInst::ICMP_ULT: return Val(x < y); case CmpInst::ICMP_ULE: return Val(x <= y);
      case CmpInst::ICMP_SGT: return Val(i > j); case CmpInst::ICMP_SGE: return Val(i >= j); case CmpInst::ICMP_SLT: return Val(i < j); default: return Val(i <= j); }
  }
  Expr *x = toE(S, a, w), *y = toE(S, b, w);
  switch (p) { case CmpInst::ICMP_EQ: return Val::E(mkBin(E_EQ, x, y)); case CmpInst::ICMP_NE: return Val::E(mkNot(mkBin(E_EQ, x, y))); case CmpInst::ICMP_UGT: return Val::E(mkBin(E_ULT, y, x)); case CmpInst::ICMP_UGE: return Val::E(mkBin(E_ULE, y, x)); case CmpInst::ICMP_ULT: return Val::E(mkBin(E_ULT, x, y)); case CmpInst::ICMP_ULE: return Val::E(mkBin(E_ULE, x, y));
    case CmpInst::ICMP_SGT: return Val::E(mkBin(E_SLT, y, x)); case CmpInst::ICMP_SGE: return Val::E(mkBin(E_SLE, y, x)); case CmpInst::ICMP_SLT: return Val::E(mkBin(E_SLT, x, y)); default: return Val::E(mkBin(E_SLE, x, y)); }
}
static Val selectV(State& S, Val c, Val a, Val b, unsigned w, unsigned flag) {
  if (c.conc()) return c.c ? a : b;
  Expr* ce = c.e();
  if (flag == 4) { a = asL(a); b = asL(b); if (!smallL(a, b, ce)) return decide(S, ce) ? a : b; LReal* r = ldNode(R_ITE, a, b, true); r->cond = ce; return Val::R(r); }
  if (flag == 1 || a.isR() || b.isR() || (flag == 2)) {
    if (flag != 1 && !(a.isE() || b.isE())) { try { if (a.conc() && b.conc() && a.c == b.c) return a; return realIte(ce, a, b); } catch (RealUnsupported&) { Val ov; if (opqFn(R_ITE, a, b, nullptr, nullptr, ov, ce)) return ov; } }
    else if (flag == 2 && !a.isR() && !b.isR()) return Val::E(mkIte(ce, toE(S, a, 64), toE(S, b, 64)));
    return decide(S, ce) ? a : b;
  }
  if (w == 32 && flag == 3) return decide(S, ce) ? a : b;
  return Val::E(mkIte(ce, toE(S, a, w), toE(S, b, w)));
}

// ---------------------------------------------------------------- builtins
static uint64_t A(State& S, Val* a, int i) { return conc(S, a[i], "external-arg"); }
static Val loadAny(State& S, uint64_t p) { return loadV(S, p, 64); }
#define BI(name) static BR name(State& S, const Ins& I, Val* a, unsigned n, Val* r)
BI(b_nop0) { r[0] = Val(0); r[1] = Val(0); return B_OK; }
BI(b_arg0) { r[0] = n ? a[0] : Val(0); return B_OK; }
BI(b_one) { r[0] = Val(1); return B_OK; }
BI(b_malloc) { r[0] = Val(heapAlloc(S, A(S, a, 0), K_MALLOC, 0xbe, I.dl)); return B_OK; }
BI(b_calloc) { uint64_t x = A(S, a, 0), y = A(S, a, 1); r[0] = Val(heapAlloc(S, x * y, K_MALLOC, 0, I.dl)); return B_OK; }
BI(b_new) { r[0] = Val(heapAlloc(S, A(S, a, 0), K_NEW, 0xbe, I.dl)); return B_OK; }
BI(b_newa) { r[0] = Val(heapAlloc(S, A(S, a, 0), K_NEWA, 0xbe, I.dl)); return B_OK; }
static void doFree(State& S, uint64_t p, uint8_t kind) {
  if (!p) return;
  uint32_t id = p >> 32; Obj* o = S.mem.get(id);
  if (!o || (uint32_t)p != 0) throw Violate{"memory", "free of an invalid pointer"};
  if (o->freed) throw Violate{"memory", "double free"};
  if (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWA) throw Violate{"memory", "free of non-heap memory"};
  if (o->kind != kind) throw Violate{"memory", "mismatched allocation and release"};
  deadObj->refs++; S.mem.set(id, deadObj);
}
BI(b_free) { doFree(S, A(S, a, 0), K_MALLOC); return B_OK; }
BI(b_del) { doFree(S, A(S, a, 0), K_NEW); return B_OK; }
BI(b_dela) { doFree(S, A(S, a, 0), K_NEWA); return B_OK; }
BI(b_realloc) { uint64_t p = A(S, a, 0), sz = A(S, a, 1); if (!p) { r[0] = Val(heapAlloc(S, sz, K_MALLOC, 0xbe, I.dl)); return B_OK; }
  Obj* o = S.mem.get(p >> 32); if (!o || o->freed || o->kind != K_MALLOC || (uint32_t)p) throw Violate{"memory", "realloc of an invalid pointer"};
  uint64_t q = heapAlloc(S, sz, K_MALLOC, 0xbe, I.dl); copyMem(S, q, p, std::min<uint64_t>(sz, o->size)); doFree(S, p, K_MALLOC); r[0] = Val(q); return B_OK; }
BI(b_memcpy) { uint64_t nn = A(S, a, 2), d = A(S, a, 0), s = A(S, a, 1); copyMem(S, d, s, nn); r[0] = Val(d); return B_OK; }
BI(b_memset) { uint64_t nn = A(S, a, 2), d = A(S, a, 0); r[0] = Val(d); if (!nn) return B_OK; uint8_t c = (uint8_t)A(S, a, 1); Obj* o = check(S, d, nn, true); clearSym(S, o, (uint32_t)d, nn); memset(&o->d[(uint32_t)d], c, nn); return B_OK; }
BI(b_abort) { throw Violate{"abort", "abort() reached"}; }
BI(b_throw) { throw Violate{"abort", "C++ exception thrown"}; }
BI(b_exit) { throw Violate{"abort", "exit(" + std::to_string((int)A(S, a, 0)) + ") called"}; }
BI(b_trap) { throw Violate{"abort", "trap"}; }
#define F1(nm, op, fn) BI(nm) { r[0] = fun1(S, op, a[0], fn); return B_OK; }
F1(b_fabs, R_ABS, std::fabs) F1(b_sqrt, R_SQRT, std::sqrt) F1(b_floor, R_FLOOR, std::floor) F1(b_ceil, R_CEIL, std::ceil) F1(b_trunc, R_TRUNC, std::trunc)
F1(b_sin, R_ROUND, std::sin) F1(b_cos, R_ROUND, std::cos) F1(b_tan, R_ROUND, std::tan) F1(b_acos, R_ROUND, std::acos) F1(b_asin, R_ROUND, std::asin) F1(b_atan, R_ROUND, std::atan) F1(b_exp, R_ROUND, std::exp) F1(b_log, R_ROUND, std::log) F1(b_log2, R_ROUND, std::log2) F1(b_log10, R_ROUND, std::log10) F1(b_cbrt, R_ROUND, std::cbrt) F1(b_rint, R_ROUND, std::rint) F1(b_nearby, R_ROUND, std::nearbyint) F1(b_roundf, R_ROUND, std::round)
#define FL(nm, fn) BI(nm) { r[0] = lop(S, R_FN1, a[0], Val(), [](long double x) -> long double { return fn(x); }); return B_OK; }
FL(b_fabsl, fabsl) FL(b_sqrtl, sqrtl) FL(b_floorl, floorl) FL(b_ceill, ceill)
#define F2(nm, fn) BI(nm) { if (a[0].isR() || a[1].isR()) { Val ov; if (opqFn(R_FN2, a[0], a[1], nullptr, [](double x, double y) -> double { return fn(x, y); }, ov)) { r[0] = ov; return B_OK; } } r[0] = Val(fromD(fn(toD(A(S, a, 0)), toD(A(S, a, 1))))); return B_OK; }
F2(b_pow_, std::pow) F2(b_atan2, std::atan2) F2(b_fmod, std::fmod) F2(b_copysign, std::copysign) F2(b_hypot, std::hypot)
BI(b_pow) { if (a[1].conc() && toD(a[1].c) == 2.0) { r[0] = fbin(S, F_MUL, a[0], a[0], 64); return B_OK; } return b_pow_(S, I, a, n, r); }
BI(b_powi) { int p = (int)A(S, a, 1); if (p == 2) { r[0] = fbin(S, F_MUL, a[0], a[0], 64); return B_OK; } if (a[0].isR()) { Val ov; if (opqFn(R_FN2, a[0], Val(fromD((double)p)), nullptr, [](double x, double y) -> double { return __builtin_powi(x, (int)y); }, ov)) { r[0] = ov; return B_OK; } } r[0] = Val(fromD(__builtin_powi(toD(A(S, a, 0)), p))); return B_OK; }
BI(b_ldexp) { a[0] = wrapD(a[0]); if (!a[0].conc() || !a[1].conc()) { Val e = a[1].conc() ? Val(fromD((double)(int)a[1].c)) : a[1].isE() ? realFromInt(a[1].e(), true) : a[1], ov; if (opqFn(R_FN2, a[0], e, nullptr, [](double x, double y) { return std::ldexp(x, (int)y); }, ov)) { r[0] = ov; return B_OK; } }  r[0] = Val(fromD(std::ldexp(toD(A(S, a, 0)), (int)A(S, a, 1)))); return B_OK; }
BI(b_frexp) {
  a[0] = wrapD(a[0]); std::vector<uint32_t> vs; if (a[0].isR()) supportVars(a[0], vs); Val ov; uint64_t p = A(S, a, 1);
  if (!vs.empty() && tabDomain(vs) && opqFn(R_FN1, a[0], Val(), [](double x) { int e; return std::frexp(x, &e); }, nullptr, ov)) { Val x = a[0]; storeV(S, p, 32, Val::E(tabValue(vs, 32, [x](const Model& m) { int e; std::frexp(evalR(x, m), &e); return (u128)(uint32_t)e; }))); r[0] = ov; return B_OK; }
  int e; r[0] = Val(fromD(std::frexp(toD(A(S, a, 0)), &e))); storeV(S, p, 32, Val((uint64_t)(uint32_t)e)); return B_OK; }
BI(b_fma) { r[0] = fbin(S, F_ADD, fbin(S, F_MUL, a[0], a[1], 64), a[2], 64); return B_OK; }
static Val fminmax(State& S, Val a, Val b, bool mx) { Val c = fcmp(S, mx ? 4 : 2, a, b, 64); return selectV(S, c, b, a, 64, 2); }
BI(b_fmax) { r[0] = fminmax(S, a[0], a[1], true); return B_OK; }
BI(b_fmin) { r[0] = fminmax(S, a[0], a[1], false); return B_OK; }
BI(b_imm) { // smax smin umax umin : I.k in name, resolved through kv
  return B_OK; }
template <int P> static BR b_minmax(State& S, const Ins& I, Val* a, unsigned n, Val* r) { Val c = icmp(S, P, a[0], a[1], I.w); r[0] = selectV(S, c, a[0], a[1], I.w, 0); return B_OK; }
BI(b_iabs) { Val c = icmp(S, llvm::CmpInst::ICMP_SLT, a[0], Val(0), I.w); Val ng = ibin(S, E_SUB, Val(0), a[0], I.w); r[0] = selectV(S, c, ng, a[0], I.w, 0); return B_OK; }
BI(b_ctpop) { r[0] = Val((uint64_t)__builtin_popcountll(A(S, a, 0))); return B_OK; }
BI(b_ctlz) { uint64_t v = A(S, a, 0); r[0] = Val(v ? (uint64_t)__builtin_clzll(v) - (64 - I.w) : (uint64_t)I.w); return B_OK; }
BI(b_cttz) { uint64_t v = A(S, a, 0); r[0] = Val(v ? (uint64_t)__builtin_ctzll(v) : (uint64_t)I.w); return B_OK; }
BI(b_bswap) { uint64_t v = A(S, a, 0); r[0] = Val(__builtin_bswap64(v) >> (64 - I.w)); return B_OK; }
static BR fsh(State& S, const Ins& I, Val* a, Val* r, bool left) {
  uint64_t s = A(S, a, 2) % I.w; Val x = a[0], y = a[1]; if (s == 0) { r[0] = left ? x : y; return B_OK; }
  uint64_t l = left ? s : I.w - s; r[0] = ibin(S, E_OR, ibin(S, E_SHL, x, Val(l), I.w), ibin(S, E_LSHR, y, Val(I.w - l), I.w), I.w); return B_OK; }
BI(b_fshl) { return fsh(S, I, a, r, true); }
BI(b_fshr) { return fsh(S, I, a, r, false); }
template <int K, bool SG> static BR b_ovf(State& S, const Ins& I, Val* a, unsigned n, Val* r) {
  unsigned w = I.w2; unsigned W = K == E_MUL ? 2 * w : w + 1;
  Expr *x = toE(S, a[0], w), *y = toE(S, a[1], w); Expr *X = SG ? mkSExt(x, W) : mkZExt(x, W), *Y = SG ? mkSExt(y, W) : mkZExt(y, W);
  Expr* z = mkBin((EK)K, X, Y); Expr* lo = mkExtract(z, 0, w); Expr* back = SG ? mkSExt(lo, W) : mkZExt(lo, W);
  r[0] = Val::E(lo); r[1] = Val::E(mkNot(mkBin(E_EQ, back, z))); return B_OK; }
BI(b_uaddsat) { unsigned w = I.w; Expr *x = mkZExt(toE(S, a[0], w), w + 1), *y = mkZExt(toE(S, a[1], w), w + 1); Expr* z = mkBin(E_ADD, x, y); r[0] = Val::E(mkIte(mkBin(E_ULT, mkConst(maskW(w), w + 1), z), mkConst(maskW(w), w), mkExtract(z, 0, w))); return B_OK; }
BI(b_usubsat) { unsigned w = I.w; Expr *x = toE(S, a[0], w), *y = toE(S, a[1], w); r[0] = Val::E(mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkBin(E_SUB, x, y))); return B_OK; }
BI(b_scmp) { return B_OK; }
BI(b_objsize) { r[0] = Val(~0ull & mk(I.w)); return B_OK; }
BI(b_fpclass) { if (isOpq(a[0])) { uint64_t m = A(S, a, 1); auto cls = [m](double d, double) { bool ng = std::signbit(d); unsigned c; if (d != d) c = 3; else if (std::isinf(d)) c = ng ? 4 : 512; else if (d == 0) c = ng ? 32 : 64; else if (std::fabs(d) < 2.2250738585072014e-308) c = ng ? 16 : 128; else c = ng ? 8 : 256; return (m & c) != 0; }; Expr* e; if (opqPred(a[0], Val(fromD(0.0)), cls, e)) { r[0] = Val::E(e); return B_OK; } }
  else if (a[0].isR()) { uint64_t m = A(S, a, 1); if ((m & 3) == 0 && (m & 0x204) == 0) { /* finite classes */ } if ((m & ~0x207ull) == 0) { r[0] = Val(0); return B_OK; } }
  double d = toD(A(S, a, 0)); uint64_t m = A(S, a, 1); unsigned c = 0; bool ng = std::signbit(d); if (d != d) c = 3; else if (std::isinf(d)) c = ng ? 4 : 512; else if (d == 0) c = ng ? 32 : 64; else if (std::fabs(d) < 2.2250738585072014e-308) c = ng ? 16 : 128; else c = ng ? 8 : 256; r[0] = Val((m & c) != 0); return B_OK; }
static std::string fmt(State& S, const Ins& I, Val* a, unsigned n, unsigned fi) {
  std::string f = cstr(S, A(S, a, fi)), out; unsigned ai = fi + 1;
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') { out += f[i++]; continue; }
    size_t j = i + 1; if (f[j] == '%') { out += '%'; i = j + 1; continue; }
    std::string sp = "%"; while (j < f.size() && strchr("-+ #0123456789.", f[j])) sp += f[j++];
    if (f[j] == '*') { sp += std::to_string((int)A(S, a, ai++)); ++j; while (strchr("0123456789.", f[j])) sp += f[j++]; }
    while (strchr("hlzjt", f[j])) ++j; char cv = f[j++]; char buf[512]; if (ai >= n && true) { throw Violate{"memory", "too few format arguments"}; }
    if (strchr("di", cv)) { int kw = gX[I.c + ai] & 1023; snprintf(buf, 512, (sp + "ld").c_str(), (long)sx(A(S, a, ai++), kw)); out += buf; }
    else if (strchr("uxXoc", cv)) { if (cv == 'c') out += (char)A(S, a, ai++); else { snprintf(buf, 512, (sp + "l" + cv).c_str(), (long)A(S, a, ai++)); out += buf; } }
    else if (strchr("eEfFgGa", cv)) { snprintf(buf, 512, (sp + cv).c_str(), toD(A(S, a, ai++))); out += buf; }
    else if (cv == 's') { std::string s = cstr(S, A(S, a, ai++)); std::vector<char> b(s.size() + 600); snprintf(b.data(), b.size(), (sp + "s").c_str(), s.c_str()); out += b.data(); }
    else if (cv == 'p') { out += "0x" + std::to_string(A(S, a, ai++)); }
    i = j;
  }
  return out;
}
static void wstr(State& S, uint64_t p, const std::string& s, uint64_t cap) { uint64_t k = 0; for (; k < s.size() && k + 1 < cap; ++k) storeV(S, p + k, 8, Val((uint8_t)s[k])); if (cap) storeV(S, p + k, 8, Val(0)); }
BI(b_snprintf) { std::string s = fmt(S, I, a, n, 2); wstr(S, A(S, a, 0), s, A(S, a, 1)); r[0] = Val((uint64_t)s.size()); return B_OK; }
BI(b_sprintf) { std::string s = fmt(S, I, a, n, 1); wstr(S, A(S, a, 0), s, ~0ull); r[0] = Val((uint64_t)s.size()); return B_OK; }
BI(b_getname) { r[0] = Val(0); return B_OK; }
// harness API
static Expr* inputVar(State& S, const std::string& nm, unsigned w, i128 lo, i128 hi, int kind, int sc) {
  int k = S.names[nm]++; std::string key = nm + "#" + std::to_string(k);
  static std::unordered_map<std::string, Expr*> vars; std::string vk = key + "|" + std::to_string(w) + "|" + i128str(lo) + "|" + i128str(hi);
  auto it = vars.find(vk); Expr* e; if (it != vars.end()) e = it->second; else { e = lo == hi && w > 1 ? mkConst((u128)lo, w) : mkVar(key, w, lo, hi); vars[vk] = e; }
  S.inputs.push_back({key, e, kind, sc}); return e;
}
BI(v_int) { std::string nm = cstr(S, A(S, a, 0)); int64_t lo = A(S, a, 1), hi = A(S, a, 2); if (lo > hi) throw KillPath(); unsigned w = std::max(2u, bitsFor(lo, hi)); Expr* e = inputVar(S, nm, w, lo, hi, 0, 0); r[0] = Val::E(mkSExt(e, 64)); return B_OK; }
BI(v_bool) { std::string nm = cstr(S, A(S, a, 0)); Expr* e = inputVar(S, nm, 1, -1, 0, 0, 0); r[0] = Val::E(mkZExt(e, 32)); return B_OK; }
BI(v_grid) { std::string nm = cstr(S, A(S, a, 0)); int64_t lo = A(S, a, 1), hi = A(S, a, 2); int sc = (int)A(S, a, 3); if (lo > hi) throw KillPath(); unsigned w = std::max(2u, bitsFor(lo, hi)); Expr* e = inputVar(S, nm, w, lo, hi, 1, sc); if (isC(e)) r[0] = Val(fromD(std::ldexp((double)lo, sc))); else r[0] = realVar(e, sc); return B_OK; }
BI(v_anydouble) { std::string nm = cstr(S, A(S, a, 0)); Expr* e = inputVar(S, nm, 64, sminW(64), smaxW(64), 2, 0); r[0] = Val::E(e); return B_OK; }
BI(v_assume) {
  Val c = a[0]; if (c.conc()) { if (!c.c) throw KillPath(); return B_OK; }
  Expr* e = mkNot(mkBin(E_EQ, toE(S, c, I.w2), mkConst(0, I.w2))); if (isC(e)) { if (!e->cv) throw KillPath(); return B_OK; }
  fixTies(S.model, e); if (evalE(e, *S.model)) { if (!inPC(S, e)) addPC(S, e); return B_OK; }
  MP m; SR q = solve(S.pc, e, m, S.model.get()); if (q == UNK) { incomplete("solver timeout on an assumption"); throw KillPath(); } if (q == UNSAT) throw KillPath(); S.model = m; addPC(S, e); return B_OK; }
BI(v_assert) {
  std::string lab = cstr(S, A(S, a, 1)); gAsserts++; gAssertLabels[lab]++;
  Val c = a[0]; if (c.conc()) { if (!c.c) { throw Violate{"assert", lab}; } return B_OK; }
  Expr* e = mkNot(mkBin(E_EQ, toE(S, c, I.w2), mkConst(0, I.w2))); if (isC(e)) { if (!e->cv) throw Violate{"assert", lab}; return B_OK; }
  if (inPC(S, e)) return B_OK;
  gAssertQ++; MP m; fixTies(S.model, e); SR q = SAT; if (!evalE(e, *S.model)) m = S.model; else q = solve(S.pc, mkNot(e), m, S.model.get());
  if (q == UNK) { incomplete("solver timeout on assertion " + lab); throw KillPath(); }
  if (q == SAT) { report(S, "assert", lab, m); if (!evalE(e, *S.model)) { MP m2; q = solve(S.pc, e, m2, S.model.get()); if (q != SAT) throw KillPath(); S.model = m2; } addPC(S, e); }
  else addPC(S, e);
  return B_OK; }
BI(v_cover) { S.covers.push_back(cstr(S, A(S, a, 0))); return B_OK; }
BI(v_conc) { r[0] = Val(A(S, a, 0)); return B_OK; }
BI(v_obs) { if (S.obs.size() < 400) S.obs.push_back(a[0]); return B_OK; }
BI(v_issym) { r[0] = Val(!a[0].conc()); return B_OK; }
BI(v_symbolic) { r[0] = Val(1); return B_OK; }
BI(v_heaplive) { uint64_t c = 0; for (uint32_t i = 0; i < S.mem.nHeap; ++i) { Obj* o = S.mem.get(HEAP0 + i); if (o && !o->freed) ++c; } r[0] = Val(c); return B_OK; }
BI(v_print) { fprintf(stderr, "[vp] %s", cstr(S, A(S, a, 0)).c_str()); if (n > 1) { if (a[1].conc()) fprintf(stderr, " %lld %g", (long long)a[1].c, toD(a[1].c)); else fprintf(stderr, a[1].isE() ? " <E>" : " <R>"); } fprintf(stderr, "\n"); return B_OK; }
static void pushFrame(State& S, Func* f, Val* args, unsigned n, int32_t dst, uint32_t rn);
BI(v_thread) {
  uint64_t fp = A(S, a, 0); uint32_t id = fp >> 32; if (id < gFirstFuncObj || id >= gNumBaseObjs) throw Violate{"memory", "bad thread function"};
  Func* f = gFuncs[id - gFirstFuncObj]; Val arg = a[1]; if (S.th.size() >= 15) engineFatal("too many threads");
  int old = S.cur; S.th.emplace_back(); S.cur = S.th.size() - 1; pushFrame(S, f, &arg, 1, -1, 0); S.cur = old; r[0] = Val((uint64_t)S.th.size() - 1); return B_OK; }
BI(v_yield) { return B_BLOCK; }
BI(v_self) { r[0] = Val((uint64_t)S.cur); return B_OK; }
BI(v_alive) { uint64_t c = 0; for (size_t i = 1; i < S.th.size(); ++i) c += !S.th[i].done; r[0] = Val(c); return B_OK; }
BI(b_stacksave) { r[0] = Val(0); return B_OK; }

static const std::map<std::string, Builtin>& table() {
  static std::map<std::string, Builtin> t;
  if (!t.empty()) return t;
  for (const char* s : {"malloc"}) t[s] = b_malloc; t["calloc"] = b_calloc; t["realloc"] = b_realloc; t["free"] = b_free;
  t["_Znwm"] = t["_ZnwmRKSt9nothrow_t"] = t["_ZnwmSt11align_val_t"] = b_new; t["_Znam"] = t["_ZnamRKSt9nothrow_t"] = b_newa;
  t["_ZdlPv"] = t["_ZdlPvm"] = t["_ZdlPvmSt11align_val_t"] = t["_ZdlPvSt11align_val_t"] = b_del; t["_ZdaPv"] = t["_ZdaPvm"] = b_dela;
  t["memcpy"] = t["memmove"] = b_memcpy; t["memset"] = b_memset;
  t["abort"] = b_abort; t["exit"] = t["_exit"] = b_exit; t["__cxa_throw"] = t["__cxa_rethrow"] = b_throw; t["__cxa_pure_virtual"] = b_abort; t["_ZSt9terminatev"] = b_abort; t["__assert_fail"] = b_abort;
  t["__cxa_atexit"] = b_nop0; t["__cxa_guard_acquire"] = nullptr; t["__cxa_guard_release"] = nullptr;
  t["fabs"] = b_fabs; t["sqrt"] = b_sqrt; t["floor"] = b_floor; t["ceil"] = b_ceil; t["trunc"] = b_trunc; t["sin"] = b_sin; t["cos"] = b_cos; t["tan"] = b_tan; t["acos"] = b_acos; t["asin"] = b_asin; t["atan"] = b_atan; t["exp"] = b_exp; t["log"] = b_log; t["log2"] = b_log2; t["log10"] = b_log10; t["cbrt"] = b_cbrt; t["rint"] = b_rint; t["nearbyint"] = b_nearby; t["round"] = b_roundf;
  t["pow"] = b_pow; t["atan2"] = b_atan2; t["fmod"] = b_fmod; t["copysign"] = b_copysign; t["hypot"] = b_hypot; t["ldexp"] = b_ldexp; t["fabsl"] = b_fabsl; t["sqrtl"] = b_sqrtl; t["floorl"] = b_floorl; t["ceill"] = b_ceill; t["frexp"] = b_frexp; t["fmax"] = b_fmax; t["fmin"] = b_fmin; t["fma"] = b_fma;
  t["snprintf"] = b_snprintf; t["sprintf"] = b_sprintf; for (const char* s : {"printf", "fprintf", "puts", "fputs", "fwrite", "putchar", "fputc", "fflush", "vfprintf", "vprintf", "fclose", "perror", "pthread_mutex_lock", "pthread_mutex_unlock", "__libc_single_threaded"}) t[s] = b_nop0;
  t["vp_int"] = v_int; t["vp_bool"] = v_bool; t["vp_grid"] = v_grid; t["vp_anydouble"] = v_anydouble; t["vp_assume"] = v_assume; t["vp_assert"] = v_assert; t["vp_cover"] = v_cover; t["vp_conc"] = v_conc; t["vp_obs"] = v_obs; t["vp_obsd"] = v_obs; t["vp_issym"] = v_issym; t["vp_symbolic"] = v_symbolic; t["vp_heaplive"] = v_heaplive; t["vp_print"] = t["vp_printd"] = v_print; t["vp_thread"] = v_thread; t["vp_yield"] = v_yield; t["vp_self"] = v_self; t["vp_alive"] = v_alive;
  return t;
}
static Builtin lookupBuiltin(const std::string& nm) {
  auto& t = table(); auto it = t.find(nm); if (it != t.end()) return it->second ? it->second : b_one;
  auto pre = [&](const char* p) { return nm.compare(0, strlen(p), p) == 0; };
  using C = llvm::CmpInst;
  if (pre("llvm.memcpy") || pre("llvm.memmove")) return b_memcpy; if (pre("llvm.memset")) return b_memset;
  if (pre("llvm.fabs.f64")) return b_fabs; if (pre("llvm.sqrt.f64")) return b_sqrt; if (pre("llvm.floor.f64")) return b_floor; if (pre("llvm.ceil.f64")) return b_ceil; if (pre("llvm.trunc.f64")) return b_trunc; if (pre("llvm.rint.f64")) return b_rint; if (pre("llvm.nearbyint.f64")) return b_nearby; if (pre("llvm.round.f64")) return b_roundf;
  if (pre("llvm.fabs.f80")) return b_fabsl; if (pre("llvm.sqrt.f80")) return b_sqrtl; if (pre("llvm.floor.f80")) return b_floorl; if (pre("llvm.ceil.f80")) return b_ceill;
  if (pre("llvm.fmuladd.f64") || pre("llvm.fma.f64")) return b_fma; if (pre("llvm.pow.f64")) return b_pow; if (pre("llvm.powi.f64")) return b_powi; if (pre("llvm.copysign.f64")) return b_copysign; if (pre("llvm.sin.f64")) return b_sin; if (pre("llvm.cos.f64")) return b_cos; if (pre("llvm.exp.f64")) return b_exp; if (pre("llvm.log.f64")) return b_log; if (pre("llvm.ldexp.f64")) return b_ldexp;
  if (pre("llvm.maxnum.f64")) return b_fmax; if (pre("llvm.minnum.f64")) return b_fmin;
  if (pre("llvm.smax.i")) return b_minmax<C::ICMP_SGT>; if (pre("llvm.smin.i")) return b_minmax<C::ICMP_SLT>; if (pre("llvm.umax.i")) return b_minmax<C::ICMP_UGT>; if (pre("llvm.umin.i")) return b_minmax<C::ICMP_ULT>;
  if (pre("llvm.abs.i")) return b_iabs; if (pre("llvm.ctpop.i")) return b_ctpop; if (pre("llvm.ctlz.i")) return b_ctlz; if (pre("llvm.cttz.i")) return b_cttz; if (pre("llvm.bswap.i")) return b_bswap; if (pre("llvm.fshl.i")) return b_fshl; if (pre("llvm.fshr.i")) return b_fshr;
  if (pre("llvm.umul.with.overflow")) return b_ovf<E_MUL, false>; if (pre("llvm.smul.with.overflow")) return b_ovf<E_MUL, true>; if (pre("llvm.uadd.with.overflow")) return b_ovf<E_ADD, false>; if (pre("llvm.sadd.with.overflow")) return b_ovf<E_ADD, true>; if (pre("llvm.usub.with.overflow")) return b_ovf<E_SUB, false>; if (pre("llvm.ssub.with.overflow")) return b_ovf<E_SUB, true>;
  if (pre("llvm.uadd.sat")) return b_uaddsat; if (pre("llvm.usub.sat")) return b_usubsat; if (pre("llvm.objectsize")) return b_objsize; if (pre("llvm.is.fpclass")) return b_fpclass; if (pre("llvm.trap") || pre("llvm.ubsantrap")) return b_trap; if (pre("llvm.stacksave") || pre("llvm.stackrestore")) return b_stacksave;
  if (pre("_ZNSo") || pre("_ZStls") || pre("_ZSt4endl") || pre("_ZSt5flush") || pre("_ZSt16__ostream_insert") || pre("_ZNSt8ios_base") || pre("_ZNSt9basic_ios") || pre("_ZNKSt9basic_ios") || pre("_ZNKSt5ctype") || pre("_ZNSi") || pre("_ZNSt6locale") || pre("_ZSt16__throw_bad_cast")) return b_arg0;
  return nullptr;
}

// ---------------------------------------------------------------- interpreter
static void resolve(Func* f) {
  f->resolved = true;
  static const std::set<std::string> force = {"memcpy", "memmove", "memset"};
  if (f->F->isDeclaration() || force.count(f->name)) { f->bi = lookupBuiltin(f->name); return; }
  translate(f);
}
static void pushFrame(State& S, Func* f, Val* args, unsigned n, int32_t dst, uint32_t rn) {
  if (!f->resolved) resolve(f);
  if (!f->translated) engineFatal("call of undefined function " + f->name);
  f->used = true; f->calls++;
  Thread& T = S.th[S.cur]; if (T.fr.size() > 20000) throw Violate{"hang", "unbounded recursion"};
  Frame fr; fr.f = f; fr.pc = 0; fr.retDst = dst; fr.retN = rn; fr.stackMark = T.sp;
  fr.base = T.fr.empty() ? 0 : T.fr.back().base + T.fr.back().f->nslots;
  std::vector<Val> tmp(args, args + std::min<unsigned>(n, f->nargs));
  T.regs.resize(fr.base + f->nslots); for (unsigned i = 0; i < tmp.size(); ++i) T.regs[fr.base + i] = tmp[i];
  T.fr.push_back(fr);
  for (auto& bv : f->byval) { uint64_t p = stackAlloc(S, bv.second); copyMem(S, p, conc(S, T.regs[fr.base + bv.first]), bv.second); T.regs[fr.base + bv.first] = Val(p); }
}

static bool gInCtor = false;
static void finishPath(State& S) {
  if (gInCtor) return;
  gPaths++; uint64_t p = __sync_fetch_and_add(&SH->paths, 1);
  for (auto& c : S.covers) gCovers[c]++;
  bool sample = p < 6 || (p & (p - 1)) == 0 || p % 61 == 0;
  if (sample && (int)__sync_fetch_and_add(&SH->samples, 1) < gMaxSamples) {
    for (auto& o : S.obs) fixTiesR(S.model, o);
    std::string s = "{\"t\":\"sample\",\"inputs\":" + inputsJson(S, *S.model) + ",\"pc\":" + std::to_string(S.pc.size()) + ",\"obs\":[";
    bool first = true;
    for (auto& o : S.obs) { uint64_t v = o.conc() ? o.c : o.isE() ? (uint64_t)evalE(o.e(), *S.model) : fromD(evalR(o, *S.model)); if (!first) s += ","; first = false; s += "\"" + std::to_string(v) + "\""; }
    outLine(s + "]}");
  }
}

static void resume(Thread& t) { if (t.started) t.fr.back().pc++; else t.started = true; }
// returns when the state is finished; the state is deleted by the caller
static void execState(State& S) {
  gCur = &S;
  uint64_t steps0 = S.steps; uint32_t tick = 0;
  for (;;) { // (re)load thread context
    Thread* T = &S.th[S.cur]; Frame* fr = &T->fr.back(); Val* rg = T->regs.data() + fr->base; const Ins* code = fr->f->code.data();
#define V(i) ((i) >= 0 ? rg[i] : gConsts[~(i)])
    bool reload = false;
    while (!reload) {
      const Ins& I = code[fr->pc];
      if (++tick >= 4096) { tick = 0; S.steps += 4096; gSteps += 4096; if (SH->stop) throw KillPath(); if (S.steps > gStepLimit) throw Violate{"hang", "no termination within the step limit"}; }
      switch (I.op) {
        case O_MOV: rg[I.dst] = V(I.a); break;
        case O_BIN: { const Val &a = V(I.a), &b = V(I.b); if (a.conc() && b.conc()) { switch (I.k) { case E_ADD: rg[I.dst] = Val((a.c + b.c) & mk(I.w)); break; case E_SUB: rg[I.dst] = Val((a.c - b.c) & mk(I.w)); break; default: rg[I.dst] = ibin(S, I.k, a, b, I.w); } } else rg[I.dst] = ibin(S, I.k, a, b, I.w); break; }
        case O_ICMP: rg[I.dst] = icmp(S, I.k, V(I.a), V(I.b), I.w); break;
        case O_FCMP: rg[I.dst] = fcmp(S, I.k, V(I.a), V(I.b), I.w); break;
        case O_FBIN: rg[I.dst] = fbin(S, I.k, V(I.a), V(I.b), I.w); break;
        case O_FNEG: { Val a = V(I.a); if (I.w == 80) { rg[I.dst] = lop(S, R_NEG, a, Val()); break; } if (I.w == 32) { rg[I.dst] = Val(conc(S, a, "float32") ^ 0x80000000ull); break; } rg[I.dst] = fun1(S, R_NEG, a, [](double d) { return -d; }); break; }
        case O_ITRUNC: { const Val& a = V(I.a); rg[I.dst] = a.conc() ? Val(a.c & mk(I.w)) : Val::E(mkExtract(toE(S, a, I.w2), 0, I.w)); break; }
        case O_ZEXT: { const Val& a = V(I.a); rg[I.dst] = a.conc() ? a : Val::E(mkZExt(toE(S, a, I.w2), I.w)); break; }
        case O_SEXT: { const Val& a = V(I.a); rg[I.dst] = a.conc() ? Val((uint64_t)sx(a.c, I.w2) & mk(I.w)) : Val::E(mkSExt(toE(S, a, I.w2), I.w)); break; }
        case O_FPTOI: rg[I.dst] = fptoi(S, V(I.a), I.w, I.w2, I.sgn); break;
        case O_ITOFP: { Val a = V(I.a);
          if (I.w == 80) { Val d; if (!a.conc() && !smallL(a, a)) a = Val(conc(S, a, "itofp")); if (a.conc()) rg[I.dst] = ldConst(I.sgn ? (long double)sx(a.c, I.w2) : (long double)a.c); else { if (a.isR()) a = Val::E(toE(S, a, I.w2)); LReal* r = ldNode(R_I2F, a, Val(), true); r->uns = !I.sgn; rg[I.dst] = Val::R(r); } break; }
          if (a.isE() && I.w == 64) { Expr* e = a.e(); if (!I.sgn && e->smin < 0 && e->w == 64) e = mkZExt(e, 65); Val r; bool ok = true; try { r = realFromInt(e, true); } catch (RealUnsupported&) { ok = false; } if (ok) { rg[I.dst] = r; break; } }
          uint64_t c = conc(S, a, "itofp"); double d = I.sgn ? (double)sx(c, I.w2) : (double)c; if (I.w == 32) { float f = I.sgn ? (float)sx(c, I.w2) : (float)c; uint64_t o = 0; memcpy(&o, &f, 4); rg[I.dst] = Val(o); } else rg[I.dst] = Val(fromD(d)); break; }
        case O_FPTRUNC: { if (I.w2 == 80) { if (I.w != 64) engineFatal("long double to float"); rg[I.dst] = lop(S, R_LTOD, V(I.a), Val()); break; } float f = (float)toD(conc(S, V(I.a), "fptrunc")); uint64_t o = 0; memcpy(&o, &f, 4); rg[I.dst] = Val(o); break; }
        case O_FPEXT: { if (I.w == 80) { Val a = V(I.a); if (I.w2 == 32) { uint64_t c = conc(S, a, "fpext"); float f; memcpy(&f, &c, 4); rg[I.dst] = ldConst(f); break; } a = wrapD(a); if (!a.conc() && (a.isE() || !smallL(a, a))) a = Val(conc(S, a, "fpext")); if (a.conc()) rg[I.dst] = ldConst((long double)toD(a.c)); else rg[I.dst] = Val::R(ldNode(R_LEXT, a, Val(), true)); break; } uint64_t c = conc(S, V(I.a), "fpext"); float f; memcpy(&f, &c, 4); rg[I.dst] = Val(fromD(f)); break; }
        case O_LOAD: { const Val& a = V(I.a); uint64_t p = a.conc() ? a.c : conc(S, a, "address"); rg[I.dst] = loadV(S, p + I.imm, I.w); break; }
        case O_STORE: { const Val& a = V(I.a); uint64_t p = a.conc() ? a.c : conc(S, a, "address"); storeV(S, p + I.imm, I.w, V(I.b)); break; }
        case O_ALLOCA: { uint64_t k = conc(S, V(I.a), "alloca"); rg[I.dst] = Val(stackAlloc(S, k * I.imm)); break; }
        case O_GEP: {
          const Val& b = V(I.a); uint64_t off = I.imm; bool allc = b.conc(); for (unsigned k = 0; k < I.n && allc; ++k) { const Val& x = V(gX[I.x + 3 * k]); if (!x.conc()) { allc = false; break; } off += (uint64_t)sx(x.c, gX[I.x + 3 * k + 2]) * (uint64_t)(int64_t)gX[I.x + 3 * k + 1]; }
          if (allc) { rg[I.dst] = Val(b.c + off); break; }
          Expr* e = toE(S, b, 64); e = mkBin(E_ADD, e, mkConst((u128)(uint64_t)I.imm, 64));
          for (unsigned k = 0; k < I.n; ++k) { unsigned w = gX[I.x + 3 * k + 2]; Expr* x = mkSExt(toE(S, V(gX[I.x + 3 * k]), w), 64); e = mkBin(E_ADD, e, mkBin(E_MUL, x, mkConst((u128)(uint64_t)(int64_t)gX[I.x + 3 * k + 1], 64))); }
          rg[I.dst] = Val::E(e); break; }
        case O_SELECT: rg[I.dst] = selectV(S, V(I.c), V(I.a), V(I.b), I.w, I.flag); break;
        case O_JMP: {
          if (I.n) { Val tmp[64]; if (I.n > 64) engineFatal("too many phis"); const int32_t* x = &gX[I.x]; for (unsigned k = 0; k < I.n; ++k) tmp[k] = V(x[2 * k + 1]); for (unsigned k = 0; k < I.n; ++k) rg[x[2 * k]] = tmp[k]; }
          fr->pc = (uint32_t)I.imm; continue; }
        case O_BR: { const Val& c = V(I.a); bool b = c.conc() ? c.c : decide(S, toE(S, c, 1)); fr->pc = b ? I.b : I.c; continue; }
        case O_SWITCH: {
          const Val& c = V(I.a); const SwTab& t = gSw[I.x]; uint32_t tgt = t.def;
          if (c.conc()) { for (auto& k : t.cases) if (k.first == c.c) { tgt = k.second; break; } }
          else { Expr* e = toE(S, c, I.w); for (auto& k : t.cases) if (decide(S, mkBin(E_EQ, e, mkConst(k.first, I.w)))) { tgt = k.second; break; } }
          fr->pc = tgt; continue; }
        case O_RET: {
          Val tmp[16]; unsigned n = I.n; if (n > 16) engineFatal("ret width"); for (unsigned k = 0; k < n; ++k) tmp[k] = V(gX[I.x + k]);
          int32_t dst = fr->retDst; stackPop(S, fr->stackMark); T->fr.pop_back();
          if (T->fr.empty()) { T->done = true; if (S.cur == 0) { finishPath(S); return; }
            // back to the next live thread
            int k = S.cur; do { k = (k + 1) % S.th.size(); } while (S.th[k].done); S.cur = k; resume(S.th[k]); reload = true; break; }
          fr = &T->fr.back(); rg = T->regs.data() + fr->base; code = fr->f->code.data();
          if (dst >= 0) for (unsigned k = 0; k < n; ++k) rg[dst + k] = tmp[k];
          fr->pc++; continue; }
        case O_CALL: {
          Func* f;
          if (!I.flag) f = gFuncs[I.imm];
          else { uint64_t p = conc(S, V(I.a), "callee"); uint32_t id = p >> 32; if (id < gFirstFuncObj || id >= gNumBaseObjs || (uint32_t)p) throw Violate{"memory", "call through an invalid function pointer"}; f = gFuncs[id - gFirstFuncObj]; }
          if (!f->resolved) resolve(f);
          Val args[64]; unsigned n = I.n; if (n > 64) engineFatal("too many args"); for (unsigned k = 0; k < n; ++k) args[k] = V(gX[I.x + k]);
          if (f->translated) { pushFrame(S, f, args, n, I.dst, I.b); fr = &T->fr.back(); rg = T->regs.data() + fr->base; code = fr->f->code.data(); continue; }
          if (!f->bi) engineFatal("unknown external function " + f->name);
          Val ret[4]; f->used = true;
          BR br = f->bi(S, I, args, n, ret);
          T = &S.th[S.cur]; fr = &T->fr.back(); rg = T->regs.data() + fr->base; 
          if (br == B_BLOCK) { // cooperative switch
            int k = S.cur; do { k = (k + 1) % S.th.size(); } while (S.th[k].done); 
            // the yielding thread resumes after its yield call
            if (k == S.cur) { fr->pc++; continue; }
            S.cur = k; resume(S.th[k]); reload = true; break; }
          if (I.dst >= 0) for (int k = 0; k < I.b && k < 4; ++k) rg[I.dst + k] = ret[k];
          break; }
        case O_RMW: { uint64_t p = conc(S, V(I.a), "address"); Val o = loadV(S, p, I.w); Val nv = I.k == E_CONST ? V(I.b) : ibin(S, I.k, o, V(I.b), I.w); storeV(S, p, I.w, nv); rg[I.dst] = o; break; }
        case O_CMPXCHG: { uint64_t p = conc(S, V(I.a), "address"); Val o = loadV(S, p, I.w); Val c = icmp(S, llvm::CmpInst::ICMP_EQ, o, V(I.b), I.w); bool eq = c.conc() ? c.c : decide(S, c.e()); if (eq) storeV(S, p, I.w, V(I.c)); rg[I.dst] = o; rg[I.dst + 1] = Val(eq); break; }
        case O_UNREACH: throw Violate{"abort", "unreachable code reached (undefined behaviour or noreturn call)"};
        case O_NOP: break;
        case O_UNSUP: engineFatal(gDLs[I.x]);
        default: engineFatal("bad opcode " + std::to_string(I.op) + " pc " + std::to_string(fr->pc) + "/" + std::to_string(fr->f->code.size()));
      }
      if (reload) break;
      fr->pc++;
    }
  }
  (void)steps0;
}

static void initState(State& S) {
  deadObj = new Obj(); deadObj->freed = true; deadObj->kind = K_MALLOC; deadObj->refs = 1 << 20;
  for (auto& g : gGlobs) { Obj* o = new Obj(); o->size = g.size; o->kind = K_GLOBAL; o->d.assign(g.size, 0); if (g.G->hasInitializer()) initBytes(g.G->getInitializer(), o->d.data()); o->ro = g.G->isConstant(); S.mem.set(g.id, o); }
  for (uint32_t i = gFirstFuncObj; i < gNumBaseObjs; ++i) { Obj* o = new Obj(); o->kind = K_FUNC; o->size = 1; S.mem.set(i, o); }
  S.model = std::make_shared<Model>(); S.model->epoch = ++gEpoch;
}

static std::vector<pid_t> kids;
static void maybeSplit() {
  if (gNoPar || work.size() < 2 || SH->idle <= 0) return;
  int old = __sync_fetch_and_sub(&SH->idle, 1); if (old <= 0) { __sync_fetch_and_add(&SH->idle, 1); return; }
  pid_t p = fork(); if (p < 0) { __sync_fetch_and_add(&SH->idle, 1); return; }
  // the child takes every other state, starting with the shallowest
  std::deque<State*> keep; bool child = p == 0; int i = 0;
  for (State* s : work) { bool forChild = (i++ % 2) == 0; if (forChild == child) keep.push_back(s); else if (child || true) { delete s; } }
  work.swap(keep);
  if (child) { kids.clear(); gPaths = gKilled = gSteps = gForks = gBranches = gAsserts = gAssertQ = gConcs = 0; gCovers.clear(); gAssertLabels.clear(); gConcWhy.clear(); gSS = SolverStats(); gIncomplete = false; for (Func* f : gFuncs) { f->calls = 0; f->used = false; } }
  else kids.push_back(p);
}
static void writeStats() {
  std::string s = "{\"t\":\"stats\",\"paths\":" + std::to_string(gPaths) + ",\"killed\":" + std::to_string(gKilled) + ",\"steps\":" + std::to_string(gSteps) + ",\"forks\":" + std::to_string(gForks) + ",\"branches\":" + std::to_string(gBranches) + ",\"asserts\":" + std::to_string(gAsserts) + ",\"assert_queries\":" + std::to_string(gAssertQ) + ",\"value_splits\":" + std::to_string(gConcs)
    + ",\"queries\":" + std::to_string(gSS.queries) + ",\"sat\":" + std::to_string(gSS.sat) + ",\"unsat\":" + std::to_string(gSS.unsat) + ",\"unknown\":" + std::to_string(gSS.unknown) + ",\"lemmas\":" + std::to_string(gSS.lemmas) + ",\"tables\":" + std::to_string(gTables) + ",\"solver_s\":" + std::to_string(gSS.time) + ",\"max_query_s\":" + std::to_string(gSS.maxTime)
    + ",\"pending\":" + std::to_string(work.size()) + ",\"incomplete\":" + jstr(gIncomplete ? gIncompleteWhy : "");
  auto mp = [&](const char* k, std::map<std::string, uint64_t>& m) { s += std::string(",\"") + k + "\":{"; bool f = true; for (auto& c : m) { if (!f) s += ","; f = false; s += jstr(c.first) + ":" + std::to_string(c.second); } s += "}"; };
  mp("covers", gCovers); mp("labels", gAssertLabels); mp("conc", gConcWhy);
  s += ",\"funcs\":["; bool f = true; for (Func* q : gFuncs) if (q->used && q->translated && !q->file.empty()) { if (q->file.find("/usr/") != std::string::npos) continue; if (!f) s += ","; f = false; s += "[" + jstr(q->name) + "," + jstr(q->file) + "]"; }
  s += "],\"ext\":["; f = true; for (Func* q : gFuncs) if (q->used && !q->translated) { if (!f) s += ","; f = false; s += jstr(q->name); }
  outLine(s + "]}");
}

int main(int argc, char** argv) {
  if (!getenv("VPSYM_STACK")) { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (rlim_t)(4ull << 30) : std::min<rlim_t>(rl.rlim_max, 4ull << 30); setrlimit(RLIMIT_STACK, &rl); setenv("VPSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  std::string bc, entry = "harness"; int jobs = 1; double tl = 1e9;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--out") gOut = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--time") tl = atof(argv[++i]); else if (a == "--samples") gMaxSamples = atoi(argv[++i]);
    else if (a == "--max-viol") gMaxViol = atoi(argv[++i]); else if (a == "--query-ms") gQueryTimeoutMs = atoi(argv[++i]); else if (a == "--steps") gStepLimit = strtoull(argv[++i], 0, 10); else bc = a;
  }
  if (gOut.empty()) gOut = "/dev/stdout";
  SH = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof *SH); SH->idle = jobs - 1; gNoPar = jobs <= 1;
  gDeadline = now() + tl;
  loadModule(bc);
  Func* ef = funcByName(entry); if (!ef || ef->F->isDeclaration()) engineFatal("no entry " + entry);
  State* S = new State(); initState(*S); S->th.emplace_back();
  // run static constructors, then the harness, on the initial thread
  std::vector<Func*> seq = gCtors; seq.push_back(ef);
  for (size_t i = 0; i < seq.size(); ++i) {
    S->cur = 0; S->th[0] = Thread(); S->th[0].started = true;
    if (i + 1 < seq.size()) {
      pushFrame(*S, seq[i], nullptr, 0, -1, 0); uint64_t p0 = gPaths;
      gInCtor = true; try { execState(*S); } catch (Violate& v) { engineFatal("static constructor: " + v.label); } catch (KillPath&) { engineFatal("ctor killed"); }
      if (!work.empty()) engineFatal("fork in static constructor"); gInCtor = false; gPaths = p0; SH->paths = 0; SH->samples = 0; S->steps = 0;
    } else pushFrame(*S, seq[i], nullptr, 0, -1, 0);
  }
  gCovers.clear(); gPaths = 0;
  outLine("{\"t\":\"start\"}");
  work.push_back(S);
  while (!work.empty()) {
    if (SH->stop) break;
    if (now() > gDeadline) { incomplete("time budget exhausted"); break; }
    maybeSplit();
    if (work.empty()) break;
    State* s = work.back(); work.pop_back();
    try { execState(*s); }
    catch (KillPath&) { gKilled++; }
    catch (Violate& v) { // make sure the model satisfies everything (it does by construction) and report
      report(*s, v.kind, v.label, s->model); gPaths++; __sync_fetch_and_add(&SH->paths, 1); }
    gCur = nullptr; delete s;
  }
  if (SH->stop == 2 && !work.empty()) incomplete("stopped after violations");
  writeStats();
  __sync_fetch_and_add(&SH->idle, 1);
  int rc = 0; for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 3; outLine("{\"t\":\"fatal\",\"msg\":\"worker died: status " + std::to_string(st) + "\"}"); } }
  fflush(stdout); _exit(rc);
}
