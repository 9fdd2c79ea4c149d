#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

SolverStats gSS;
unsigned gQueryTimeoutMs = 60000;
uint64_t gEpoch = 1;
static Z3_context C = nullptr; static Z3_solver S = nullptr; static uint32_t gen = 1;
static uint64_t nSinceReset = 0; static bool slowQuery = false;   // a slow query late in a context: start a clean one
static std::vector<Expr*> lemmas;
static std::vector<uint32_t> declared;
static uint64_t nodesSinceReset = 0;

static void errH(Z3_context c, Z3_error_code e) { engineFatal(std::string("z3: ") + Z3_get_error_msg(c, e)); }

static Z3_ast tr(Expr* e);
static Z3_ast asBV(Expr* e) {   // 1-bit booleans as bit-vectors
  Z3_ast a = tr(e);
  if (e->w == 1) { Z3_sort s = Z3_mk_bv_sort(C, 1); a = Z3_mk_ite(C, a, Z3_mk_unsigned_int64(C, 1, s), Z3_mk_unsigned_int64(C, 0, s)); }
  return a;
}
static Z3_ast bvc(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, w));
  Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), Z3_mk_bv_sort(C, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, 64));
  return Z3_mk_concat(C, hi, lo);
}
static void declareVar(Expr* e) {
  VarInfo& vi = gVars[e->aux];
  if (e->w == 1) return;
  if (vi.lo > sminW(e->w)) Z3_solver_assert(C, S, Z3_mk_bvsge(C, (Z3_ast)e->z3, bvc((u128)vi.lo & maskW(e->w), e->w)));
  if (vi.hi < smaxW(e->w)) Z3_solver_assert(C, S, Z3_mk_bvsle(C, (Z3_ast)e->z3, bvc((u128)vi.hi & maskW(e->w), e->w)));
}
// Extensional encoding: a comparison over few values of its variables whose arithmetic is expensive to
// bit-blast becomes a decision diagram over value ranges, equivalent to it on the variables' domains.
static uint64_t costOf(Expr* e, std::unordered_set<Expr*>& seen, uint64_t lim) {
  std::vector<Expr*> st{e}; uint64_t c = 0;
  while (!st.empty() && c < lim) { Expr* x = st.back(); st.pop_back(); if (isC(x) || !seen.insert(x).second) continue;
    switch (x->k) { case E_TAB: c += 2000; break; case E_MUL: { uint64_t n = x->w; if (isC(x->b) && (x->b->cv & (x->b->cv - 1)) == 0) n = 1; c += (uint64_t)x->w * n; break; } case E_UDIV: case E_SDIV: case E_UREM: case E_SREM: c += 4ull * x->w * x->w; break; case E_ADD: case E_SUB: case E_ITE: case E_ULT: case E_ULE: case E_SLT: case E_SLE: c += 2 * x->a->w; break; default: c += 1; }
    for (Expr* k : {x->a, x->b, x->c}) if (k) st.push_back(k); }
  return c;
}
static std::unordered_map<Expr*, Expr*> tabCache;
static Expr* tabulate(Expr* e) {
  auto it = tabCache.find(e); if (it != tabCache.end()) return it->second;
  Expr*& res = tabCache[e]; res = nullptr;
  std::unordered_set<Expr*> seen; if (costOf(e, seen, 1500) < 1500) return nullptr;
  std::vector<uint32_t> vs; supportVarsE(e, vs); if (vs.size() > 6 || !tabDomain(vs)) return nullptr;
  return tabCache[e] = tabPred(vs, [e](const Model& m) { return evalE(e, m) != 0; });
}
static Z3_ast tr1(Expr* e) {
  Z3_ast r = nullptr; unsigned w = e->w;
  switch (e->k) {
    case E_CONST: return w == 1 ? (e->cv ? Z3_mk_true(C) : Z3_mk_false(C)) : bvc(e->cv, w);
    case E_VAR: {
      std::string n = "v" + std::to_string(e->aux);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), w == 1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, w));
      e->z3 = r; e->z3gen = gen; declared.push_back(e->aux); declareVar(e); return r; }
    case E_TAB: return tr(tabExpand(e));
    case E_EXTRACT: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, asBV(e->a)); if (w == 1) r = Z3_mk_eq(C, r, bvc(1, 1)); return r;
    case E_ZEXT: return Z3_mk_zero_ext(C, w - e->a->w, asBV(e->a));
    case E_SEXT: return Z3_mk_sign_ext(C, w - e->a->w, asBV(e->a));
    case E_CONCAT: return Z3_mk_concat(C, asBV(e->a), asBV(e->b));
    case E_ITE: { Z3_ast c = tr(e->a), x = tr(e->b), y = tr(e->c); return Z3_mk_ite(C, c, x, y); }
    default: break;
  }
  Z3_ast a = tr(e->a), b = tr(e->b); Z3_ast ab[2] = {a, b};
  if (e->a->w == 1) switch (e->k) {
    case E_AND: return Z3_mk_and(C, 2, ab);
    case E_OR: return Z3_mk_or(C, 2, ab);
    case E_XOR: if (isC(e->b)) return e->b->cv ? Z3_mk_not(C, a) : a; return Z3_mk_xor(C, a, b);
    case E_EQ: return Z3_mk_iff(C, a, b);
    case E_ADD: case E_SUB: return Z3_mk_xor(C, a, b);
    case E_MUL: return Z3_mk_and(C, 2, ab);
    case E_ULT: { Z3_ast n[2] = {Z3_mk_not(C, a), b}; return Z3_mk_and(C, 2, n); }
    case E_ULE: return Z3_mk_implies(C, a, b);
    case E_SLT: { Z3_ast n[2] = {a, Z3_mk_not(C, b)}; return Z3_mk_and(C, 2, n); }     // 1 is -1
    case E_SLE: return Z3_mk_implies(C, b, a);
    case E_ASHR: return a;
    case E_SHL: case E_LSHR: { Z3_ast n[2] = {a, Z3_mk_not(C, b)}; return Z3_mk_and(C, 2, n); }
    default: engineFatal("bool op " + std::to_string((int)e->k));
  }
  switch (e->k) {
    case E_ADD: return Z3_mk_bvadd(C, a, b); case E_SUB: return Z3_mk_bvsub(C, a, b); case E_MUL: return Z3_mk_bvmul(C, a, b);
    case E_UDIV: return Z3_mk_bvudiv(C, a, b); case E_SDIV: return Z3_mk_bvsdiv(C, a, b);
    case E_UREM: return Z3_mk_bvurem(C, a, b); case E_SREM: return Z3_mk_bvsrem(C, a, b);
    case E_AND: return Z3_mk_bvand(C, a, b); case E_OR: return Z3_mk_bvor(C, a, b); case E_XOR: return Z3_mk_bvxor(C, a, b);
    case E_SHL: return Z3_mk_bvshl(C, a, b); case E_LSHR: return Z3_mk_bvlshr(C, a, b); case E_ASHR: return Z3_mk_bvashr(C, a, b);
    case E_EQ: return Z3_mk_eq(C, a, b); case E_ULT: return Z3_mk_bvult(C, a, b); case E_ULE: return Z3_mk_bvule(C, a, b);
    case E_SLT: return Z3_mk_bvslt(C, a, b); case E_SLE: return Z3_mk_bvsle(C, a, b);
    default: engineFatal("tr");
  }
}
static Z3_ast tr(Expr* e) {
  if (e->z3gen == gen && e->z3) return (Z3_ast)e->z3;
  // iterative post-order to avoid deep recursion
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->z3gen == gen && x->z3) { st.pop_back(); continue; }
    bool ready = true;
    Expr* tab = nullptr;
    if (x->k >= E_EQ && x->k <= E_SLE && x->a->w > 1 && (tab = tabulate(x))) { if (!(tab->z3gen == gen && tab->z3)) { st.push_back(tab); continue; } st.pop_back(); if (x->z3gen != gen) x->proxy = nullptr; x->z3 = tab->z3; x->z3gen = gen; continue; }
    for (Expr* k : {x->a, x->b, x->c}) if (k && !(k->z3gen == gen && k->z3)) { ready = false; st.push_back(k); }
    if (!ready) continue;
    st.pop_back();
    Z3_ast r = tr1(x); if (x->z3gen != gen) x->proxy = nullptr; x->z3 = r; x->z3gen = gen; ++nodesSinceReset;
  }
  return (Z3_ast)e->z3;
}
static void fresh() {
  if (C) { Z3_del_context(C); gen++; gSS.resets++; }
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, errH);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD")); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gQueryTimeoutMs);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), 1);
  Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
  declared.clear(); nSinceReset = 0; nodesSinceReset = 0;
  for (Expr* l : lemmas) { Z3_ast a = tr(l); Z3_solver_assert(C, S, a); }
}
void solverDestroy() { if (C) { Z3_del_context(C); C = nullptr; gen++; } }

static Z3_ast literal(Expr* c) {
  bool neg = false;
  while (c->k == E_XOR && c->w == 1 && isC(c->b) && c->b->cv) { neg = !neg; c = c->a; }
  Z3_ast t = tr(c);
  Z3_ast p;
  if (c->k == E_VAR) p = t;
  else {
    if (!c->proxy) {
      std::string n = "p" + std::to_string(c->id);
      c->proxy = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bool_sort(C));
      Z3_solver_assert(C, S, Z3_mk_eq(C, (Z3_ast)c->proxy, t));
    }
    p = (Z3_ast)c->proxy;
  }
  return neg ? Z3_mk_not(C, p) : p;
}

// ---- tie variables ----
static std::unordered_map<Expr*, std::vector<uint32_t>> uCache;
static bool anyU = false; static size_t lastVarScan = 0;
static void closeU(std::vector<uint32_t>& us) {
  std::unordered_set<uint32_t> seen(us.begin(), us.end()); std::vector<uint32_t> st = us;
  while (!st.empty()) { uint32_t u = st.back(); st.pop_back(); UInfo* ui = (UInfo*)gVars[u].uinfo;
    auto add = [&](uint32_t x) { if (gVars[x].isU && seen.insert(x).second) { us.push_back(x); st.push_back(x); } };
    for (uint32_t x : ui->support) add(x);
    if (ui->tie) { std::vector<uint32_t> o; supportVarsE(ui->tie, o); for (uint32_t x : o) add(x); } }
  std::sort(us.begin(), us.end());
}
static const std::vector<uint32_t>& usOf(Expr* e) {
  auto it = uCache.find(e); if (it != uCache.end()) return it->second;
  std::vector<uint32_t> o, us; supportVarsE(e, o); for (uint32_t x : o) if (gVars[x].isU) us.push_back(x);
  closeU(us); return uCache[e] = us;
}
static bool haveU() { for (; lastVarScan < gVars.size(); ++lastVarScan) if (gVars[lastVarScan].isU) anyU = true; return anyU; }

static bool evalU(UInfo* u, const Model& m) {
  double a = evalR(u->a, m), b = u->kind <= 1 ? evalR(u->b, m) : 0;
  auto exactReal = [&](Val v) -> double { return evalR(v, m); };
  (void)exactReal;
  switch (u->kind) {
    case 0: return a == b;
    case 1: return u->pred == 1 ? a < b : a <= b;
    case 2: case 3: case 4: {
      // tie: the real value is the integer nearest to a; is the double strictly off in the harmful direction?
      double n = std::nearbyint(a);
      if (u->kind == 2) return a < n;
      if (u->kind == 3) return a > n;
      return n > 0 ? a < n : n < 0 ? a > n : false;
    }
  }
  return false;
}
static void setVar(Model& m, uint32_t i, u128 v) {
  if (m.v.size() <= i) { size_t o = m.v.size(); m.v.resize(i + 1, 0);
    for (; o <= i; ++o) { i128 d = gVars[o].lo > 0 ? gVars[o].lo : gVars[o].hi < 0 ? gVars[o].hi : 0; if (gVars[o].w == 1) d = 0; m.v[o] = (u128)d & maskW(gVars[o].w); } }
  m.v[i] = v;
}
static void fixList(MP& m, const std::vector<uint32_t>& us) {
  for (uint32_t u : us) {
    bool act = evalU((UInfo*)gVars[u].uinfo, *m);
    bool cur = u < m->v.size() ? (bool)m->v[u] : false;
    if (act != cur || u >= m->v.size()) { MP n = std::make_shared<Model>(*m); setVar(*n, u, act); n->epoch = ++gEpoch; m = n; }
  }
}
void fixTies(MP& m, Expr* e) { if (!haveU()) return; fixList(m, usOf(e)); }
void fixTiesR(MP& m, const Val& v) {
  if (!haveU()) return; std::vector<uint32_t> o, us; supportVars(v, o); for (uint32_t x : o) if (gVars[x].isU) us.push_back(x); closeU(us); fixList(m, us);
}

SR solve(const std::vector<Expr*>& pc, Expr* extra, MP& out, const Model* hint) {
  if (!C) fresh();
  if (nSinceReset > 6000 || nodesSinceReset > 400000 || (slowQuery && nSinceReset > 20)) fresh();
  slowQuery = false;
  ++nSinceReset;
  auto t0 = std::chrono::steady_clock::now();
  gSS.queries++;
  std::vector<Z3_ast> as; as.reserve(pc.size() + 1);
  for (Expr* e : pc) { if (isC(e)) { if (!e->cv) return UNSAT; continue; } as.push_back(literal(e)); }
  if (extra) { if (isC(extra)) { if (!extra->cv) { return UNSAT; } } else as.push_back(literal(extra)); }
  SR res; unsigned rounds = 0;
  for (;;) {
    if (++rounds > 20000) { res = UNK; gSS.unknown++; break; }
    Z3_lbool r = Z3_solver_check_assumptions(C, S, as.size(), as.data());
    if (r == Z3_L_FALSE) { res = UNSAT; gSS.unsat++; break; }
    if (r == Z3_L_UNDEF) { res = UNK; gSS.unknown++; break; }
    Z3_model zm = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, zm);
    MP m = std::make_shared<Model>(); if (hint) m->v = hint->v; m->epoch = ++gEpoch;
    for (uint32_t vi : declared) {
      Z3_ast v = Z3_model_get_const_interp(C, zm, Z3_get_app_decl(C, Z3_to_app(C, (Z3_ast)gVars[vi].e->z3)));
      if (!v) continue;
      u128 val = 0;
      if (gVars[vi].w == 1) val = Z3_get_bool_value(C, v) == Z3_L_TRUE;
      else { uint64_t x; if (Z3_get_numeral_uint64(C, v, &x)) val = x; else {
          std::string s = Z3_get_numeral_string(C, v); for (char ch : s) val = val * 10 + (ch - '0'); } }
      setVar(*m, vi, val);
    }
    Z3_model_dec_ref(C, zm);
    bool again = false;
    if (haveU()) {
      std::vector<uint32_t> us; std::unordered_set<uint32_t> seen;
      for (Expr* e : pc) if (!isC(e)) for (uint32_t u : usOf(e)) if (seen.insert(u).second) us.push_back(u);
      if (extra && !isC(extra)) for (uint32_t u : usOf(extra)) if (seen.insert(u).second) us.push_back(u);
      std::sort(us.begin(), us.end());
      for (uint32_t u : us) {
        UInfo* ui = (UInfo*)gVars[u].uinfo; bool act = evalU(ui, *m); bool cur = u < m->v.size() ? (bool)m->v[u] : false;
        if (act == cur) continue;
        if (ui->tie && !evalE(ui->tie, *m)) { setVar(*m, u, act); m->epoch = ++gEpoch; continue; }
        Expr* pre = mkTrue();
        for (uint32_t s : ui->support) { Expr* sv = gVars[s].e; pre = mkAnd(pre, mkBin(E_EQ, sv, mkConst(s < m->v.size() ? m->v[s] : evalE(sv, *m), sv->w))); }
        Expr* lem = mkOr(mkNot(pre), act ? ui->var : mkNot(ui->var));
        lemmas.push_back(lem); gSS.lemmas++; Z3_ast la = tr(lem); Z3_solver_assert(C, S, la); again = true; break;
      }
    }
    if (again) continue;
    res = SAT; gSS.sat++; out = m; break;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (getenv("VP_SLOW") && dt > atof(getenv("VP_SLOW"))) { static int nd=0; if(nd++<3){ std::string f="/tmp/slow_"+std::to_string(getpid())+"_"+std::to_string(nd)+".txt"; FILE*fp=fopen(f.c_str(),"w"); fprintf(fp,"; dt %f nodes %lu n %lu\n",dt,nodesSinceReset,nSinceReset);
    Z3_solver z=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,z); for(Expr*e:pc) if(!isC(e)) Z3_solver_assert(C,z,tr(e)); if(extra&&!isC(extra)) Z3_solver_assert(C,z,tr(extra)); fprintf(fp,"%s\n",Z3_solver_to_string(C,z)); fclose(fp);} }
  slowQuery = dt > 0.02; gSS.time += dt; gSS.maxTime = std::max(gSS.maxTime, dt);
  return res;
}
