#include "real.h"
#include <cmath>
#include <algorithm>
#include <functional>
#include <unordered_set>

static uint32_t gRid = 1;
uint64_t gTables = 0;
// ---- extensional encodings: decision diagrams over value ranges of the support variables
static Expr* tabBuild(const std::vector<uint32_t>& vs, size_t lvl, const uint8_t* t, size_t n) {
  bool all0 = true, all1 = true; for (size_t i = 0; i < n && (all0 || all1); ++i) { if (t[i]) all0 = false; else all1 = false; }
  if (all0) return mkFalse(); if (all1) return mkTrue();
  VarInfo& vi = gVars[vs[lvl]]; const i128 lo = vi.w == 1 ? 0 : vi.lo, hi = vi.w == 1 ? 1 : vi.hi; const size_t cnt = (size_t)(hi - lo + 1), sub = n / cnt; Expr* r = mkFalse();
  for (size_t i = 0; i < cnt;) {
    size_t j = i + 1; while (j < cnt && memcmp(t + i * sub, t + j * sub, sub) == 0) ++j;
    Expr* f = tabBuild(vs, lvl + 1, t + i * sub, sub);
    if (!(isC(f) && !f->cv)) {
      Expr* in;
      if (vi.w == 1) in = (i == 0 && j == 2) ? mkTrue() : i == 0 ? mkNot(vi.e) : vi.e;
      else { in = mkTrue(); if (i > 0) in = mkAnd(in, mkBin(E_SLE, mkConst((u128)(lo + (i128)i), vi.w), vi.e)); if (j < cnt) in = mkAnd(in, mkBin(E_SLE, vi.e, mkConst((u128)(lo + (i128)j - 1), vi.w))); }
      r = mkOr(r, mkAnd(in, f));
    }
    i = j;
  }
  return r;
}
bool tabDomain(std::vector<uint32_t>& vs) {
  std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); uint64_t n = 1;
  for (uint32_t v : vs) { VarInfo& vi = gVars[v]; if (vi.isU) return false; if (vi.w > 1 && (vi.hi - vi.lo > (i128)TABMAX || vi.hi < vi.lo)) return false; n *= vi.w == 1 ? 2 : (uint64_t)(vi.hi - vi.lo + 1); if (n > TABMAX) return false; }
  return true;
}
template <class F> static void tabWalk(const std::vector<uint32_t>& vs, F f) {
  Model m; m.v.assign(gVars.size(), 0); std::vector<i128> cur(vs.size()); uint64_t n = 1;
  for (size_t i = 0; i < vs.size(); ++i) { VarInfo& vi = gVars[vs[i]]; n *= vi.w == 1 ? 2 : (uint64_t)(vi.hi - vi.lo + 1); cur[i] = vi.w == 1 ? 0 : vi.lo; m.v[vs[i]] = (u128)cur[i] & maskW(vi.w); }
  for (uint64_t q = 0; q < n; ++q) {
    m.epoch = ++gEpoch; f(q, n, m);
    for (size_t i = vs.size(); i-- > 0;) { VarInfo& vi = gVars[vs[i]]; i128 hi = vi.w == 1 ? 1 : vi.hi; if (cur[i] < hi) { ++cur[i]; m.v[vs[i]] = (u128)cur[i] & maskW(vi.w); break; } cur[i] = vi.w == 1 ? 0 : vi.lo; m.v[vs[i]] = (u128)cur[i] & maskW(vi.w); }
  }
  gTables++;
}
Expr* tabPred(std::vector<uint32_t> vs, const std::function<bool(const Model&)>& f) {
  std::vector<uint8_t> t; tabWalk(vs, [&](uint64_t q, uint64_t n, const Model& m) { if (t.empty()) t.resize(n); t[q] = f(m); }); return tabBuild(vs, 0, t.data(), t.size());
}
Expr* tabInt(std::vector<uint32_t> vs, unsigned w, const std::function<u128(const Model&)>& f, size_t maxVals) {
  std::vector<u128> t; tabWalk(vs, [&](uint64_t q, uint64_t n, const Model& m) { if (t.empty()) t.resize(n); t[q] = f(m) & maskW(w); });
  std::vector<u128> d(t); std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); if (d.size() > maxVals) return nullptr;
  Expr* r = mkConst(d[0], w); std::vector<uint8_t> b(t.size());
  for (size_t k = 1; k < d.size(); ++k) { for (size_t i = 0; i < t.size(); ++i) b[i] = t[i] == d[k]; r = mkIte(tabBuild(vs, 0, b.data(), b.size()), mkConst(d[k], w), r); }
  return r;
}
Expr* tabValue(std::vector<uint32_t> vs, unsigned w, const std::function<u128(const Model&)>& f) {
  std::vector<u128> t; tabWalk(vs, [&](uint64_t q, uint64_t n, const Model& m) { if (t.empty()) t.resize(n); t[q] = f(m) & maskW(w); }); return mkTab(vs, t, w);
}
Expr* tabExpand(Expr* e) {   // the bits of a tabulated integer as decision diagrams
  const TabFn f = gTabFns[e->aux]; Expr* r = nullptr; std::vector<uint8_t> b(f.t.size());
  for (unsigned k = 0; k < e->w; ++k) { for (size_t i = 0; i < b.size(); ++i) b[i] = (f.t[i] >> k) & 1; Expr* x = tabBuild(f.vs, 0, b.data(), b.size()); r = r ? mkConcat(x, r) : x; }
  return r;
}
bool isOpq(const Val& v) { return v.isR() && v.r()->opq; }
bool opqFn(RO op, const Val& a, const Val& b, double (*f1)(double), double (*f2)(double, double), Val& out, Expr* cond) {
  if ((a.isE() || b.isE()) && op != R_FN1 && op != R_FN2) return false;
  std::vector<uint32_t> vs; supportVars(a, vs); supportVars(b, vs); if (cond) supportVarsE(cond, vs); if (!tabDomain(vs)) return false;
  if (vs.empty()) return false;
  LReal* r = new LReal(); r->num = nullptr; r->den = nullptr; r->sc = 0; r->rad = nullptr; r->err = 0; r->cr = false; r->op = op; r->a = a; r->b = b; r->cond = cond; r->mag = HUGE_VAL; r->id = gRid++; r->opq = true; r->fn1 = f1; r->fn2 = f2; out = Val::R(r); return true;
}
bool opqPred(const Val& a, const Val& b, const std::function<bool(double, double)>& f, Expr*& out) {
  if (a.isE() || b.isE()) return false;
  std::vector<uint32_t> vs; supportVars(a, vs); supportVars(b, vs); if (!tabDomain(vs)) return false;
  out = tabPred(vs, [&](const Model& m) { return f(evalR(a, m), evalR(b, m)); }); return true;
}
static double I2D(i128 v) { return (double)v; }
static double absmax(Expr* e) { return std::max(std::fabs(I2D(e->smin)), std::fabs(I2D(e->smax))); }
static double denMax(const LReal* r) { return r->den ? absmax(r->den) : 1.0; }
static double denMin(const LReal* r) { return r->den ? std::max(1.0, I2D(r->den->smin)) : 1.0; }
static double minNonZero(const LReal* r) {   // least nonzero |value| of the exact real
  double v = std::ldexp(1.0, r->sc) / denMax(r);
  if (r->num->smin > 0) v *= I2D(r->num->smin); else if (r->num->smax < 0) v *= -I2D(r->num->smax);
  if (r->rad) v *= std::sqrt(minNonZero(r->rad));
  return v * 0.999999;
}
static const double EPS = 1.1102230246251565e-16;

static Val fin(Expr* num, Expr* den, int sc, LReal* rad, double err, bool cr, RO op, Val a, Val b, Expr* cond = nullptr, bool inputsExact = false) {
  if (den && isC(den)) { // fold power-of-two constants of the denominator into the scale
    u128 d = den->cv; while (!(d & 1)) { d >>= 1; --sc; } den = d == 1 ? nullptr : zConst((i128)d);
  }
  if (den && isC(num) && num->cv == 0) den = nullptr;
  if (op != R_LEAF && !isC(num)) { Expr* q; unsigned t = zPow2(num, q); if (t) { num = q; sc += t; } }
  if (rad && isC(num) && num->cv == 0) rad = nullptr;
  if (sc < -1000 || sc > 900) throw RealUnsupported{"scale"};
  LReal* r = new LReal(); r->num = num; r->den = den; r->sc = sc; r->rad = rad; r->op = op; r->a = a; r->b = b; r->cond = cond; r->id = gRid++;
  r->mag = absmax(num) / denMin(r) * std::ldexp(1.0, sc) * (rad ? std::sqrt(rad->mag) * 1.0000001 : 1.0);
  if (r->mag > 1e300) throw RealUnsupported{"magnitude"};
  bool representable = !den && !rad && absmax(num) <= 9007199254740992.0;
  if (inputsExact && representable) { r->err = 0; r->cr = true; }
  else if (inputsExact) { r->err = r->mag * EPS * 1.0000001; r->cr = true; }
  else { r->err = err; r->cr = cr; }
  if (r->err == 0 && isC(num) && !den && !rad) { double d = std::ldexp((double)sextW(num->cv, num->w), sc); return Val(fromD(d)); }
  return Val::R(r);
}

bool realFromConst(double d, LReal*& out) {
  if (!std::isfinite(d)) return false;
  LReal* r = new LReal(); r->den = nullptr; r->rad = nullptr; r->err = 0; r->cr = true; r->op = R_LEAF; r->id = 0; r->a = Val(fromD(d)); r->cond = nullptr;
  if (d == 0) { r->num = zConst(0); r->sc = 0; r->mag = 0; out = r; return true; }
  int ex; double m = std::frexp(d, &ex); int64_t n = (int64_t)std::ldexp(m, 53); int sc = ex - 53;
  while (!(n & 1)) { n /= 2; ++sc; }
  if (sc > 0 && sc < 40) { i128 nn = (i128)n << sc; r->num = zConst(nn); r->sc = 0; } else { r->num = zConst(n); r->sc = sc; }
  r->mag = std::fabs(d); out = r; return true;
}
LReal* asReal(const Val& v) {
  if (v.isR()) { if (v.r()->opq) throw RealUnsupported{"value without algebraic image"}; return v.r(); }
  if (v.conc()) { LReal* r; if (realFromConst(toD(v.c), r)) return r; throw RealUnsupported{"non-finite operand"}; }
  throw RealUnsupported{"opaque double operand"};
}
Val realVar(Expr* k, int sc) { Val v; return fin(k, nullptr, sc, nullptr, 0, true, R_LEAF, Val(), Val(), nullptr, true); }
Val realFromInt(Expr* e, bool isSigned) {
  if (!isSigned && e->smin < 0) e = mkZExt(e, e->w + 1);
  unsigned w = std::max(2u, bitsFor(e->smin, e->smax)); if (w < e->w) e = mkExtract(e, 0, w); else if (e->w == 1) e = mkZExt(e, 2);
  Val src = Val::E(e);
  return fin(e, nullptr, 0, nullptr, 0, true, R_I2F, src, Val(), nullptr, true);
}
static bool sameRad(LReal* a, LReal* b) { if (a == b) return true; if (!a || !b) return false; return a->num == b->num && a->den == b->den && a->sc == b->sc && !a->rad && !b->rad; }
static Expr* chkMul(Expr* a, Expr* b) {
  double m = absmax(a) * absmax(b); if (m > 4e37) throw RealUnsupported{"product too wide"};
  if (isC(a) && a->cv == 1) return b; if (isC(b) && b->cv == 1) return a;
  return zMul(a, b);
}
static Expr* chkShl(Expr* a, int n) { if (n == 0) return a; if (n > 120 || absmax(a) * std::ldexp(1.0, n) > 4e37) throw RealUnsupported{"shift too wide"}; return zShl(a, n); }
static Expr* zAbs(Expr* n) {
  if (n->smin >= 0) return n; if (n->smax <= 0) return zNeg(n);
  Expr* e = zIte(zLt(n, zConst(0)), zNeg(n), n);
  // |n| >= 0; re-encode so that the range is structural
  if (!isC(e) && e->smin < 0) e->smin = 0;
  return e;
}
static Expr* posDen(Expr* n) {  // |n|, or 1 when n == 0 (excluded on the path)
  Expr* a = zAbs(n);
  if (a->smin >= 1) return a;
  unsigned w = a->w; Expr* e = mkIte(mkBin(E_EQ, a, mkConst(0, w)), mkConst(1, w), a);
  if (!isC(e) && e->smin < 1) e->smin = 1;
  return e;
}
static bool isPow2Const(const LReal* r) { return !r->den && !r->rad && isC(r->num) && r->err == 0 && (r->num->smin == 1 || r->num->smin == -1 || [&] { u128 v = r->num->smin < 0 ? (u128)-r->num->smin : (u128)r->num->smin; return v && (v & (v - 1)) == 0; }()); }
static bool isZeroC(const LReal* r) { return isC(r->num) && r->num->cv == 0; }

static void addParts(LReal* x, LReal* y, bool sub, Expr*& num, Expr*& den, int& sc) {
  sc = std::min(x->sc, y->sc);
  if (isZeroC(x)) sc = y->sc; else if (isZeroC(y)) sc = x->sc;
  Expr* n1 = isZeroC(x) ? x->num : chkShl(x->num, x->sc - sc); Expr* n2 = isZeroC(y) ? y->num : chkShl(y->num, y->sc - sc);
  if (x->den == y->den) { num = sub ? zSub(n1, n2) : zAdd(n1, n2); den = x->den; }
  else {
    Expr* p = y->den ? chkMul(n1, y->den) : n1; Expr* q = x->den ? chkMul(n2, x->den) : n2;
    if (absmax(p) > 4e37 || absmax(q) > 4e37) throw RealUnsupported{"sum too wide"};
    num = sub ? zSub(p, q) : zAdd(p, q);
    den = x->den && y->den ? chkMul(x->den, y->den) : (x->den ? x->den : y->den);
  }
}

Val realBin(RO op, const Val& va, const Val& vb) {
  LReal *x = asReal(va), *y = asReal(vb);
  if (x->base || y->base) throw RealUnsupported{"arithmetic on shifted surd"};
  bool ex = x->err == 0 && y->err == 0;
  switch (op) {
    case R_ADD: case R_SUB: {
      if (isZeroC(y)) return va;
      if (isZeroC(x) && op == R_ADD) return vb;
      if (!sameRad(x->rad, y->rad) && !isZeroC(x)) {
        if (x->rad && !x->base && !y->rad && !y->base && isC(y->num)) {   // surd plus constant: keep for comparison only
          LReal* r = new LReal(); *r = *x; r->id = gRid++; r->op = op; r->a = va; r->b = vb; r->cond = nullptr; r->mepoch = 0; r->base = x; r->cr = false; r->num = zConst(1); r->den = nullptr; r->absd = false;
          LReal* o = y; if (op == R_SUB) o = asReal(realUn(R_NEG, vb)); r->off = o; r->mag = x->mag + y->mag; r->err = x->err + r->mag * EPS * 1.01; return Val::R(r);
        }
        throw RealUnsupported{"sum of different surds"};
      }
      Expr *num, *den; int sc; addParts(x, y, op == R_SUB, num, den, sc);
      double mag = x->mag + y->mag;
      return fin(num, den, sc, isZeroC(x) ? y->rad : x->rad, x->err + y->err + (mag + x->err + y->err) * EPS, isZeroC(x) && y->cr, op, va, vb, nullptr, ex);
    }
    case R_MUL: {
      if (isZeroC(x) || isZeroC(y)) return Val(fromD(0.0));
      Expr* num = chkMul(x->num, y->num); Expr* den = x->den && y->den ? chkMul(x->den, y->den) : (x->den ? x->den : y->den);
      int sc = x->sc + y->sc; LReal* rad = nullptr;
      double mag = x->mag * y->mag, e = x->mag * y->err + y->mag * x->err + x->err * y->err;
      if (x->rad && y->rad) {
        if (sameRad(x->rad, y->rad)) { LReal* R = x->rad; num = chkMul(num, R->num); if (R->den) den = den ? chkMul(den, R->den) : R->den; sc += R->sc; }
        else { Val p = realBin(R_MUL, Val::R(x->rad), Val::R(y->rad)); rad = asReal(p); }
      } else rad = x->rad ? x->rad : y->rad;
      if (isPow2Const(x) || isPow2Const(y)) { LReal* o = isPow2Const(x) ? y : x; LReal* c = isPow2Const(x) ? x : y; return fin(num, den, sc, rad, o->err * c->mag, o->cr, op, va, vb, nullptr, ex); }
      return fin(num, den, sc, rad, e + (mag + e) * EPS, false, op, va, vb, nullptr, ex);
    }
    case R_DIV: {
      if (isZeroC(x)) return Val(fromD(0.0));
      if (isPow2Const(y)) {
        Expr* num = chkMul(x->num, y->num->smin < 0 ? zConst(-1) : zConst(1)); int k = 0; u128 v = y->num->smin < 0 ? (u128)-y->num->smin : (u128)y->num->smin; while (v > 1) { v >>= 1; ++k; }
        return fin(num, x->den, x->sc - y->sc - k, x->rad, x->err / y->mag, x->cr, op, va, vb, nullptr, ex);
      }
      // x / y = (n1 d2) / (d1 n2)
      Expr* sgn = nullptr; Expr* n1 = x->num;
      if (y->num->smin >= 0) ; else if (y->num->smax <= 0) n1 = zNeg(n1); else n1 = zIte(zLt(y->num, zConst(0)), zNeg(n1), n1);
      (void)sgn;
      Expr* num = y->den ? chkMul(n1, y->den) : n1; Expr* dn = posDen(y->num); Expr* den = x->den ? chkMul(x->den, dn) : dn;
      int sc = x->sc - y->sc; LReal* rad = nullptr;
      if (x->rad || y->rad) {
        if (sameRad(x->rad, y->rad)) rad = nullptr;
        else if (!y->rad) rad = x->rad;
        else { // sqrt(R1/R2) = sqrt(R1*R2)/R2
          LReal* R = y->rad; Expr* rn = posDen(R->num); if (R->den) num = chkMul(num, R->den); den = chkMul(den, rn); sc -= R->sc;
          LReal* Rp = new LReal(*R); Rp->num = rn; Rp->id = gRid++; Rp->mepoch = 0;   // nonzero on this path
          if (x->rad) rad = asReal(realBin(R_MUL, Val::R(x->rad), Val::R(Rp))); else rad = Rp;
        }
      }
      double ymin = minNonZero(y); if (ymin <= 2 * y->err) throw RealUnsupported{"division by imprecise value"};
      double q = x->mag / (ymin - y->err), e = (x->err + q * y->err) / (ymin - y->err);
      return fin(num, den, sc, rad, e + (q + e) * EPS, false, op, va, vb, nullptr, ex);
    }
    default: throw RealUnsupported{"op"};
  }
}

static Expr* tieVar(int kind, const Val& a, const Val& b, int pred, Expr* tie) {
  UInfo* u = new UInfo(); u->kind = kind; u->a = a; u->b = b; u->pred = pred; u->tie = tie;
  supportVars(a, u->support); supportVars(b, u->support);
  std::sort(u->support.begin(), u->support.end()); u->support.erase(std::unique(u->support.begin(), u->support.end()), u->support.end());
  if (getenv("VP_DBGU")) { fprintf(stderr, "tie kind %d pred %d sup", kind, pred); for (uint32_t v : u->support) fprintf(stderr, " %s", gVars[v].name.c_str()); LReal* x = a.isR() ? a.r() : nullptr; if (x) fprintf(stderr, " A mag %g err %g sc %d den %d op %d", x->mag, x->err, x->sc, x->den != nullptr, (int)x->op); x = b.isR() ? b.r() : nullptr; if (x) fprintf(stderr, " B mag %g err %g sc %d den %d op %d", x->mag, x->err, x->sc, x->den != nullptr, (int)x->op); fprintf(stderr, "\n"); }
  u->var = mkVar("u" + std::to_string(gVars.size()), 1, -1, 0, true, u);
  return u->var;
}

Val realUn(RO op, const Val& va) {
  LReal* x = asReal(va);
  if (x->base) { if (op != R_ABS) throw RealUnsupported{"operation on shifted surd"}; LReal* r = new LReal(); *r = *x; r->id = gRid++; r->op = op; r->a = va; r->b = Val(); r->mepoch = 0; r->absd = true; return Val::R(r); }
  switch (op) {
    case R_NEG: return fin(zNeg(x->num), x->den, x->sc, x->rad, x->err, x->cr, op, va, Val(), nullptr, x->err == 0);
    case R_ABS: if (x->num->smin >= 0 && x->err == 0) return va; return fin(zAbs(x->num), x->den, x->sc, x->rad, x->err, x->cr, op, va, Val(), nullptr, x->err == 0);
    case R_SQRT: {
      if (x->rad) throw RealUnsupported{"nested sqrt"};
      if (isZeroC(x)) return va;
      if (x->err != 0) {
        double g = minNonZero(x); if (g <= 2 * x->err) throw RealUnsupported{"sqrt of imprecise value"};
        double e = x->err / (2 * std::sqrt(g - x->err)); if (x->num->smin <= 0 && x->num->smax >= 0) e += std::sqrt(x->err);
        Val v = fin(zConst(1), nullptr, 0, x, e + std::sqrt(x->mag) * EPS * 1.01, false, op, va, Val()); return v;
      }
      return fin(zConst(1), nullptr, 0, x, 0, true, op, va, Val(), nullptr, true);
    }
    case R_FLOOR: case R_CEIL: case R_TRUNC: {
      if (x->rad) throw RealUnsupported{"floor of surd"};
      Expr* N = x->num; Expr* D = x->den ? x->den : zConst(1);
      if (x->sc >= 0) N = chkShl(N, x->sc); else D = chkShl(D, -x->sc);
      if (isC(D) && D->cv == 1 && x->err == 0) return va;
      double unit = 1.0 / absmax(D); if (x->err >= unit * 0.5) throw RealUnsupported{"floor of imprecise value"};
      unsigned w = std::max(N->w, D->w) + 1; Expr *n = mkSExt(N, w), *d = mkSExt(D, w);
      Expr* q = mkBin(E_SDIV, n, d); Expr* rem = mkBin(E_SREM, n, d); Expr* z = mkConst(0, w);
      Expr* res = q;
      if (x->err == 0 && isC(D) && (D->cv & (D->cv - 1)) == 0) {   // power-of-two denominator
        unsigned k = 0; while (((u128)1 << k) < D->cv) ++k;
        if (op == R_FLOOR || (op == R_TRUNC && N->smin >= 0)) return fin(zFloorPow2(N, k), nullptr, 0, nullptr, 0, true, op, va, Val(), nullptr, true);
        if (op == R_CEIL) return fin(zNeg(zFloorPow2(zNeg(N), k)), nullptr, 0, nullptr, 0, true, op, va, Val(), nullptr, true);
      }
      if (op == R_FLOOR) res = mkBin(E_SUB, q, mkZExt(mkBin(E_SLT, rem, z), w));
      if (op == R_CEIL) res = mkBin(E_ADD, q, mkZExt(mkBin(E_SLT, z, rem), w));
      if (x->err != 0 && !x->cr) {
        // when the real is an integer the double may sit just off it: u says "off in the harmful direction"
        Expr* tie = mkBin(E_EQ, rem, z);
        Expr* u = tieVar(op == R_FLOOR ? 2 : op == R_CEIL ? 3 : 4, va, Val(), 0, tie); ((UInfo*)gVars[u->aux].uinfo)->r = nullptr;
        Expr* one = mkConst(1, w); Expr* adj;
        if (op == R_FLOOR) adj = mkBin(E_SUB, res, one); else if (op == R_CEIL) adj = mkBin(E_ADD, res, one);
        else adj = mkIte(mkBin(E_SLT, z, q), mkBin(E_SUB, q, one), mkIte(mkBin(E_SLT, q, z), mkBin(E_ADD, q, one), q));
        res = mkIte(mkAnd(tie, u), adj, res);
      }
      unsigned nw = std::max(2u, bitsFor(res->smin, res->smax)); if (nw < res->w) res = mkExtract(res, 0, nw);
      return fin(res, nullptr, 0, nullptr, 0, true, op, va, Val(), nullptr, true);
    }
    default: throw RealUnsupported{"unop"};
  }
}

Val realIte(Expr* c, const Val& a, const Val& b) {
  LReal *x = asReal(a), *y = asReal(b);
  if (x->base || y->base) throw RealUnsupported{"select of shifted surd"};
  if (!sameRad(x->rad, y->rad)) throw RealUnsupported{"ite of surds"};
  int sc = std::min(x->sc, y->sc); if (isZeroC(x)) sc = y->sc; else if (isZeroC(y)) sc = x->sc;
  Expr* n1 = isZeroC(x) ? x->num : chkShl(x->num, x->sc - sc); Expr* n2 = isZeroC(y) ? y->num : chkShl(y->num, y->sc - sc);
  Expr* den = x->den;
  if (x->den != y->den) {
    Expr *d1 = x->den ? x->den : zConst(1), *d2 = y->den ? y->den : zConst(1); den = zIte(c, d1, d2);
    if (!isC(den) && den->smin < 1) den->smin = 1;
  }
  bool ex = x->err == 0 && y->err == 0;
  Val v = fin(zIte(c, n1, n2), den, sc, x->rad, std::max(x->err, y->err), x->cr && y->cr, R_ITE, a, b, c, false);
  if (v.isR() && ex) { v.r()->err = 0; v.r()->cr = true; }
  return v;
}

// Signed square image for surd comparison: sign(v) v^2 as (num, den, sc)
static void sqImage(LReal* x, Expr*& n, Expr*& d, int& sc) {
  n = chkMul(x->num, zAbs(x->num)); sc = 2 * x->sc;
  if (x->rad && x->den && x->den == x->rad->num && !x->rad->den) { d = x->den; sc += x->rad->sc; return; }   // (n/R)^2 R = n^2/R
  d = x->den ? chkMul(x->den, x->den) : nullptr;
  if (x->rad) { n = chkMul(n, x->rad->num); if (x->rad->den) d = d ? chkMul(d, x->rad->den) : x->rad->den; sc += x->rad->sc; }
}

// sign of base - c (c a constant double), as (base < c', band): band covers every rounding error and the rounding of c
static void surdVs(LReal* s, double c, double slack, Expr*& lt, Expr*& amb) {
  { // snap c to the nearest integer q when no value of base^2 other than q^2 can lie between
    double q = std::round(c), gap; Expr *n1, *d1; int s1; sqImage(s, n1, d1, s1); gap = std::ldexp(1.0, std::min(0, s1)) / (d1 ? absmax(d1) : 1.0);
    double w = std::fabs(c - q) + slack + std::ldexp(std::fabs(c), -52);
    if (std::fabs(c - q) > slack + std::ldexp(std::fabs(c), -51) && (2 * std::fabs(q) + w) * w < gap * 0.999 && std::fabs(q) < 1e6) {
      LReal* k; realFromConst(q * std::fabs(q), k); int sc = std::min(s1, isZeroC(k) ? s1 : k->sc); Expr* l = chkShl(n1, s1 - sc); Expr* r = isZeroC(k) ? k->num : chkShl(k->num, k->sc - sc); if (d1) r = chkMul(r, d1);
      lt = c < q ? zLt(l, r) : zLe(l, r); amb = mkFalse(); return;
    }
  }
  const double g = std::ldexp(1.0, -40); double cr = std::round(c / g) * g; slack += std::fabs(c - cr) + std::ldexp(std::fabs(c), -52);
  LReal* k; realFromConst(cr, k); Expr *n1, *d1, *n2, *d2; int s1, s2; sqImage(s, n1, d1, s1);
  n2 = k->num; d2 = nullptr; s2 = k->sc; if (isZeroC(k)) s2 = s1; else sqImage(k, n2, d2, s2);
  int sc = std::min(s1, s2); Expr* l = chkShl(n1, s1 - sc); Expr* r = isZeroC(k) ? n2 : chkShl(n2, s2 - sc); if (d1) r = chkMul(r, d1);
  if (absmax(l) > 4e37 || absmax(r) > 4e37) throw RealUnsupported{"shifted comparison too wide"};
  double E = slack * (s->mag + std::fabs(cr) + slack) * 1.001, Bd = E * (d1 ? absmax(d1) : 1.0) / std::ldexp(1.0, sc); if (!(Bd < 1e30)) throw RealUnsupported{"comparison too imprecise"};
  i128 B = (i128)std::ceil(Bd) + 1; Expr* diff = zSub(l, r); amb = mkAnd(zLe(diff, zConst(B)), zLe(zConst(-B), diff)); lt = zLt(l, r);
}
static Expr* tabCmp(int pred, const Val& a, const Val& b) { Expr* e; if (opqPred(a, b, [pred](double x, double y) { return pred == 0 ? x == y : pred == 1 ? x < y : x <= y; }, e)) return e; return nullptr; }
static Expr* shiftedCmp(int pred, LReal* x, LReal* y, const Val& va, const Val& vb, bool swapped) {   // x shifted, y constant
  if (y->base || y->rad || !isC(y->num) || y->den) throw RealUnsupported{"shifted surd compared with a variable"};
  double k = std::ldexp((double)y->num->smin, y->sc), off = std::ldexp((double)x->off->num->smin, x->off->sc); if (x->off->den) off /= (double)x->off->den->smin;
  double slack = x->err + y->err + (std::fabs(k) + std::fabs(off)) * EPS * 4; if (pred == 0) throw RealUnsupported{"equality of shifted surd"};
  Expr *lt, *amb;
  if (!x->absd) { surdVs(x->base, k - off, slack, lt, amb); }
  else { Expr *l1, *a1, *l2, *a2; if (k < 0) return swapped ? mkTrue() : mkFalse(); surdVs(x->base, k - off, slack, l1, a1); surdVs(x->base, -k - off, slack, l2, a2); lt = mkAnd(l1, mkNot(l2)); amb = mkOr(a1, a2); }
  Expr* u = tieVar(1, va, vb, pred, amb); return mkIte(amb, u, swapped ? mkNot(lt) : lt);
}
Expr* realCmp(int pred, const Val& va, const Val& vb) {
  LReal *x = asReal(va), *y = asReal(vb);
  if ((x->base || y->base || x->err != 0 || y->err != 0)) if (Expr* e = tabCmp(pred, va, vb)) return e;
  if (x->base) return shiftedCmp(pred, x, y, va, vb, false);
  if (y->base) return shiftedCmp(pred, y, x, va, vb, true);
  Expr *n1 = x->num, *n2 = y->num, *d1 = x->den, *d2 = y->den; int s1 = x->sc, s2 = y->sc;
  double E = x->err + y->err;
  // Cheap decision by magnitude is left to structural ranges below.
  bool sq = false;
  if (!sameRad(x->rad, y->rad)) {
    if (isZeroC(x) || isZeroC(y)) ; // sign comparison: positive factor sqrt(rad) is irrelevant unless rad == 0
    if (x->rad || y->rad) { sq = true; sqImage(x, n1, d1, s1); sqImage(y, n2, d2, s2); E = E * (x->mag + y->mag) * 1.001; }
  } else if (x->rad) { // same radical: compare coefficients, but rad == 0 makes both zero
    sq = true; sqImage(x, n1, d1, s1); sqImage(y, n2, d2, s2); E = E * (x->mag + y->mag) * 1.001;
  }
  int sc;
  if (isC(n1) && n1->cv == 0) { sc = s2; d1 = d2 ? d2 : nullptr; }       // 0 vs y: only sign of n2 matters
  else if (isC(n2) && n2->cv == 0) { sc = s1; d2 = d1; }
  else sc = std::min(s1, s2);
  Expr *l, *r;
  // A constant compared with a lattice value: fold the constant onto the lattice grid.
  auto constOnGrid = [&](Expr* nc, int scc, Expr* nv, int scv, bool constLeft) -> Expr* {
    // compare nv*2^scv ? nc*2^scc with scc < scv, exact: floor division of nc by 2^(scv-scc)
    int sh = scv - scc; if (sh <= 0 || sh > 126) return nullptr;
    i128 c = nc->smin; i128 fl = c >> sh; bool integral = ((c & (((i128)1 << sh) - 1)) == 0);
    Expr* F = zConst(fl);
    // value v, const c = fl + frac. v < c <=> integral ? v < fl : v <= fl ; v <= c <=> v <= fl ; c < v <=> fl < v; c <= v <=> integral ? fl <= v : fl < v
    if (pred == 0) return integral ? zEq(nv, F) : mkFalse();
    if (!constLeft) return pred == 1 ? (integral ? zLt(nv, F) : zLe(nv, F)) : zLe(nv, F);
    return pred == 1 ? zLt(F, nv) : (integral ? zLe(F, nv) : zLt(F, nv));
  };
  if (!sq && E == 0 && !d1 && !d2) {
    if (isC(n2) && !isC(n1) && n2->cv != 0 && s2 < s1) { Expr* e = constOnGrid(n2, s2, n1, s1, false); if (e) return e; }
    if (isC(n1) && !isC(n2) && n1->cv != 0 && s1 < s2) { Expr* e = constOnGrid(n1, s1, n2, s2, true); if (e) return e; }
  }
  // A nonzero constant smaller in magnitude than every nonzero value of the other side (a tolerance).
  if (!sq && pred != 0) for (int side = 0; side < 2; ++side) {
    LReal *cst = side ? x : y, *v = side ? y : x;
    if (!isC(cst->num) || cst->num->cv == 0 || cst->err != 0 || cst->den || cst->rad || isC(v->num) || v->rad) continue;
    double k = cst->mag, g = std::ldexp(1.0, v->sc) / denMax(v) * 0.9999999;
    if (!(k < g) || !(v->err < k * 0.999) || !(v->err < (g - k) * 0.999)) continue;
    bool pos = cst->num->smin > 0; Expr* n = v->num;
    if (side == 0) return pos ? zLe(n, zConst(0)) : zLt(n, zConst(0));   // v < k, v <= k
    return pos ? zLt(zConst(0), n) : zLe(zConst(0), n);                  // k < v, k <= v
  }
  if (d1 == d2) { l = (isC(n1) && n1->cv == 0) ? n1 : chkShl(n1, s1 - sc); r = (isC(n2) && n2->cv == 0) ? n2 : chkShl(n2, s2 - sc); }
  else {
    l = d2 ? chkMul(chkShl(n1, s1 - sc), d2) : chkShl(n1, s1 - sc);
    r = d1 ? chkMul(chkShl(n2, s2 - sc), d1) : chkShl(n2, s2 - sc);
  }
  Expr* lt = zLt(l, r); Expr* eq = zEq(l, r);
  bool zero1 = isC(x->num) && x->num->cv == 0 && x->err == 0, zero2 = isC(y->num) && y->num->cv == 0 && y->err == 0;
  if (x->err == 0 && y->err == 0) return pred == 0 ? eq : pred == 1 ? lt : mkOr(lt, eq);
  double dd = (d1 == d2) ? (d1 ? absmax(d1) : 1.0) : (d1 ? absmax(d1) : 1.0) * (d2 ? absmax(d2) : 1.0);
  double unit = std::ldexp(1.0, sc) / dd;   // granularity of the (squared) difference
  if ((zero1 || zero2) && !sq) { LReal* o = zero1 ? y : x; unit = minNonZero(o); E = o->err; }
  bool bothCR = (x->err == 0 || x->cr) && (y->err == 0 || y->cr);
  if (E * 2.0 < unit) {
    if (bothCR) return pred == 0 ? eq : pred == 1 ? lt : mkOr(lt, eq);
    if (isC(eq) && !eq->cv) return pred == 0 ? eq : lt;
    Expr* u = tieVar(pred == 0 ? 0 : 1, va, vb, pred, eq);
    if (pred == 0) return mkAnd(eq, u);
    return mkOr(lt, mkAnd(eq, u));
  }
  // Ambiguity band |l - r| <= B
  double Bd = E / unit; if (!(Bd < 1e30)) throw RealUnsupported{"comparison too imprecise"};
  i128 B = (i128)std::ceil(Bd) + 1;
  Expr* diff = zSub(l, r); Expr* amb = mkAnd(zLe(diff, zConst(B)), zLe(zConst(-B), diff));
  Expr* u = tieVar(pred == 0 ? 0 : 1, va, vb, pred, amb);
  if (pred == 0) return mkAnd(amb, u);
  return mkIte(amb, u, lt);
}

Expr* realToInt(const Val& a, unsigned w, bool isSigned) {
  Val t = realUn(R_TRUNC, a);
  LReal* r = asReal(t);
  Expr* n = r->num; if (r->sc > 0) n = chkShl(n, r->sc);
  if (r->sc < 0) throw RealUnsupported{"trunc"};
  return n;   // exact integer of whatever width; caller handles range
}
Expr* realDenZero(const Val& a) {
  LReal* x = asReal(a); if (x->base) throw RealUnsupported{"zero test of shifted surd"}; return zEq(x->num, zConst(0));
}

Val ldConst(long double x) { LReal* r = ldNode(R_LCONST, Val(), Val(), true); r->lval = x; return Val::R(r); }
bool isLdConst(const Val& v) { return v.isR() && v.r()->op == R_LCONST; }
LReal* ldNode(RO op, const Val& a, const Val& b, bool ld) {
  LReal* r = new LReal(); r->num = nullptr; r->den = nullptr; r->sc = 0; r->rad = nullptr; r->err = 0; r->cr = false; r->op = op; r->a = a; r->b = b; r->cond = nullptr; r->mag = HUGE_VAL; r->id = gRid++; r->opq = true; r->ld = ld; return r;
}
long double evalRL(const Val& v, const Model& m) {
  if (!v.isR() || !v.r()->ld) engineFatal("evalRL"); LReal* r = v.r(); if (r->op == R_LCONST) return r->lval;
  if (r->mepoch == m.epoch && m.epoch) return r->lval;
  long double d = 0;
  switch (r->op) {
    case R_LEXT: d = (long double)evalR(r->a, m); break;
    case R_I2F: { Expr* e = r->a.e(); u128 x = evalE(e, m); d = r->uns ? (long double)(uint64_t)x : (long double)(int64_t)sextW(x, e->w); break; }
    case R_ADD: d = evalRL(r->a, m) + evalRL(r->b, m); break; case R_SUB: d = evalRL(r->a, m) - evalRL(r->b, m); break;
    case R_MUL: d = evalRL(r->a, m) * evalRL(r->b, m); break; case R_DIV: d = evalRL(r->a, m) / evalRL(r->b, m); break;
    case R_NEG: d = -evalRL(r->a, m); break; case R_FN1: d = r->lfn1(evalRL(r->a, m)); break;
    case R_ITE: d = evalE(r->cond, m) ? evalRL(r->a, m) : evalRL(r->b, m); break;
    default: engineFatal("evalRL op");
  }
  r->mepoch = m.epoch; r->lval = d; return d;
}
double evalR(const Val& v, const Model& m) {
  if (v.conc()) return toD(v.c);
  if (v.isE()) { return toD((uint64_t)evalE(v.e(), m)); }
  LReal* r = v.r();
  if (r->mepoch == m.epoch && m.epoch) return r->mval;
  double d = 0;
  switch (r->op) {
    case R_LEAF: d = std::ldexp((double)sextW(evalE(r->num, m), r->num->w), r->sc); break;
    case R_I2F: { if (r->a.conc()) { d = (double)(int64_t)r->a.c; break; } Expr* e = r->a.e(); d = (double)sextW(evalE(e, m), e->w); break; }
    case R_ADD: d = evalR(r->a, m) + evalR(r->b, m); break;
    case R_SUB: d = evalR(r->a, m) - evalR(r->b, m); break;
    case R_MUL: d = evalR(r->a, m) * evalR(r->b, m); break;
    case R_DIV: d = evalR(r->a, m) / evalR(r->b, m); break;
    case R_NEG: d = -evalR(r->a, m); break;
    case R_ABS: d = std::fabs(evalR(r->a, m)); break;
    case R_SQRT: d = std::sqrt(evalR(r->a, m)); break;
    case R_FLOOR: d = std::floor(evalR(r->a, m)); break;
    case R_CEIL: d = std::ceil(evalR(r->a, m)); break;
    case R_TRUNC: d = std::trunc(evalR(r->a, m)); break;
    case R_ITE: d = evalE(r->cond, m) ? evalR(r->a, m) : evalR(r->b, m); break;
    case R_LTOD: d = (double)evalRL(r->a, m); break;
    case R_FN1: d = r->fn1(evalR(r->a, m)); break;
    case R_FN2: d = r->fn2(evalR(r->a, m), evalR(r->b, m)); break;
    default: engineFatal("evalR");
  }
  r->mepoch = m.epoch; r->mval = d; return d;
}

void supportVarsE(Expr* e, std::vector<uint32_t>& out) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> st{e};
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!x || isC(x) || !seen.insert(x).second) continue;
    if (x->k == E_VAR) out.push_back(x->aux); else if (x->k == E_TAB) out.insert(out.end(), gTabFns[x->aux].vs.begin(), gTabFns[x->aux].vs.end()); else { st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); } }
}
void supportVars(const Val& v, std::vector<uint32_t>& out) {
  if (v.conc()) return;
  if (v.isE()) { supportVarsE(v.e(), out); return; }
  std::unordered_set<LReal*> seen; std::vector<LReal*> st{v.r()};
  while (!st.empty()) {
    LReal* r = st.back(); st.pop_back(); if (!seen.insert(r).second) continue;
    if (r->op == R_LEAF) { supportVarsE(r->num, out); continue; }
    if (r->cond) supportVarsE(r->cond, out);
    for (const Val* q : {&r->a, &r->b}) { if (q->isR()) st.push_back(q->r()); else if (q->isE()) supportVarsE(q->e(), out); }
  }
}
