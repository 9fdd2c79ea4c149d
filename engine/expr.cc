#include "expr.h"
#include <functional>
#include <algorithm>

std::vector<VarInfo> gVars;
std::vector<TabFn> gTabFns;
static uint32_t gNextId = 1;

std::string i128str(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0; u128 u = neg ? (u128)(-v) : (u128)v; std::string s;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end()); return s;
}

struct Key { uint64_t h; EK k; uint16_t w; uint32_t aux; Expr *a, *b, *c; u128 cv;
  bool operator==(const Key& o) const { return k == o.k && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && cv == o.cv; } };
struct KH { size_t operator()(const Key& k) const { return k.h; } };
static std::unordered_map<Key, Expr*, KH> gTab;
static char* arena = nullptr; static size_t arenaLeft = 0;
static Expr* allocE() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = (1 << 20); arena = (char*)aligned_alloc(16, arenaLeft); }
  Expr* e = new (arena) Expr(); size_t s = (sizeof(Expr) + 15) & ~15ull; arena += s; arenaLeft -= std::min(arenaLeft, s); return e;
}
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4); return h * 0xff51afd7ed558ccdull; }

static i128 clampMul(i128 a, i128 b, bool& ov) { i128 r; if (__builtin_mul_overflow(a, b, &r)) ov = true; return r; }

static void setRange(Expr* e) {
  unsigned w = e->w; i128 lo = sminW(w), hi = smaxW(w);
  bool ov = false;
  auto fin = [&](i128 l, i128 h) { if (!ov && l >= lo && h <= hi) { lo = l; hi = h; } };
  Expr *a = e->a, *b = e->b, *c = e->c;
  switch (e->k) {
    case E_CONST: lo = hi = sextW(e->cv, w); break;
    case E_VAR: lo = std::max(lo, gVars[e->aux].lo); hi = std::min(hi, gVars[e->aux].hi); break;
    case E_ADD: { i128 l, h; ov |= __builtin_add_overflow(a->smin, b->smin, &l); ov |= __builtin_add_overflow(a->smax, b->smax, &h); fin(l, h); break; }
    case E_SUB: { i128 l, h; ov |= __builtin_sub_overflow(a->smin, b->smax, &l); ov |= __builtin_sub_overflow(a->smax, b->smin, &h); fin(l, h); break; }
    case E_MUL: { i128 p[4] = { clampMul(a->smin, b->smin, ov), clampMul(a->smin, b->smax, ov), clampMul(a->smax, b->smin, ov), clampMul(a->smax, b->smax, ov) };
      i128 l = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4);
      if (a == b && !ov) { l = 0; if (a->smin > 0 || a->smax < 0) l = std::min(p[0], p[3]); }
      fin(l, h); break; }
    case E_TAB: { lo = smaxW(w); hi = sminW(w); for (u128 v : gTabFns[e->aux].t) { i128 x = sextW(v, w); lo = std::min(lo, x); hi = std::max(hi, x); } break; }
    case E_SEXT: lo = a->smin; hi = a->smax; break;
    case E_ZEXT: if (a->smin >= 0) { lo = a->smin; hi = a->smax; } else { lo = 0; hi = (i128)maskW(a->w); } break;
    case E_ITE: lo = std::min(b->smin, c->smin); hi = std::max(b->smax, c->smax); break;
    case E_AND: if (b->smin >= 0) { lo = 0; hi = b->smax; if (a->smin >= 0) hi = std::min(hi, a->smax); } else if (a->smin >= 0) { lo = 0; hi = a->smax; } break;
    case E_OR: case E_XOR: if (a->smin >= 0 && b->smin >= 0) { i128 m = std::max(a->smax, b->smax); u128 p = 1; while (p <= (u128)m) p <<= 1; lo = 0; hi = (i128)p - 1; } else if (e->k == E_OR && (a->smax < 0 || b->smax < 0)) { lo = a->smax < 0 && b->smax < 0 ? std::max(a->smin, b->smin) : a->smax < 0 ? a->smin : b->smin; hi = -1; } else if (e->k == E_XOR && ((a->smax < 0 && b->smin >= 0) || (b->smax < 0 && a->smin >= 0))) { lo = sminW(w); hi = -1; } break;
    case E_UREM: if (a->smin >= 0 && isC(b) && b->smin > 0) { lo = 0; hi = std::min(a->smax, b->smin - 1); } else if (a->smin >= 0 && b->smin >= 0) { lo = 0; hi = a->smax; } break;
    case E_UDIV: if (a->smin >= 0 && isC(b) && b->smin > 0) { lo = a->smin / b->smin; hi = a->smax / b->smin; } else if (a->smin >= 0 && b->smin > 0) { lo = 0; hi = a->smax; } break;
    case E_SDIV: if (isC(b) && b->smin > 0) { lo = a->smin / b->smin; hi = a->smax / b->smin; }
      else if (b->smin > 0) { lo = std::min((i128)0, a->smin); hi = std::max((i128)0, a->smax); }
      else if (a->smin > sminW(w) && (b->smin > 0 || b->smax < 0)) { i128 m = std::max(a->smax < 0 ? -a->smax : a->smax, a->smin < 0 ? -a->smin : a->smin); lo = -m; hi = m; } break;
    case E_SREM: { i128 m = std::max(b->smax < 0 ? -b->smax : b->smax, b->smin == sminW(w) ? smaxW(w) : (b->smin < 0 ? -b->smin : b->smin)); if (m > 0) { i128 l = a->smin < 0 ? -(m - 1) : 0, h = a->smax > 0 ? m - 1 : 0; l = std::max(l, std::min(a->smin, (i128)0)); h = std::min(h, std::max(a->smax, (i128)0)); fin(l, h); } break; }
    case E_LSHR: if (isC(b) && b->cv < w) { if (a->smin >= 0) { lo = a->smin >> (int)b->cv; hi = a->smax >> (int)b->cv; } else if (b->cv > 0) { lo = 0; hi = (i128)(maskW(w) >> (int)b->cv); } } else if (a->smin >= 0) { lo = 0; hi = a->smax; } break;
    case E_ASHR: if (isC(b) && b->cv < w) { lo = a->smin >> (int)b->cv; hi = a->smax >> (int)b->cv; } break;
    case E_SHL: if (isC(b) && b->cv < w) { i128 l = clampMul(a->smin, b->cv < 126 ? ((i128)1 << (int)b->cv) : smaxW(127), ov), h = clampMul(a->smax, b->cv < 126 ? ((i128)1 << (int)b->cv) : smaxW(127), ov); fin(l, h); } break;
    case E_EXTRACT: if (e->aux == 0 && a->smin >= lo && a->smax <= hi) { lo = a->smin; hi = a->smax; } break;
    default: break;
  }
  if (w == 1 && !isC(e)) { lo = -1; hi = 0; }
  e->smin = lo; e->smax = hi;
}

static Expr* intern(EK k, unsigned w, uint32_t aux, Expr* a, Expr* b, Expr* c, u128 cv = 0) {
  Key key; key.k = k; key.w = w; key.aux = aux; key.a = a; key.b = b; key.c = c; key.cv = cv;
  uint64_t h = mix(k, w); h = mix(h, aux); h = mix(h, (uint64_t)a); h = mix(h, (uint64_t)b); h = mix(h, (uint64_t)c); h = mix(h, (uint64_t)cv); h = mix(h, (uint64_t)(cv >> 64)); key.h = h;
  auto it = gTab.find(key); if (it != gTab.end()) return it->second;
  Expr* e = allocE(); e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->cv = cv; e->id = gNextId++;
  setRange(e); gTab.emplace(key, e);
  // A range collapsed to a single value is a constant.
  if (k != E_CONST && k != E_VAR && w > 1 && e->smin == e->smax) { Expr* cst = mkConst((u128)e->smin, w); gTab[key] = cst; return cst; }
  return e;
}

Expr* mkConst(u128 v, unsigned w) { return intern(E_CONST, w, 0, 0, 0, 0, v & maskW(w)); }
Expr* mkVar(const std::string& name, unsigned w, i128 lo, i128 hi, bool isU, void* uinfo) {
  VarInfo vi; vi.name = name; vi.w = w; vi.lo = lo; vi.hi = hi; vi.isU = isU; vi.uinfo = uinfo; vi.e = nullptr;
  gVars.push_back(vi);
  Expr* e = intern(E_VAR, w, gVars.size() - 1, 0, 0, 0); gVars.back().e = e; return e;
}

static u128 foldBin(EK k, u128 a, u128 b, unsigned w, bool& ok) {
  ok = true; u128 m = maskW(w);
  switch (k) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { i128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { i128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (int)b) & m; case E_LSHR: return b >= w ? 0 : a >> (int)b;
    case E_ASHR: { i128 x = sextW(a, w); return b >= w ? (x < 0 ? m : 0) : (u128)(x >> (int)b) & m; }
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sextW(a, w) < sextW(b, w); case E_SLE: return sextW(a, w) <= sextW(b, w);
    default: ok = false; return 0;
  }
}

Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(!a->cv, 1);
  if (a->k == E_XOR && a->w == 1 && isC(a->b) && a->b->cv == 1) return a->a;
  return intern(E_XOR, 1, 0, a, mkConst(1, 1), 0);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->cv >> lo, w);
  switch (a->k) {
    case E_EXTRACT: return mkExtract(a->a, a->aux + lo, w);
    case E_CONCAT: { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w); break; }
    case E_ZEXT: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo == 0) return mkZExt(a->a, w); break;
    case E_SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo == 0) return mkSExt(a->a, w); break;
    case E_ADD: case E_SUB: case E_MUL: case E_AND: case E_OR: case E_XOR:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case E_ITE: if (isC(a->b) || isC(a->c) || lo == 0) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    default: break;
  }
  return intern(E_EXTRACT, w, lo, a, 0, 0);
}
Expr* mkZExt(Expr* a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst(a->cv, w);
  if (a->k == E_ZEXT) return mkZExt(a->a, w);
  if (a->w > 1 && a->smin >= 0) return mkSExt(a, w);
  return intern(E_ZEXT, w, 0, a, 0, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst((u128)sextW(a->cv, a->w), w);
  if (a->k == E_SEXT) return mkSExt(a->a, w);
  if (a->k == E_ZEXT) return mkZExt(a->a, w);
  return intern(E_SEXT, w, 0, a, 0, 0);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w; if (w > 128) engineFatal("concat too wide");
  if (isC(hi) && isC(lo)) return mkConst((hi->cv << lo->w) | lo->cv, w);
  if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  if (isC(hi) && hi->cv == 0) return mkZExt(lo, w);
  return intern(E_CONCAT, w, 0, hi, lo, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (a == b) return a;
  if (isC(c)) return c->cv ? a : b;
  if (a->w == 1) {
    if (isC(a)) return a->cv ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->cv ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->k == E_XOR && isC(c->b)) return mkIte(c->a, b, a);
  if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return mkSExt(mkIte(c, a->a, b->a), a->w);
  return intern(E_ITE, a->w, 0, c, a, b);
}

// Narrow an expression to w bits when its range allows, else return null.
static Expr* narrowTo(Expr* e, unsigned w) {
  if (e->w == w) return e;
  if (e->w < w) return mkSExt(e, w);
  return mkExtract(e, 0, w);
}

Expr* mkBin(EK k, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a->w != b->w) engineFatal("width mismatch in mkBin");
  bool cmp = k >= E_EQ && k <= E_SLE;
  if (isC(a) && isC(b)) { bool ok; u128 v = foldBin(k, a->cv, b->cv, w, ok); if (ok) return mkConst(v, cmp ? 1 : w); }
  // canonical: constant on the right for commutative ops
  if ((k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  bool bc = isC(b);
  if (w == 1) {
    switch (k) {
      case E_AND: if (bc) return b->cv ? a : b; if (a == b) return a; if (a == mkNot(b)) return mkConst(0, 1); break;
      case E_OR: if (bc) return b->cv ? b : a; if (a == b) return a; if (a == mkNot(b)) return mkConst(1, 1); break;
      case E_XOR: case E_ADD: case E_SUB: if (bc) return b->cv ? mkNot(a) : a; if (a == b) return mkConst(0, 1); k = E_XOR; break;
      case E_MUL: return mkAnd(a, b);
      case E_EQ: if (bc) return b->cv ? a : mkNot(a); if (a == b) return mkConst(1, 1); return mkNot(mkBin(E_XOR, a, b));
      case E_ULT: case E_SLT: if (k == E_SLT) std::swap(a, b); return mkAnd(mkNot(a), b);
      case E_ULE: case E_SLE: if (k == E_SLE) std::swap(a, b); return mkOr(mkNot(a), b);
      default: break;
    }
    return intern(k, 1, 0, a, b, 0);
  }
  switch (k) {
    case E_ADD: if (bc && b->cv == 0) return a; break;
    case E_SUB: if (bc && b->cv == 0) return a; if (a == b) return mkConst(0, w); break;
    case E_MUL: if (bc && b->cv == 0) return b; if (bc && b->cv == 1) return a; break;
    case E_AND: if (bc && b->cv == 0) return b; if (bc && b->cv == maskW(w)) return a; if (a == b) return a;
      if (bc && a->smin >= 0) { u128 m = b->cv; if ((m & (m + 1)) == 0 && a->smax <= (i128)m && sextW(m, w) >= 0) return a; }
      if (bc) { u128 m = b->cv; if (m && (m & (m + 1)) == 0) { unsigned n = 0; while ((m >> n) & 1) ++n; return mkZExt(mkExtract(a, 0, n), w); } }
      break;
    case E_OR: if (bc && b->cv == 0) return a; if (bc && b->cv == maskW(w)) return b; if (a == b) return a; break;
    case E_XOR: if (bc && b->cv == 0) return a; if (a == b) return mkConst(0, w);
      if (bc && b->cv == maskW(w) && a->k == E_XOR && isC(a->b) && a->b->cv == maskW(w)) return a->a;
      if (bc && b->cv == maskW(w) && a->k == E_SEXT) return mkSExt(a->a->w == 1 ? mkNot(a->a) : mkBin(E_XOR, a->a, mkConst(maskW(a->a->w), a->a->w)), w);
      break;
    case E_UDIV: case E_SDIV: if (bc && b->cv == 1) return a;
      if (k == E_UDIV && bc && (b->cv & (b->cv - 1)) == 0) { unsigned n = 0; while (((u128)1 << n) < b->cv) ++n; return mkBin(E_LSHR, a, mkConst(n, w)); } break;
    case E_UREM: if (bc && b->cv && (b->cv & (b->cv - 1)) == 0) return mkBin(E_AND, a, mkConst(b->cv - 1, w)); break;
    case E_SHL: case E_LSHR: case E_ASHR: if (bc && b->cv == 0) return a;
      if (bc && k == E_SHL && b->cv < w) return mkBin(E_MUL, a, mkConst((u128)1 << (int)b->cv, w));
      if (bc && k == E_LSHR && b->cv < w && a->smin < 0) return mkZExt(mkExtract(a, (unsigned)b->cv, w - (unsigned)b->cv), w);
      if (bc && b->cv < w && (k == E_ASHR || a->smin >= 0) && a->k == E_SEXT) { unsigned n = (unsigned)b->cv; if (n >= a->a->w) n = a->a->w - 1; return mkSExt(mkBin(E_ASHR, a->a, mkConst(n, a->a->w)), w); }
      break;
    case E_EQ: if (a == b) return mkConst(1, 1); if (a->smax < b->smin || b->smax < a->smin) return mkConst(0, 1);
      if (a->k == E_ITE && bc && isC(a->b) && isC(a->c)) { bool x = a->b->cv == b->cv, y = a->c->cv == b->cv; if (x && y) return mkTrue(); if (x) return a->a; if (y) return mkNot(a->a); return mkFalse(); }
      if (bc && a->k == E_ZEXT) { if (b->cv > maskW(a->a->w)) return mkFalse(); return mkBin(E_EQ, a->a, mkConst(b->cv, a->a->w)); }
      if (bc && a->k == E_XOR && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(b->cv ^ a->b->cv, w));
      if (bc && a->k == E_ADD && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(b->cv - a->b->cv, w));
      break;
    case E_ULT: case E_ULE:
      if (a == b) return mkConst(k == E_ULE, 1);
      if ((a->smin >= 0 && b->smin >= 0) || (a->smax < 0 && b->smax < 0)) return mkBin(k == E_ULT ? E_SLT : E_SLE, a, b);
      if (k == E_ULT && bc && b->cv == 0) return mkFalse();
      if (a->smin >= 0 && b->smax < 0) return mkTrue();
      if (a->smax < 0 && b->smin >= 0) return mkFalse();
      if (k == E_ULT && bc && b->cv == 1) return mkBin(E_EQ, a, mkConst(0, w));
      break;
    case E_SLT: if (a == b) return mkFalse(); if (a->smax < b->smin) return mkTrue(); if (a->smin >= b->smax) return mkFalse(); break;
    case E_SLE: if (a == b) return mkTrue(); if (a->smax <= b->smin) return mkTrue(); if (a->smin > b->smax) return mkFalse(); break;
    default: break;
  }
  // Range-based narrowing: compute in the smallest signed width holding operands and result.
  if (k == E_ADD || k == E_SUB || k == E_MUL || k == E_EQ || k == E_SLT || k == E_SLE) {
    i128 lo = std::min(a->smin, b->smin), hi = std::max(a->smax, b->smax);
    if (k == E_ADD || k == E_SUB || k == E_MUL) {
      Expr tmp; tmp.k = k; tmp.w = w; tmp.a = a; tmp.b = b; tmp.c = 0; setRange(&tmp);
      if (tmp.smin == tmp.smax) return mkConst((u128)tmp.smin, w);
      bool exact;
      { i128 l, h; bool ov = false;
        if (k == E_ADD) { ov |= __builtin_add_overflow(a->smin, b->smin, &l); ov |= __builtin_add_overflow(a->smax, b->smax, &h); }
        else if (k == E_SUB) { ov |= __builtin_sub_overflow(a->smin, b->smax, &l); ov |= __builtin_sub_overflow(a->smax, b->smin, &h); }
        else { i128 p[4] = { clampMul(a->smin, b->smin, ov), clampMul(a->smin, b->smax, ov), clampMul(a->smax, b->smin, ov), clampMul(a->smax, b->smax, ov) }; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); }
        exact = !ov && l >= sminW(w) && h <= smaxW(w);
        if (exact) { lo = std::min(lo, l); hi = std::max(hi, h); } }
      if (!exact) return intern(k, w, 0, a, b, 0);
    }
    unsigned nw = bitsFor(lo, hi);
    if (nw < w && nw > 1) {
      Expr *na = narrowTo(a, nw), *nb = narrowTo(b, nw);
      if (na->w == nw && nb->w == nw) {
        Expr* r = (isC(na) && isC(nb)) ? mkBin(k, na, nb) : intern(k, cmp ? 1 : nw, 0, na, nb, 0);
        return cmp ? r : mkSExt(r, w);
      }
    } else if (nw == 1 && w > 1) nw = 2;
  } else if ((k == E_SDIV || k == E_SREM || k == E_UDIV || k == E_UREM) && b->smin > 0 && (k == E_SDIV || k == E_SREM || a->smin >= 0)) {
    unsigned nw = bitsFor(std::min(a->smin, b->smin), std::max(a->smax, b->smax));
    if (k == E_UDIV) k = E_SDIV; if (k == E_UREM) k = E_SREM;
    if (nw < w) return mkSExt(intern(k, nw, 0, narrowTo(a, nw), narrowTo(b, nw), 0), w);
  }
  return intern(k, cmp ? 1 : w, 0, a, b, 0);
}

// ---- exact integers ----
bool zFits(i128 lo, i128 hi, unsigned maxw) { return bitsFor(lo, hi) <= maxw; }
static Expr* tighten(Expr* e) { unsigned w = std::max(2u, bitsFor(e->smin, e->smax)); if (w < e->w) return mkExtract(e, 0, w); return e; }
Expr* zConst(i128 v) { unsigned w = std::max(2u, bitsFor(v, v)); return mkConst((u128)v, w); }
static Expr* zbin(EK k, Expr* a, Expr* b, i128 lo, i128 hi) {
  lo = std::min(lo, std::min(a->smin, b->smin)); hi = std::max(hi, std::max(a->smax, b->smax));
  unsigned w = std::max(2u, bitsFor(lo, hi)); if (w > 126) engineFatal("integer too wide");
  return tighten(mkBin(k, narrowTo(a, w), narrowTo(b, w)));
}
// Linear normal forms of exact integers, kept beside the expressions: used to cancel common terms.
struct Lin { std::vector<std::pair<Expr*, i128>> t; i128 c = 0; };
static std::unordered_map<Expr*, Lin> lins;
static const i128 LINMAX = (i128)1 << 100;
static Expr* stripS(Expr* e) { while (e->k == E_SEXT || (e->k == E_ZEXT && e->a->smin >= 0)) e = e->a; return e; }
static Lin linOf(Expr* e) {
  Lin l; if (isC(e)) { l.c = e->smin; return l; }
  auto i = lins.find(e); if (i != lins.end()) return i->second;
  Expr* s = stripS(e); if (s != e) { i = lins.find(s); if (i != lins.end()) return i->second; }
  l.t.push_back({s, 1}); return l;
}
static bool linComb(const Lin& a, const Lin& b, bool sub, Lin& r) {   // false: too big
  r.c = sub ? a.c - b.c : a.c + b.c; size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) { r.t.push_back(a.t[i++]); continue; }
    if (i == a.t.size() || b.t[j].first->id < a.t[i].first->id) { r.t.push_back({b.t[j].first, sub ? -b.t[j].second : b.t[j].second}); ++j; continue; }
    i128 k = sub ? a.t[i].second - b.t[j].second : a.t[i].second + b.t[j].second; if (k) r.t.push_back({a.t[i].first, k}); ++i; ++j;
  }
  for (auto& q : r.t) if (q.second > LINMAX || q.second < -LINMAX) return false;
  return r.c < LINMAX && r.c > -LINMAX;
}
static Expr* rawAdd(Expr* a, Expr* b) { if (isC(a) && !a->cv) return b; if (isC(b) && !b->cv) return a; return zbin(E_ADD, a, b, a->smin + b->smin, a->smax + b->smax); }
static Expr* rawSub(Expr* a, Expr* b) { if (isC(b) && !b->cv) return a; return zbin(E_SUB, a, b, a->smin - b->smax, a->smax - b->smin); }
static Expr* rawMul(Expr* a, Expr* b) {
  if (isC(a) && a->smin == 1) return b; if (isC(b) && b->smin == 1) return a;
  bool ov = false; i128 p[4] = { clampMul(a->smin, b->smin, ov), clampMul(a->smin, b->smax, ov), clampMul(a->smax, b->smin, ov), clampMul(a->smax, b->smax, ov) };
  if (ov) engineFatal("integer product too wide");
  return zbin(E_MUL, a, b, *std::min_element(p, p + 4), *std::max_element(p, p + 4));
}
static void linSplit(const Lin& l, Expr*& pos, Expr*& neg) {   // l == pos - neg with nonnegative coefficients
  pos = zConst(l.c > 0 ? l.c : 0); neg = zConst(l.c < 0 ? -l.c : 0);
  for (auto& q : l.t) { Expr* x = rawMul(q.first, zConst(q.second > 0 ? q.second : -q.second)); if (q.second > 0) pos = rawAdd(pos, x); else neg = rawAdd(neg, x); }
}
static Expr* zSum(Expr* a, Expr* b, bool sub) {
  if (isC(b) && !b->cv) return a;
  if (isC(a) && isC(b)) return sub ? rawSub(a, b) : rawAdd(a, b);
  Lin x = linOf(a), y = linOf(b), r;
  if (x.t.size() + y.t.size() > 24 || !linComb(x, y, sub, r)) return sub ? rawSub(a, b) : rawAdd(a, b);
  Expr* e;
  if (r.t.empty()) return zConst(r.c);
  if (r.t.size() < x.t.size() + y.t.size() || (x.c && y.c)) { Expr *p, *n; linSplit(r, p, n); e = rawSub(p, n); }
  else e = sub ? rawSub(a, b) : rawAdd(a, b);
  if (!isC(e) && !(r.t.size() == 1 && r.t[0].second == 1 && r.c == 0)) lins.emplace(e, r);
  return e;
}
Expr* zAdd(Expr* a, Expr* b) { return zSum(a, b, false); }
Expr* zSub(Expr* a, Expr* b) { return zSum(a, b, true); }
Expr* zMul(Expr* a, Expr* b) {
  Expr* e = rawMul(a, b);
  if (!isC(e) && e != a && e != b && (isC(a) || isC(b))) {
    Expr *c = isC(a) ? a : b, *v = isC(a) ? b : a; Lin l = linOf(v); bool ok = true;
    for (auto& q : l.t) { bool ov = false; q.second = clampMul(q.second, c->smin, ov); ok &= !ov && q.second < LINMAX && q.second > -LINMAX; } bool ov = false; l.c = clampMul(l.c, c->smin, ov); ok &= !ov && l.c < LINMAX && l.c > -LINMAX;
    if (ok) lins.emplace(e, l);
  }
  return e;
}
static Expr* zcmp(EK k, Expr* a, Expr* b);
static Expr* zcmpL(EK k, Expr* a, Expr* b);
static Expr* linBuild(const Lin& r);
static Expr* linCmp0(EK k, const Lin& r) { if (r.t.empty()) return zcmpL(k, zConst(r.c), zConst(0)); Lin p = r; i128 c = p.c; p.c = 0; return zcmpL(k, linBuild(p), zConst(-c)); }
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b < 0) --q; return q; }   // b > 0
// G*X + S cmp 0 with a large common factor G and S confined to a short range: split into narrow comparisons.
static Expr* gapCmp(EK k, const Lin& r0) {
  if (r0.t.size() < 1 || r0.t.size() > 12) return nullptr; auto ab = [](i128 v) { return v < 0 ? -v : v; };
  const i128 BIG = (i128)1 << 16; bool any = false; for (auto& q : r0.t) any |= ab(q.second) >= BIG; if (!any) return nullptr;
  Lin r = r0; std::stable_sort(r.t.begin(), r.t.end(), [&](const std::pair<Expr*, i128>& a, const std::pair<Expr*, i128>& b) { return ab(a.second) > ab(b.second); });
  if (k == E_SLT) { r.c += 1; k = E_SLE; }
  i128 G = 0;
  for (size_t n = 1; n <= r.t.size(); ++n) {
    { i128 p = G, q = ab(r.t[n - 1].second); while (q) { i128 t = p % q; p = q; q = t; } G = p; }
    if (G < ((i128)1 << 12)) return nullptr;
    if (n < r.t.size() && ab(r.t[n].second) % G == 0) continue;
    i128 slo = r.c, shi = r.c; bool ov = false; for (size_t i = n; i < r.t.size(); ++i) { i128 a = clampMul(r.t[i].first->smin, r.t[i].second, ov), b = clampMul(r.t[i].first->smax, r.t[i].second, ov); slo += std::min(a, b); shi += std::max(a, b); }
    if (ov) return nullptr;
    const i128 q0 = k == E_EQ ? -fdiv(shi, G) : fdiv(-shi, G), q1 = fdiv(-slo, G);
    if (k == E_EQ && q0 > q1) return mkFalse();
    if (q1 - q0 > 2) continue;
    Lin X, S; for (size_t i = 0; i < n; ++i) X.t.push_back({r.t[i].first, r.t[i].second / G}); for (size_t i = n; i < r.t.size(); ++i) S.t.push_back(r.t[i]);
    auto byId = [](const std::pair<Expr*, i128>& a, const std::pair<Expr*, i128>& b) { return a.first->id < b.first->id; }; std::sort(X.t.begin(), X.t.end(), byId); std::sort(S.t.begin(), S.t.end(), byId);
    Expr* res = mkFalse();
    if (k == E_EQ) { for (i128 q = q0; q <= q1; ++q) { X.c = -q; S.c = r.c + G * q; res = mkOr(res, mkAnd(linCmp0(E_EQ, X), linCmp0(E_EQ, S))); } }
    else { X.c = -q0; res = linCmp0(E_SLE, X); for (i128 q = q0 + 1; q <= q1; ++q) { X.c = -q; S.c = r.c + G * q; res = mkOr(res, mkAnd(linCmp0(E_EQ, X), linCmp0(E_SLE, S))); } }
    return res;
  }
  return nullptr;
}
static Expr* zcmpL(EK k, Expr* a, Expr* b) {   // cancel common terms and common factors first
  if (isC(a) && isC(b)) return zcmp(k, a, b);
  Lin x = linOf(a), y = linOf(b), r;
  if (x.t.size() + y.t.size() > 24 || !linComb(x, y, true, r)) return zcmp(k, a, b);
  if (r.t.empty()) return zcmp(k, zConst(r.c), zConst(0));
  u128 g = 0; auto gcd = [](u128 p, u128 q) { while (q) { u128 t = p % q; p = q; q = t; } return p; };
  for (auto& q : r.t) g = gcd(g, q.second < 0 ? (u128)-q.second : (u128)q.second);
  bool cancels = r.t.size() < x.t.size() + y.t.size();
  if (!cancels && g <= 1) { if (Expr* e = gapCmp(k, r)) return e; return zcmp(k, a, b); }
  if (g > 1) {
    i128 G = (i128)g, f = r.c / G, m = r.c % G; if (m < 0) { m += G; --f; }   // floor division of the constant
    for (auto& q : r.t) q.second /= G;
    // S + c <(=,<=) 0 with S a multiple of G: S/G + floor(c/G) etc.
    if (k == E_EQ) { if (m) return mkFalse(); r.c = f; }
    else if (k == E_SLT) r.c = m ? f + 0 : f;           // S' < -c/G ; m != 0: S' <= -f-1 <=> S' + f < 0
    else { if (m) { r.c = f; k = E_SLT; } else r.c = f; } // S' <= -f - m/G <=> S' < -f
  }
  if (Expr* e = gapCmp(k, r)) return e;
  Expr *p, *n; linSplit(r, p, n); return zcmp(k, p, n);
}
Expr* zNeg(Expr* a) { return zSub(zConst(0), a); }
Expr* zShl(Expr* a, unsigned n) { if (n == 0) return a; if (n > 120) engineFatal("zShl"); return zMul(a, zConst((i128)1 << n)); }
static Expr* zcmp(EK k, Expr* a, Expr* b) { unsigned w = std::max(2u, bitsFor(std::min(a->smin, b->smin), std::max(a->smax, b->smax))); return mkBin(k, narrowTo(a, w), narrowTo(b, w)); }
Expr* zLt(Expr* a, Expr* b) { return zcmpL(E_SLT, a, b); }
Expr* zLe(Expr* a, Expr* b) { return zcmpL(E_SLE, a, b); }
Expr* zEq(Expr* a, Expr* b) { return zcmpL(E_EQ, a, b); }
static Expr* linBuild(const Lin& r) {
  Expr *p, *n; linSplit(r, p, n); Expr* e = rawSub(p, n);
  if (!isC(e) && !(r.t.size() == 1 && r.t[0].second == 1 && r.c == 0)) lins.emplace(e, r);
  return e;
}
Expr* zFloorPow2(Expr* a, unsigned n) {
  if (n == 0) return a; if (isC(a)) return zConst(n > 126 ? (a->smin < 0 ? -1 : 0) : a->smin >> n);
  if (n >= 120) engineFatal("zFloorPow2");
  Lin l = linOf(a), hi, lo; const i128 M = (i128)1 << n;
  for (auto& q : l.t) { if (q.second % M == 0) hi.t.push_back({q.first, q.second / M}); else lo.t.push_back(q); }
  if (lo.t.empty()) { hi.c = l.c >> n; return linBuild(hi); }
  Expr* d = zConst((i128)n); unsigned w = std::max(a->w, d->w); return tighten(mkBin(E_ASHR, narrowTo(a, w), mkConst(n, w)));
}
unsigned zPow2(Expr* a, Expr*& q) {
  q = a; if (isC(a)) { if (a->smin == 0) return 0; i128 v = a->smin; unsigned t = 0; while (!(v & 1)) { v >>= 1; ++t; } if (t) q = zConst(v); return t; }
  auto i = lins.find(a); if (i == lins.end()) { Expr* s = stripS(a); if (s != a) i = lins.find(s); if (i == lins.end()) return 0; }
  const Lin& l = i->second; u128 o = (u128)l.c; for (auto& x : l.t) o |= (u128)(x.second); if (!o) return 0; unsigned t = 0; while (!((o >> t) & 1)) ++t; if (!t) return 0;
  Lin r; r.c = l.c >> t; for (auto& x : l.t) r.t.push_back({x.first, x.second >> t}); q = linBuild(r); return t;
}
static u128 linGcd(const Lin& l, u128 g) { auto f = [&](i128 v) { u128 q = v < 0 ? (u128)-v : (u128)v, p = g; while (q) { u128 t = p % q; p = q; q = t; } g = p; }; f(l.c); for (auto& x : l.t) f(x.second); return g; }
static Expr* zIteRaw(Expr* c, Expr* a, Expr* b) {
  unsigned w = std::max(2u, bitsFor(std::min(a->smin, b->smin), std::max(a->smax, b->smax)));
  return tighten(mkIte(c, narrowTo(a, w), narrowTo(b, w)));
}
Expr* zIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->cv ? a : b;
  Lin x = linOf(a), y = linOf(b); u128 g = linGcd(y, linGcd(x, 0));
  if (g > 1 && g < ((u128)1 << 100)) {   // pull the common factor out
    i128 G = (i128)g; for (Lin* l : {&x, &y}) { l->c /= G; for (auto& q : l->t) q.second /= G; }
    return zMul(zIteRaw(c, linBuild(x), linBuild(y)), zConst(G));
  }
  return zIteRaw(c, a, b);
}

// ---- model evaluation ----
Expr* mkTab(std::vector<uint32_t> vs, std::vector<u128> t, unsigned w) {
  for (size_t i = 1;; ++i) { if (i == t.size()) return mkConst(t[0], w); if (t[i] != t[0]) break; }
  static std::unordered_map<uint64_t, std::vector<uint32_t>> ids; uint64_t h = w; for (uint32_t v : vs) h = mix(h, v); for (u128 v : t) { h = mix(h, (uint64_t)v); h = mix(h, (uint64_t)(v >> 64)); }
  for (uint32_t i : ids[h]) if (gTabFns[i].vs == vs && gTabFns[i].t == t) return intern(E_TAB, w, i, 0, 0, 0);
  ids[h].push_back(gTabFns.size()); gTabFns.push_back(TabFn{vs, t}); return intern(E_TAB, w, gTabFns.size() - 1, 0, 0, 0);
}
static u128 evalTab(const TabFn& f, const Model& m) {
  size_t i = 0;
  for (uint32_t v : f.vs) { VarInfo& vi = gVars[v]; u128 x = evalE(vi.e, m); const i128 lo = vi.w == 1 ? 0 : vi.lo, hi = vi.w == 1 ? 1 : vi.hi, y = vi.w == 1 ? (i128)x : sextW(x, vi.w); if (y < lo || y > hi) return f.t[0]; i = i * (size_t)(hi - lo + 1) + (size_t)(y - lo); }
  return f.t[i];
}
u128 evalE(Expr* e, const Model& m) {
  if (e->k == E_CONST) return e->cv;
  if (e->mepoch == m.epoch && m.epoch) return e->mval;
  u128 r = 0; unsigned w = e->w;
  switch (e->k) {
    case E_VAR: if (e->aux < m.v.size()) r = m.v[e->aux] & maskW(w);
      else { i128 d = gVars[e->aux].lo > 0 ? gVars[e->aux].lo : (gVars[e->aux].hi < 0 ? gVars[e->aux].hi : 0); r = (u128)d & maskW(w); } break;
    case E_TAB: r = evalTab(gTabFns[e->aux], m); break;
    case E_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    case E_EXTRACT: r = (evalE(e->a, m) >> e->aux) & maskW(w); break;
    case E_ZEXT: r = evalE(e->a, m); break;
    case E_SEXT: r = (u128)sextW(evalE(e->a, m), e->a->w) & maskW(w); break;
    case E_CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    default: { bool ok; u128 x = evalE(e->a, m), y = evalE(e->b, m); r = foldBin(e->k, x, y, e->a->w, ok); if (!ok) engineFatal("evalE"); }
  }
  e->mepoch = m.epoch; e->mval = r; return r;
}
