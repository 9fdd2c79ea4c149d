// Hash-consed bit-vector expressions with structural signed ranges.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 i128;

[[noreturn]] void engineFatal(const std::string& msg);

enum EK : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_TAB
};

struct Expr {
  EK k; bool mark = false; uint16_t w; uint32_t aux; uint32_t id;
  Expr *a, *b, *c;
  u128 cv;                 // constant value
  i128 smin, smax;         // structural signed range
  void* z3 = nullptr;      // Z3_ast
  void* proxy = nullptr;   // Z3_ast literal used as assumption
  uint32_t z3gen = 0;
  uint64_t mepoch = 0; u128 mval = 0;   // model evaluation cache
};

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextW(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskW(w);
  return (i128)((v ^ m) - m);
}
static inline i128 sminW(unsigned w) { return w >= 128 ? (i128)((u128)1 << 127) : -((i128)1 << (w - 1)); }
static inline i128 smaxW(unsigned w) { return w >= 128 ? (i128)(~((u128)1 << 127)) : ((i128)1 << (w - 1)) - 1; }
static inline unsigned bitsFor(i128 lo, i128 hi) {   // signed width holding [lo,hi]
  unsigned w = 1;
  while (w < 128 && (lo < sminW(w) || hi > smaxW(w))) ++w;
  return w;
}
std::string i128str(i128 v);

struct VarInfo { std::string name; unsigned w; i128 lo, hi; bool isU; void* uinfo; Expr* e; };
extern std::vector<VarInfo> gVars;

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w, i128 lo, i128 hi, bool isU = false, void* uinfo = nullptr);
Expr* mkBin(EK k, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkConcat(Expr* hi, Expr* lo);
static inline bool isC(const Expr* e) { return e->k == E_CONST; }
static inline Expr* mkTrue() { return mkConst(1, 1); }
static inline Expr* mkFalse() { return mkConst(0, 1); }
static inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(E_AND, a, b); }
static inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(E_OR, a, b); }
// Exact signed integer ("lattice") helpers: widths chosen so that no overflow is possible.
Expr* zConst(i128 v);
Expr* zAdd(Expr* a, Expr* b);
Expr* zSub(Expr* a, Expr* b);
Expr* zMul(Expr* a, Expr* b);
Expr* zNeg(Expr* a);
Expr* zShl(Expr* a, unsigned n);
Expr* zLt(Expr* a, Expr* b);
Expr* zLe(Expr* a, Expr* b);
Expr* zEq(Expr* a, Expr* b);
Expr* zIte(Expr* c, Expr* a, Expr* b);
Expr* zFloorPow2(Expr* a, unsigned n);          // floor(a / 2^n)
unsigned zPow2(Expr* a, Expr*& q);               // largest known t with a == q * 2^t
bool zFits(i128 lo, i128 hi, unsigned maxw = 126);

struct Model { std::vector<u128> v; uint64_t epoch = 0; };   // by var aux index
u128 evalE(Expr* e, const Model& m);
// An integer given by its value table over the joint domain of a few variables.
struct TabFn { std::vector<uint32_t> vs; std::vector<u128> t; };
extern std::vector<TabFn> gTabFns;
Expr* mkTab(std::vector<uint32_t> vs, std::vector<u128> t, unsigned w);
