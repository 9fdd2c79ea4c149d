// Symbolic doubles: exact rational images of lattice inputs, with rounding-error bounds,
// an operation DAG for bit-exact evaluation under a model, and tie variables refined lazily.
#pragma once
#include "expr.h"
#include <functional>

struct LReal;
// A machine value: concrete 64-bit word, a symbolic integer, or a symbolic double.
struct Val {
  uint64_t c; uintptr_t s;
  Val(): c(0), s(0) {}
  explicit Val(uint64_t v): c(v), s(0) {}
  static Val E(Expr* e) { Val v; if (isC(e)) { v.c = (uint64_t)e->cv; } else v.s = (uintptr_t)e; return v; }
  static Val R(LReal* r) { Val v; v.s = (uintptr_t)r | 1; return v; }
  bool conc() const { return s == 0; }
  bool isE() const { return s && !(s & 1); }
  bool isR() const { return s & 1; }
  Expr* e() const { return (Expr*)s; }
  LReal* r() const { return (LReal*)(s & ~(uintptr_t)1); }
};
static inline double toD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static inline uint64_t fromD(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }

enum RO : uint8_t { R_LEAF, R_ADD, R_SUB, R_MUL, R_DIV, R_NEG, R_ABS, R_SQRT, R_ITE, R_I2F, R_FLOOR, R_CEIL, R_TRUNC, R_MIN, R_MAX, R_ROUND, R_FN1, R_FN2, R_LCONST, R_LEXT, R_LTOD };

// value = num/den * 2^sc * sqrt(rad), |double - value| <= err
struct LReal {
  Expr* num; Expr* den;   // den null == 1, den > 0 always
  int sc; LReal* rad;
  double err;             // absolute error bound (0: exactly representable and exact)
  bool cr;                // the double is the correctly rounded image of the real
  RO op; Val a, b; Expr* cond; bool uns = false;
  double mag;             // bound on |value|
  LReal* base = nullptr; LReal* off = nullptr; bool absd = false;   // value = [|] base + off [|], base a surd, off rational; only compared
  uint64_t mepoch = 0; double mval = 0;
  uint32_t id;
  bool opq = false;       // no algebraic image: a function of few lattice inputs, evaluated bit-exactly and encoded extensionally
  bool ld = false; long double lval = 0; long double (*lfn1)(long double) = nullptr;   // extended-precision value (never has an algebraic image)
  double (*fn1)(double) = nullptr; double (*fn2)(double, double) = nullptr;
};

// A tie/ambiguity variable: its truth is determined by evaluating the double comparison.
struct UInfo { int kind; Val a, b; int pred; LReal* r; Expr* tie; std::vector<uint32_t> support; Expr* var; };

Val realVar(Expr* k, int sc);                 // lattice leaf k*2^sc
bool realFromConst(double d, LReal*& out);    // false for inf/nan
struct RealUnsupported { std::string why; };
Val realBin(RO op, const Val& a, const Val& b);  // throws RealUnsupported
Val realUn(RO op, const Val& a);
Val realIte(Expr* c, const Val& a, const Val& b);
Val realFromInt(Expr* e, bool isSigned);      // sitofp / uitofp
Expr* realCmp(int pred, const Val& a, const Val& b);  // pred: 0 eq 1 lt 2 le (ordered)
Expr* realToInt(const Val& a, unsigned w, bool isSigned);
Expr* realDenZero(const Val& a);              // condition "value is exactly zero"
double evalR(const Val& v, const Model& m);
void supportVars(const Val& v, std::vector<uint32_t>& out);
void supportVarsE(Expr* e, std::vector<uint32_t>& out);
LReal* asReal(const Val& v);
bool ufReal(const Val& v);

// Extensional encoding over the (small) joint domain of the support variables.
static const uint64_t TABMAX = 1 << 14;
extern uint64_t gEpoch; extern uint64_t gTables;
bool tabDomain(std::vector<uint32_t>& vs);      // sorts/uniques; false: too many assignments (or a tie variable)
Expr* tabPred(std::vector<uint32_t> vs, const std::function<bool(const Model&)>& f);
Expr* tabInt(std::vector<uint32_t> vs, unsigned w, const std::function<u128(const Model&)>& f, size_t maxVals);   // null: too many values
Expr* tabValue(std::vector<uint32_t> vs, unsigned w, const std::function<u128(const Model&)>& f);
Expr* tabExpand(Expr* e);
bool isOpq(const Val& v);
Val ldConst(long double x);
bool isLdConst(const Val& v);
LReal* ldNode(RO op, const Val& a, const Val& b, bool ld);   // op over extended-precision operands (R_LTOD: double result)
long double evalRL(const Val& v, const Model& m);
bool opqFn(RO op, const Val& a, const Val& b, double (*f1)(double), double (*f2)(double, double), Val& out, Expr* cond = nullptr);   // false: domain too large
bool opqPred(const Val& a, const Val& b, const std::function<bool(double, double)>& f, Expr*& out);
