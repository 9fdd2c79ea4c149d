// Compact register bytecode translated from LLVM bitcode.
#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <map>
#include <string>
#include <vector>

enum OP : uint16_t {
  O_NOP, O_MOV, O_BIN, O_ICMP, O_FCMP, O_FBIN, O_FNEG, O_ITRUNC, O_ZEXT, O_SEXT, O_FPTOI, O_ITOFP, O_FPTRUNC, O_FPEXT,
  O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_SELECT, O_JMP, O_BR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_RMW, O_CMPXCHG, O_UNSUP
};
enum FB { F_ADD, F_SUB, F_MUL, F_DIV, F_REM };
struct Ins { uint16_t op; uint16_t k; uint8_t w, w2, sgn, flag; int32_t dst, a, b, c; uint32_t x, n; int64_t imm; uint32_t dl; };
struct SwTab { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct Func;
struct State;
struct Thread;
enum BR { B_OK, B_STOP, B_BLOCK };   // builtin result: continue, state finished/killed, re-schedule
typedef BR (*Builtin)(State&, const Ins&, Val* args, unsigned n, Val* ret);
struct Func {
  std::string name, file; const llvm::Function* F = nullptr; Builtin bi = nullptr; bool resolved = false, translated = false, used = false;
  std::vector<Ins> code; int nslots = 0, nargs = 0; int id = 0; std::vector<std::pair<int, unsigned>> byval; // arg slot, size
  uint64_t calls = 0;
};
extern std::vector<Func*> gFuncs;
extern std::vector<Val> gConsts;
extern std::vector<int32_t> gX;
extern std::vector<SwTab> gSw;
extern std::vector<std::string> gDLs;
void translate(Func* f);
void loadModule(const std::string& path);
uint64_t globalAddr(const llvm::GlobalValue* g);
Func* funcByName(const std::string& n);
struct GlobInit { const llvm::GlobalVariable* G; uint32_t id; uint64_t size; };
extern std::vector<GlobInit> gGlobs;
extern uint32_t gFirstFuncObj, gNumBaseObjs;
void initBytes(const llvm::Constant* c, uint8_t* p);
extern std::vector<Func*> gCtors;
