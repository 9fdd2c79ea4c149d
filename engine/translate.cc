#include "ir.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;

std::vector<Func*> gFuncs; std::vector<Val> gConsts; std::vector<int32_t> gX; std::vector<SwTab> gSw; std::vector<std::string> gDLs;
std::vector<GlobInit> gGlobs; uint32_t gFirstFuncObj, gNumBaseObjs; std::vector<Func*> gCtors;
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<const GlobalValue*, uint32_t> gid; static std::map<const Function*, Func*> fmap; static std::map<std::string, Func*> fname;
static std::map<uint64_t, int> constIdx; static std::map<std::string, uint32_t> dlIdx;

static int constSlot(uint64_t v) { auto it = constIdx.find(v); if (it != constIdx.end()) return it->second; gConsts.push_back(Val(v)); int i = ~(int)(gConsts.size() - 1); constIdx[v] = i; return i; }
struct Leaf { Type* t; uint64_t off; };
static void flat(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) flat(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); ++i) flat(a->getElementType(), off + i * sz, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) flat(v->getElementType(), off + i * sz, out); return; }
  if (t->isVoidTy()) return;
  out.push_back({t, off});
}
static std::map<Type*, std::vector<Leaf>> flatCache;
static const std::vector<Leaf>& leaves(Type* t) { auto it = flatCache.find(t); if (it != flatCache.end()) return it->second; std::vector<Leaf> o; flat(t, 0, o); return flatCache[t] = o; }
static unsigned nl(Type* t) { return leaves(t).size(); }
static unsigned width(Type* t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) return 255; return w; }
  if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; return 255;
}
uint64_t globalAddr(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) g = ga->getAliaseeObject();
  auto it = gid.find(g); if (it == gid.end()) engineFatal("unknown global " + g->getName().str()); return (uint64_t)it->second << 32;
}
static uint64_t maskv(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint64_t scalarConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().trunc(64).getZExtValue(); return ci->getZExtValue(); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(e)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) engineFatal("const gep"); return scalarConst(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue(); }
    uint64_t a = scalarConst(e->getOperand(0)), b = e->getNumOperands() > 1 ? scalarConst(e->getOperand(1)) : 0; unsigned w = width(e->getType());
    switch (e->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return a & maskv(w);
      case Instruction::Add: return (a + b) & maskv(w); case Instruction::Sub: return (a - b) & maskv(w);
      case Instruction::Mul: return (a * b) & maskv(w);
      case Instruction::And: return a & b; case Instruction::Or: return a | b; case Instruction::Xor: return a ^ b;
      case Instruction::ICmp: { auto p = (CmpInst::Predicate)e->getPredicate(); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; if (p == CmpInst::ICMP_ULT) return a < b; break; }
      default: break;
    }
    engineFatal("constant expression");
  }
  std::string s; raw_string_ostream os(s); c->print(os); engineFatal("constant: " + os.str());
}
static void constLeaves(const Constant* c, std::vector<uint64_t>& out) {
  Type* t = c->getType();
  if (t->isAggregateType() || t->isVectorTy()) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (unsigned i = 0; i < nl(t); ++i) out.push_back(0); return; }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) constLeaves(c->getAggregateElement(i), out);
    return;
  }
  out.push_back(scalarConst(c));
}
void initBytes(const Constant* c, uint8_t* p) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (t->isStructTy()) { auto* L = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); ++i) initBytes(c->getAggregateElement(i), p + L->getElementOffset(i)); return; }
  if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); uint64_t sz = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < n; ++i) initBytes(c->getAggregateElement(i), p + i * sz); return; }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { APInt v = cast<ConstantInt>(c)->getValue(); memcpy(p, v.getRawData(), (t->getIntegerBitWidth() + 7) / 8); return; }
  if (t->isX86_FP80Ty()) { APInt b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy(p, b.getRawData(), 10); return; }
  uint64_t v = scalarConst(c); memcpy(p, &v, DL->getTypeStoreSize(t));
}

void loadModule(const std::string& path) {
  SMDiagnostic err; M = parseIRFile(path, err, Ctx); if (!M) engineFatal("cannot load " + path + ": " + err.getMessage().str());
  DL = &M->getDataLayout();
  uint32_t id = 1;
  for (auto& g : M->globals()) {
    uint64_t sz = g.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : std::max<uint64_t>(4096, g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0);
    gid[&g] = id; gGlobs.push_back({&g, id, sz}); ++id;
  }
  gFirstFuncObj = id;
  for (auto& f : M->functions()) {
    Func* fn = new Func(); fn->F = &f; fn->name = f.getName().str(); fn->id = gFuncs.size(); gFuncs.push_back(fn); fmap[&f] = fn; fname[fn->name] = fn; gid[&f] = id++;
    if (auto* sp = f.getSubprogram()) fn->file = (sp->getFilename().startswith("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str();
  }
  gNumBaseObjs = id;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) if (auto* f = dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts())) gCtors.push_back(fmap[f]);
  gDLs.push_back("?");
}
Func* funcByName(const std::string& n) { auto it = fname.find(n); return it == fname.end() ? nullptr : it->second; }

namespace {
struct TR {
  Func* f; std::map<const Value*, int> slot; int next = 0; uint32_t curDL = 0;
  std::map<const BasicBlock*, uint32_t> bbStart; struct Fix { uint32_t ins; const BasicBlock* bb; int kind; uint32_t sw; uint32_t idx; }; std::vector<Fix> fixes;
  Ins& emit(OP op) { Ins i; memset(&i, 0, sizeof i); i.op = op; i.dl = curDL; f->code.push_back(i); return f->code.back(); }
  int op(const Value* v, unsigned leaf = 0) {
    if (auto* cf = dyn_cast<ConstantFP>(v)) if (cf->getType()->isX86_FP80Ty()) { APInt b = cf->getValueAPF().bitcastToAPInt(); long double x = 0; memcpy(&x, b.getRawData(), 10); gConsts.push_back(ldConst(x)); return ~(int)(gConsts.size() - 1); }
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<uint64_t> l; constLeaves(c, l); return constSlot(l.at(leaf)); }
    if (isa<MetadataAsValue>(v)) return constSlot(0);
    auto it = slot.find(v); if (it == slot.end()) engineFatal("operand slot in " + f->name); return it->second + leaf;
  }
  void def(const Value* v) { if (v->getType()->isVoidTy() || slot.count(v)) return; slot[v] = next; next += nl(v->getType()); }
  void edge(const BasicBlock* from, const BasicBlock* to, Ins& j) {
    (void)j;
  }
  // emit jump with phi copies; returns index
  uint32_t jump(const BasicBlock* from, const BasicBlock* to) {
    std::vector<int32_t> cp;
    for (auto& ph : to->phis()) { const Value* in = ph.getIncomingValueForBlock(from); for (unsigned i = 0; i < nl(ph.getType()); ++i) { if (isa<UndefValue>(in)) { } cp.push_back(slot[&ph] + i); cp.push_back(op(in, i)); } }
    Ins& j = emit(O_JMP); j.x = gX.size(); j.n = cp.size() / 2; gX.insert(gX.end(), cp.begin(), cp.end());
    uint32_t id = f->code.size() - 1; fixes.push_back({id, to, 0, 0, 0}); return id;
  }
  uint32_t dlOf(const Instruction& I) {
    const DebugLoc& d = I.getDebugLoc(); if (!d) return 0;
    auto* L = d.get(); std::string s = L->getFilename().str(); if (!s.empty() && s[0] != '/') s = L->getDirectory().str() + "/" + s; s += ":" + std::to_string(L->getLine());
    auto it = dlIdx.find(s); if (it != dlIdx.end()) return it->second; gDLs.push_back(s); return dlIdx[s] = gDLs.size() - 1;
  }
  void unsup(const Instruction& I) { std::string s; raw_string_ostream os(s); I.print(os); Ins& i = emit(O_UNSUP); gDLs.push_back("unsupported: " + os.str()); i.x = gDLs.size() - 1; }
  void gep(const GetElementPtrInst& g) {
    int64_t off = 0; std::vector<int32_t> xs; 
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
      const Value* idx = gti.getOperand();
      if (auto* st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
      uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * (int64_t)sz; continue; }
      xs.push_back(op(idx)); xs.push_back((int32_t)sz); xs.push_back(width(idx->getType()));
    }
    Ins& i = emit(O_GEP); i.dst = slot[&g]; i.a = op(g.getPointerOperand()); i.imm = off; i.x = gX.size(); i.n = xs.size() / 3; gX.insert(gX.end(), xs.begin(), xs.end());
  }
  void run() {
    const Function& F = *f->F;
    for (auto& a : F.args()) { def(&a); if (a.hasByValAttr()) f->byval.push_back({slot[&a], (unsigned)DL->getTypeAllocSize(a.getParamByValType())}); }
    f->nargs = next;
    for (auto& bb : F) for (auto& I : bb) def(&I);
    for (auto& bb : F) { bbStart[&bb] = f->code.size(); for (auto& I : bb) { curDL = dlOf(I); ins(I, bb); } }
    for (auto& x : fixes) { uint32_t t = x.kind == 2 ? 0 : bbStart[x.bb]; if (x.kind == 0) f->code[x.ins].imm = t; }
    f->nslots = next + 1;
  }
  void ins(const Instruction& I, const BasicBlock& bb) {
    Type* T = I.getType();
    auto scalarLoop = [&](Type* ty, std::function<void(unsigned)> fn) { for (unsigned i = 0; i < nl(ty); ++i) fn(i); };
    switch (I.getOpcode()) {
      case Instruction::PHI: return;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        EK k = E_ADD;
        switch (I.getOpcode()) { case Instruction::Add: k = E_ADD; break; case Instruction::Sub: k = E_SUB; break; case Instruction::Mul: k = E_MUL; break; case Instruction::UDiv: k = E_UDIV; break; case Instruction::SDiv: k = E_SDIV; break; case Instruction::URem: k = E_UREM; break; case Instruction::SRem: k = E_SREM; break; case Instruction::And: k = E_AND; break; case Instruction::Or: k = E_OR; break; case Instruction::Xor: k = E_XOR; break; case Instruction::Shl: k = E_SHL; break; case Instruction::LShr: k = E_LSHR; break; default: k = E_ASHR; }
        if (width(leaves(T)[0].t) == 255) { unsup(I); return; }
        for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_BIN); n.k = k; n.w = width(leaves(T)[i].t); n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i); n.b = op(I.getOperand(1), i); }
        return; }
      case Instruction::ICmp: { Type* ot = I.getOperand(0)->getType(); if (width(leaves(ot)[0].t) == 255) { unsup(I); return; }
        for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_ICMP); n.k = cast<ICmpInst>(I).getPredicate(); n.w = width(leaves(ot)[i].t); n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i); n.b = op(I.getOperand(1), i); } return; }
      case Instruction::FCmp: { Type* ot = I.getOperand(0)->getType(); if (width(leaves(ot)[0].t) == 255) { unsup(I); return; }
        for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_FCMP); n.k = cast<FCmpInst>(I).getPredicate(); n.w = width(leaves(ot)[i].t); n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i); n.b = op(I.getOperand(1), i); } return; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if (width(leaves(T)[0].t) == 255) { unsup(I); return; }
        for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_FBIN); unsigned o = I.getOpcode(); n.k = o == Instruction::FAdd ? F_ADD : o == Instruction::FSub ? F_SUB : o == Instruction::FMul ? F_MUL : o == Instruction::FDiv ? F_DIV : F_REM; n.w = width(leaves(T)[i].t); n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i); n.b = op(I.getOperand(1), i); }
        return; }
      case Instruction::FNeg: for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_FNEG); n.w = width(leaves(T)[i].t); n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i); } return;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Type* ot = I.getOperand(0)->getType();
        if (width(leaves(ot)[0].t) == 255 || width(leaves(T)[0].t) == 255) { unsup(I); return; }
        for (unsigned i = 0; i < nl(T); ++i) {
          OP o = O_MOV; unsigned c = I.getOpcode(); unsigned w = width(leaves(T)[i].t), w2 = width(leaves(ot)[i].t);
          if (c == Instruction::Trunc) o = O_ITRUNC; else if (c == Instruction::ZExt) o = O_ZEXT; else if (c == Instruction::SExt) o = O_SEXT;
          else if (c == Instruction::FPToSI || c == Instruction::FPToUI) o = O_FPTOI; else if (c == Instruction::SIToFP || c == Instruction::UIToFP) o = O_ITOFP;
          else if (c == Instruction::FPTrunc) o = O_FPTRUNC; else if (c == Instruction::FPExt) o = O_FPEXT;
          else if (w < w2) o = O_ITRUNC; else if (w > w2) o = O_ZEXT;
          Ins& n = emit(o); n.w = w; n.w2 = w2; n.sgn = c == Instruction::FPToSI || c == Instruction::SIToFP; n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i);
        }
        return; }
      case Instruction::BitCast: { Type* ot = I.getOperand(0)->getType();
        if (nl(ot) == nl(T) && width(leaves(ot)[0].t) == width(leaves(T)[0].t) && width(leaves(T)[0].t) != 255) { for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_MOV); n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i); } } else unsup(I);
        return; }
      case Instruction::Freeze: for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_MOV); n.dst = slot[&I] + i; n.a = op(I.getOperand(0), i); } return;
      case Instruction::Load: { auto& ls = leaves(T); if (ls.empty()) return; if (width(ls[0].t) == 255) { unsup(I); return; }
        // address in a temp is safe: dst of leaf 0 could alias the address slot only in SSA cycles (impossible)
        for (unsigned i = 0; i < ls.size(); ++i) { Ins& n = emit(O_LOAD); n.w = width(ls[i].t); n.flag = ls[i].t->isDoubleTy(); n.dst = slot[&I] + i; n.a = op(I.getOperand(0)); n.imm = ls[i].off; } return; }
      case Instruction::Store: { Type* vt = I.getOperand(0)->getType(); auto& ls = leaves(vt);  if (ls.empty()) return;
        if (width(ls[0].t) == 255) { if (auto* c = dyn_cast<ConstantInt>(I.getOperand(0))) { unsigned nb = c->getBitWidth() / 8; for (unsigned o = 0; o < nb; o += 8) { unsigned k = std::min(8u, nb - o); Ins& n = emit(O_STORE); n.w = k * 8; n.a = op(I.getOperand(1)); n.b = constSlot(c->getValue().extractBitsAsZExtValue(k * 8, o * 8)); n.imm = o; } return; } unsup(I); return; }
        for (unsigned i = 0; i < ls.size(); ++i) { Ins& n = emit(O_STORE); n.w = width(ls[i].t); n.a = op(I.getOperand(1)); n.b = op(I.getOperand(0), i); n.imm = ls[i].off; } return; }
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); Ins& n = emit(O_ALLOCA); n.dst = slot[&I]; n.imm = DL->getTypeAllocSize(A.getAllocatedType()); n.a = op(A.getArraySize()); return; }
      case Instruction::GetElementPtr: gep(cast<GetElementPtrInst>(I)); return;
      case Instruction::Select: { bool vc = I.getOperand(0)->getType()->isVectorTy();
        for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_SELECT); Type* lt = leaves(T)[i].t; n.w = width(lt); n.flag = lt->isPointerTy() ? 1 : lt->isDoubleTy() ? 2 : lt->isX86_FP80Ty() ? 4 : 0; n.dst = slot[&I] + i; n.c = op(I.getOperand(0), vc ? i : 0); n.a = op(I.getOperand(1), i); n.b = op(I.getOperand(2), i); } return; }
      case Instruction::Br: { auto& B = cast<BranchInst>(I);
        if (B.isUnconditional()) { jump(&bb, B.getSuccessor(0)); return; }
        uint32_t at = f->code.size(); { Ins& n = emit(O_BR); n.a = op(B.getCondition()); }
        uint32_t t = jump(&bb, B.getSuccessor(0)), e = jump(&bb, B.getSuccessor(1)); f->code[at].b = t; f->code[at].c = e; return; }
      case Instruction::Switch: { auto& W = cast<SwitchInst>(I); uint32_t at = f->code.size(); { Ins& n = emit(O_SWITCH); n.a = op(W.getCondition()); n.w = width(W.getCondition()->getType()); }
        SwTab tab; tab.def = jump(&bb, W.getDefaultDest()); for (auto& c : W.cases()) tab.cases.push_back({c.getCaseValue()->getZExtValue(), jump(&bb, c.getCaseSuccessor())});
        gSw.push_back(tab); f->code[at].x = gSw.size() - 1; return; }
      case Instruction::Ret: { std::vector<int32_t> xs; if (I.getNumOperands()) for (unsigned i = 0; i < nl(I.getOperand(0)->getType()); ++i) xs.push_back(op(I.getOperand(0), i));
        Ins& n = emit(O_RET); n.x = gX.size(); n.n = xs.size(); gX.insert(gX.end(), xs.begin(), xs.end()); return; }
      case Instruction::Unreachable: emit(O_UNREACH); return;
      case Instruction::Call: {
        auto& Cc = cast<CallInst>(I);
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
          switch (II->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::prefetch: return;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: { Ins& n = emit(O_MOV); n.dst = slot[&I]; n.a = op(I.getOperand(0)); return; }
            default: break; }
        }
        if (isa<InlineAsm>(Cc.getCalledOperand())) { if (!T->isVoidTy()) unsup(I); return; }
        std::vector<int32_t> xs; 
        for (unsigned i = 0; i < Cc.arg_size(); ++i) { const Value* a = Cc.getArgOperand(i); for (unsigned j = 0; j < nl(a->getType()); ++j) xs.push_back(op(a, j)); }
        const Function* cf = dyn_cast<Function>(Cc.getCalledOperand()->stripPointerCasts());
        if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(Cc.getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliaseeObject());
        int callee = cf ? 0 : op(Cc.getCalledOperand());
        Ins& n = emit(O_CALL); n.x = gX.size(); n.n = xs.size(); gX.insert(gX.end(), xs.begin(), xs.end());
        n.dst = T->isVoidTy() ? -1 : slot[&I]; n.b = nl(T);
        if (cf) { n.imm = fmap[cf]->id; n.flag = 0; } else { n.flag = 1; n.a = callee; }
        if (!T->isVoidTy() && nl(T)) n.w = width(leaves(T)[0].t);
        if (!Cc.arg_empty()) { auto& l0 = leaves(Cc.getArgOperand(0)->getType()); if (!l0.empty()) n.w2 = width(l0[0].t); }
        // per-arg widths for vararg formatting: flag bit via c: offset of a kind list
        std::vector<int32_t> kinds; for (unsigned i = 0; i < Cc.arg_size(); ++i) for (auto& l : leaves(Cc.getArgOperand(i)->getType())) kinds.push_back(width(l.t) | (l.t->isFloatingPointTy() ? 1024 : 0));
        n.c = gX.size(); gX.insert(gX.end(), kinds.begin(), kinds.end());
        return; }
      case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); Type* at = E.getAggregateOperand()->getType(); unsigned base = 0; Type* t = at; for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; ++k) base += nl(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_MOV); n.dst = slot[&I] + i; n.a = op(E.getAggregateOperand(), base + i); } return; }
      case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); unsigned base = 0; Type* t = T; for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; ++k) base += nl(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_MOV); n.dst = slot[&I] + i; bool in = i >= base && i < base + nl(t); n.a = in ? op(E.getInsertedValueOperand(), i - base) : op(E.getAggregateOperand(), i); } return; }
      case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { unsup(I); return; } Ins& n = emit(O_MOV); n.dst = slot[&I]; n.a = op(I.getOperand(0), ci->getZExtValue()); return; }
      case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsup(I); return; } unsigned ix = ci->getZExtValue(); for (unsigned i = 0; i < nl(T); ++i) { Ins& n = emit(O_MOV); n.dst = slot[&I] + i; n.a = i == ix ? op(I.getOperand(1)) : op(I.getOperand(0), i); } return; }
      case Instruction::ShuffleVector: { auto& SV = cast<ShuffleVectorInst>(I); unsigned n0 = nl(SV.getOperand(0)->getType()); for (unsigned i = 0; i < nl(T); ++i) { int m = SV.getMaskValue(i); Ins& n = emit(O_MOV); n.dst = slot[&I] + i; n.a = m < 0 ? constSlot(0) : (unsigned)m < n0 ? op(SV.getOperand(0), m) : op(SV.getOperand(1), m - n0); } return; }
      case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); unsigned w = width(T); EK k; switch (A.getOperation()) { case AtomicRMWInst::Add: k = E_ADD; break; case AtomicRMWInst::Sub: k = E_SUB; break; case AtomicRMWInst::And: k = E_AND; break; case AtomicRMWInst::Or: k = E_OR; break; case AtomicRMWInst::Xchg: k = E_CONST; break; default: unsup(I); return; }
        Ins& n = emit(O_RMW); n.k = k; n.w = w; n.dst = slot[&I]; n.a = op(A.getPointerOperand()); n.b = op(A.getValOperand()); return; }
      case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); Ins& n = emit(O_CMPXCHG); n.w = width(A.getCompareOperand()->getType()); n.dst = slot[&I]; n.a = op(A.getPointerOperand()); n.b = op(A.getCompareOperand()); n.c = op(A.getNewValOperand()); return; }
      case Instruction::Fence: return;
      default: unsup(I); return;
    }
  }
};
}
void translate(Func* f) { f->translated = true; TR t; t.f = f; t.run(); }
