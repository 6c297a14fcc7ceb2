// LLVM 18 pass plugin: instruments IR so that every first-class SSA value has a
// companion "shadow" (an expression id, 0 = concrete) computed by the runtime.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
using namespace llvm;
namespace {

static bool isFDist(StringRef n) { return n.starts_with("_ZN5boost4math14float_distance"); }
struct Inst {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I1, *I8, *I32, *I64, *D, *P, *V;
  GlobalVariable *Args, *ArgPtrs, *Callee, *Ret, *RetTag;
  std::map<std::string, FunctionCallee> hooks;
  static const unsigned kMaxArgs = 48;

  explicit Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    D = Type::getDoubleTy(C); P = PointerType::get(C, 0);
    V = Type::getVoidTy(C);
    Args = gv("__vp_args", ArrayType::get(I32, kMaxArgs));
    ArgPtrs = gv("__vp_argptrs", ArrayType::get(P, kMaxArgs));
    Callee = gv("__vp_callee", P);
    Ret = gv("__vp_ret", ArrayType::get(I32, 16));
    RetTag = gv("__vp_rettag", P);
  }
  GlobalVariable *gv(const char *n, Type *t) {
    return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
  }
  FunctionCallee hook(const std::string &n, Type *r, ArrayRef<Type *> a) {
    auto it = hooks.find(n);
    if (it != hooks.end()) return it->second;
    FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    if (auto *F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
    hooks[n] = f;
    return f;
  }

  // ---- shadow types
  Type *shTy(Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) {
      std::vector<Type *> e;
      for (Type *x : s->elements()) e.push_back(shTy(x));
      return StructType::get(C, e);
    }
    if (auto *a = dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(a->getElementType()), a->getNumElements());
    return I32;
  }
  Constant *zero(Type *t) { return Constant::getNullValue(shTy(t)); }

  static bool isD(Type *t) { return t->isDoubleTy(); }
  bool isI(Type *t) { return t->isIntegerTy() && t->getIntegerBitWidth() <= 64; }
  bool isP(Type *t) { return t->isPointerTy(); }
  bool scalar(Type *t) { return isD(t) || isI(t) || isP(t); }

  // ---- per function
  Function *F;
  std::map<Value *, Value *> sh;
  Value *S(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    return zero(v->getType());
  }
  static bool isZ(Value *s) { auto *c = dyn_cast<Constant>(s); return c && c->isNullValue(); }

  // concrete value as i64 (signed-extended)
  Value *conc(IRBuilder<> &B, Value *v) {
    Type *t = v->getType();
    if (isP(t)) return B.CreatePtrToInt(v, I64);
    if (isD(t)) return B.CreateBitCast(v, I64);
    if (t == I64) return v;
    return B.CreateSExt(v, I64);
  }
  Value *c32(uint64_t x) { return ConstantInt::get(I32, x); }
  unsigned width(Type *t) { return isP(t) ? 64 : isD(t) ? 64 : t->getIntegerBitWidth(); }

  void leaves(Type *t, std::vector<unsigned> &path, uint64_t off,
              std::vector<std::pair<std::vector<unsigned>, std::pair<uint64_t, Type *>>> &out) {
    if (auto *s = dyn_cast<StructType>(t)) {
      if (!s->isSized()) return;
      const StructLayout *L = DL.getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); ++i) {
        path.push_back(i); leaves(s->getElementType(i), path, off + (uint64_t)L->getElementOffset(i), out); path.pop_back();
      }
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(a->getElementType());
      for (unsigned i = 0; i < a->getNumElements() && i < 64; ++i) {
        path.push_back(i); leaves(a->getElementType(), path, off + i * es, out); path.pop_back();
      }
    } else out.push_back({path, {off, t}});
  }
  std::vector<std::pair<std::vector<unsigned>, std::pair<uint64_t, Type *>>> leavesOf(Type *t) {
    std::vector<std::pair<std::vector<unsigned>, std::pair<uint64_t, Type *>>> o;
    std::vector<unsigned> p; leaves(t, p, 0, o); return o;
  }
  bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy(); }

  Value *ptrAdd(IRBuilder<> &B, Value *p, uint64_t off) {
    return off ? B.CreateGEP(I8, p, ConstantInt::get(I64, off)) : p;
  }
  Value *emitLoadShadow(IRBuilder<> &B, Value *ptr, Type *t, Value *val) {
    if (scalar(t)) {
      unsigned sz = DL.getTypeStoreSize(t);
      return B.CreateCall(hook("__vp_load", I32, {P, I32, I32, I64}), {ptr, c32(sz), c32(isD(t)), conc(B, val)});
    }
    if (isAgg(t)) {
      Value *r = zero(t);
      for (auto &l : leavesOf(t)) {
        if (!scalar(l.second.second)) continue;
        Value *lv = B.CreateExtractValue(val, l.first);
        r = B.CreateInsertValue(r, emitLoadShadow(B, ptrAdd(B, ptr, l.second.first), l.second.second, lv), l.first);
      }
      return r;
    }
    return zero(t);
  }
  void emitStoreShadow(IRBuilder<> &B, Value *ptr, Type *t, Value *s) {
    if (isAgg(t)) {
      if (isZ(s)) {
        B.CreateCall(hook("__vp_store", V, {P, I32, I32}), {ptr, c32(DL.getTypeStoreSize(t)), c32(0)});
        return;
      }
      for (auto &l : leavesOf(t))
        B.CreateCall(hook("__vp_store", V, {P, I32, I32}),
                     {ptrAdd(B, ptr, l.second.first), c32(DL.getTypeStoreSize(l.second.second)),
                      B.CreateExtractValue(s, l.first)});
      return;
    }
    if (t->isScalableTy()) return;
    B.CreateCall(hook("__vp_store", V, {P, I32, I32}), {ptr, c32(DL.getTypeStoreSize(t)), scalar(t) ? s : c32(0)});
  }
  void concretize(IRBuilder<> &B, Value *v) {
    Value *s = S(v);
    if (isZ(s) || !isI(v->getType())) return;
    B.CreateCall(hook("__vp_conc", V, {I32, I32, I64}), {s, c32(width(v->getType())), conc(B, v)});
  }

  Value *binI(IRBuilder<> &B, unsigned op, unsigned flags, Value *a, Value *b) {
    Value *sa = S(a), *sb = S(b);
    if (isZ(sa) && isZ(sb)) return c32(0);
    return B.CreateCall(hook("__vp_ibin", I32, {I32, I32, I32, I32, I64, I32, I64}),
                        {c32(op), c32(width(a->getType())), c32(flags), sa, conc(B, a), sb, conc(B, b)});
  }
  Value *binD(IRBuilder<> &B, unsigned op, Value *a, Value *b) {
    Value *sa = S(a), *sb = S(b);
    if (isZ(sa) && isZ(sb)) return c32(0);
    return B.CreateCall(hook("__vp_fbin", I32, {I32, I32, D, I32, D}), {c32(op), sa, a, sb, b});
  }
  Value *unD(IRBuilder<> &B, unsigned op, Value *a) {
    Value *sa = S(a);
    if (isZ(sa)) return c32(0);
    return B.CreateCall(hook("__vp_fun", I32, {I32, I32, D}), {c32(op), sa, a});
  }
  Value *icmp(IRBuilder<> &B, unsigned pred, Value *a, Value *b) {
    Value *sa = S(a), *sb = S(b);
    if (isZ(sa) && isZ(sb)) return c32(0);
    return B.CreateCall(hook("__vp_icmp", I32, {I32, I32, I32, I64, I32, I64}),
                        {c32(pred), c32(width(a->getType())), sa, conc(B, a), sb, conc(B, b)});
  }
  void branch(IRBuilder<> &B, Value *s, Value *c) {
    if (isZ(s)) return;
    B.CreateCall(hook("__vp_branch", V, {I32, I32}), {s, B.CreateZExt(c, I32)});
  }
  // ite shadow
  Value *ite(IRBuilder<> &B, Value *sc, Value *c, Value *t, Value *f) {
    Value *st = S(t), *sf = S(f);
    Type *ty = t->getType();
    if (isZ(sc)) {
      if (isZ(st) && isZ(sf)) return zero(ty);
      return B.CreateSelect(c, st, sf);
    }
    if (isD(ty))
      return B.CreateCall(hook("__vp_ited", I32, {I32, I32, I32, D, I32, D}), {sc, B.CreateZExt(c, I32), st, t, sf, f});
    if (isI(ty))
      return B.CreateCall(hook("__vp_itei", I32, {I32, I32, I32, I32, I64, I32, I64}),
                          {c32(width(ty)), sc, B.CreateZExt(c, I32), st, conc(B, t), sf, conc(B, f)});
    branch(B, sc, c);
    return B.CreateSelect(c, st, sf);
  }

  // ---- calls
  enum { FNEG = 1, FABS, FLOOR, CEIL, TRUNC, ROUND, RINT, SQRT };
  bool libmUn(StringRef n, unsigned &op) {
    static const std::map<std::string, unsigned> m = {
        {"fabs", FABS}, {"floor", FLOOR}, {"ceil", CEIL}, {"trunc", TRUNC}, {"round", ROUND}, {"rint", RINT}, {"nearbyint", RINT}, {"sqrt", SQRT}};
    auto it = m.find(n.str());
    if (it == m.end()) return false;
    op = it->second; return true;
  }

  Value *toInt(IRBuilder<> &A, CallBase *CB, unsigned op) {  // rounding to an integer type
    Value *s = unD(A, op, CB->getArgOperand(0));
    if (isZ(s)) return s;
    return A.CreateCall(hook("__vp_f2i", I32, {I32, I32, I32, D, I64}), {c32(1), c32(width(CB->getType())), s, A.CreateSIToFP(CB, D), conc(A, CB)});
  }

  void visitCall(CallBase *CB) {
    Function *Fn = CB->getCalledFunction();
    if (CB->isInlineAsm()) return;
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { visitIntrinsic(II); return; }
    IRBuilder<> B(CB);
    StringRef nm = Fn ? Fn->getName() : "";
    if (nm.starts_with("__vp_") ) return;
    Instruction *after = nullptr;
    if (auto *IV = dyn_cast<InvokeInst>(CB)) after = &*IV->getNormalDest()->getFirstInsertionPt();
    else after = CB->getNextNode();
    bool decl = Fn && Fn->isDeclaration();
    if (isFDist(nm) && CB->arg_size() == 2 && isD(CB->getType()) && CB->getArgOperand(0)->getType()->isPointerTy() && CB->getArgOperand(1)->getType()->isPointerTy()) {
      // takes its operands by reference
      LoadInst *a = B.CreateLoad(CB->getType(), CB->getArgOperand(0)), *b = B.CreateLoad(CB->getType(), CB->getArgOperand(1));
      visit(a);
      visit(b);
      IRBuilder<> A(after);
      sh[CB] = binD(A, 40, a, b);
      return;
    }
    if (decl) {
      unsigned op;
      if (CB->arg_size() == 1 && isD(CB->getType()) && isD(CB->getArgOperand(0)->getType()) && libmUn(nm, op)) {
        IRBuilder<> A(after);
        sh[CB] = unD(A, op, CB->getArgOperand(0)); return;
      }
      if ((nm == "lrint" || nm == "llrint" || nm == "lround" || nm == "llround") && CB->arg_size() == 1 && isD(CB->getArgOperand(0)->getType())) {
        IRBuilder<> A(after);
        sh[CB] = toInt(A, CB, nm.contains("rint") ? RINT : ROUND);
        return;
      }
      if (nm == "fmod" || nm == "fmin" || nm == "fmax" || nm == "pow") {
        IRBuilder<> A(after);
        sh[CB] = binD(A, nm == "fmod" ? 10 : nm == "fmin" ? 11 : nm == "fmax" ? 12 : 13, CB->getArgOperand(0), CB->getArgOperand(1));
        return;
      }
      if (nm == "exp" || nm == "log" || nm == "log10" || nm == "sin" || nm == "cos") {
        IRBuilder<> A(after);
        Value *sa = S(CB->getArgOperand(0));
        if (!isZ(sa))
          sh[CB] = A.CreateCall(hook("__vp_fun", I32, {I32, I32, D}), {c32(nm == "exp" ? 20 : nm == "log" ? 21 : nm == "log10" ? 22 : nm == "sin" ? 23 : 24), sa, CB->getArgOperand(0)});
        return;
      }
      if (nm == "modf") {
        IRBuilder<> A(after);
        Value *a = CB->getArgOperand(0);
        if (isZ(S(a))) { A.CreateCall(hook("__vp_store", V, {P, I32, I32}), {CB->getArgOperand(1), c32(8), c32(0)}); return; }
        Value *t = unD(A, TRUNC, a);
        A.CreateCall(hook("__vp_store", V, {P, I32, I32}), {CB->getArgOperand(1), c32(8), t});
        sh[CB] = A.CreateCall(hook("__vp_fracpart", I32, {I32, D}), {S(a), a});
        return;
      }
      if (nm == "memcpy" || nm == "memmove") {
        IRBuilder<> A(after);
        concretize(B, CB->getArgOperand(2));
        A.CreateCall(hook("__vp_memcpy", V, {P, P, I64}), {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      if (nm == "memset") {
        B.CreateCall(hook("__vp_memclr", V, {P, I64}), {CB->getArgOperand(0), CB->getArgOperand(2)});
        return;
      }
      if (nm == "memcmp" || nm == "bcmp") {
        concretize(B, CB->getArgOperand(2));
        B.CreateCall(hook("__vp_touch", V, {P, I64}), {CB->getArgOperand(0), CB->getArgOperand(2)});
        B.CreateCall(hook("__vp_touch", V, {P, I64}), {CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc") { concretize(B, CB->getArgOperand(0)); return; }
      if (nm.starts_with("vp_sym_")) {  // harness API implemented in the runtime
        // falls through to generic passing (runtime plays by the protocol)
      }
    }
    // generic
    unsigned slot = 0;
    Value *orv = nullptr;
    for (unsigned i = 0; i < CB->arg_size(); ++i) {
      Value *a = CB->getArgOperand(i);
      if (a->getType()->isMetadataTy()) continue;
      if (slot >= kMaxArgs) break;
      if (CB->isByValArgument(i)) {
        B.CreateStore(a, B.CreateConstInBoundsGEP2_32(ArgPtrs->getValueType(), ArgPtrs, 0, slot));
        slot++;
        continue;
      }
      Value *s = S(a);
      if (isAgg(a->getType())) {
        for (auto &l : leavesOf(a->getType())) {
          if (slot >= kMaxArgs) break;
          Value *ls = isZ(s) ? (Value *)c32(0) : B.CreateExtractValue(s, l.first);
          B.CreateStore(ls, B.CreateConstInBoundsGEP2_32(Args->getValueType(), Args, 0, slot++));
        }
        continue;
      }
      if (!scalar(a->getType())) s = c32(0);
      if (!isZ(s)) orv = orv ? B.CreateOr(orv, s) : s;
      B.CreateStore(s, B.CreateConstInBoundsGEP2_32(Args->getValueType(), Args, 0, slot++));
    }
    Value *cal = CB->getCalledOperand();
    if (orv) {
      Value *name = ConstantPointerNull::get(cast<PointerType>(P));
      if (decl) name = B.CreateGlobalStringPtr(nm);
      B.CreateCall(hook("__vp_precall", V, {I32, P, P, I32}), {orv, cal, name, c32(slot)});
    }
    B.CreateStore(cal, Callee);
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(P)), RetTag);
    Type *rt = CB->getType();
    IRBuilder<> A(after);
    if (rt->isVoidTy() || CB->isMustTailCall()) return;
    if (scalar(rt)) {
      sh[CB] = A.CreateCall(hook("__vp_getret", I32, {P, I32, I32, I64}), {cal, c32(isD(rt)), c32(width(rt)), conc(A, CB)});
    } else if (isAgg(rt)) {
      Value *tag = A.CreateICmpEQ(A.CreateLoad(P, RetTag), cal);
      Value *r = zero(rt);
      unsigned k = 0;
      for (auto &l : leavesOf(rt)) {
        if (k >= 16) break;
        Value *v = A.CreateLoad(I32, A.CreateConstInBoundsGEP2_32(Ret->getValueType(), Ret, 0, k++));
        r = A.CreateInsertValue(r, A.CreateSelect(tag, v, c32(0)), l.first);
      }
      sh[CB] = r;
    }
  }

  void visitIntrinsic(IntrinsicInst *II) {
    IRBuilder<> A(II->getNextNode() ? II->getNextNode() : II);
    IRBuilder<> B(II);
    switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        concretize(B, II->getArgOperand(2));
        B.CreateCall(hook("__vp_memcpy", V, {P, P, I64}), {II->getArgOperand(0), II->getArgOperand(1), B.CreateZExtOrTrunc(II->getArgOperand(2), I64)});
        break;
      case Intrinsic::memset: case Intrinsic::memset_inline:
        concretize(B, II->getArgOperand(2));
        B.CreateCall(hook("__vp_memclr", V, {P, I64}), {II->getArgOperand(0), B.CreateZExtOrTrunc(II->getArgOperand(2), I64)});
        break;
      case Intrinsic::lifetime_start:
        B.CreateCall(hook("__vp_lifestart", V, {P, I64}), {II->getArgOperand(1), II->getArgOperand(0)});
        break;
      case Intrinsic::fabs: if (isD(II->getType())) sh[II] = unD(A, FABS, II->getArgOperand(0)); break;
      case Intrinsic::floor: if (isD(II->getType())) sh[II] = unD(A, FLOOR, II->getArgOperand(0)); break;
      case Intrinsic::ceil: if (isD(II->getType())) sh[II] = unD(A, CEIL, II->getArgOperand(0)); break;
      case Intrinsic::trunc: if (isD(II->getType())) sh[II] = unD(A, TRUNC, II->getArgOperand(0)); break;
      case Intrinsic::round: if (isD(II->getType())) sh[II] = unD(A, ROUND, II->getArgOperand(0)); break;
      case Intrinsic::rint: case Intrinsic::nearbyint: if (isD(II->getType())) sh[II] = unD(A, RINT, II->getArgOperand(0)); break;
      case Intrinsic::lrint: case Intrinsic::llrint: case Intrinsic::lround: case Intrinsic::llround: {
        auto id = II->getIntrinsicID();
        if (isD(II->getArgOperand(0)->getType())) sh[II] = toInt(A, II, id == Intrinsic::lrint || id == Intrinsic::llrint ? RINT : ROUND);
        break;
      }
      case Intrinsic::sqrt: if (isD(II->getType())) sh[II] = unD(A, SQRT, II->getArgOperand(0)); break;
      case Intrinsic::minnum: case Intrinsic::minimum: if (isD(II->getType())) sh[II] = binD(A, 11, II->getArgOperand(0), II->getArgOperand(1)); break;
      case Intrinsic::maxnum: case Intrinsic::maximum: if (isD(II->getType())) sh[II] = binD(A, 12, II->getArgOperand(0), II->getArgOperand(1)); break;
      case Intrinsic::pow: if (isD(II->getType())) sh[II] = binD(A, 13, II->getArgOperand(0), II->getArgOperand(1)); break;
      case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos:
        if (isD(II->getType()) && !isZ(S(II->getArgOperand(0)))) {
          auto id = II->getIntrinsicID();
          unsigned k = id == Intrinsic::exp ? 20 : id == Intrinsic::log ? 21 : id == Intrinsic::log10 ? 22 : id == Intrinsic::sin ? 23 : 24;
          sh[II] = A.CreateCall(hook("__vp_fun", I32, {I32, I32, D}), {c32(k), S(II->getArgOperand(0)), II->getArgOperand(0)});
        }
        break;
      case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: {
        if (!isI(II->getType())) break;
        auto id = II->getIntrinsicID();
        unsigned pred = id == Intrinsic::smin ? CmpInst::ICMP_SLE : id == Intrinsic::smax ? CmpInst::ICMP_SGE : id == Intrinsic::umin ? CmpInst::ICMP_ULE : CmpInst::ICMP_UGE;
        Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
        if (isZ(S(a)) && isZ(S(b))) break;
        Value *sc = icmp(A, pred, a, b);
        Value *c = A.CreateICmp((CmpInst::Predicate)pred, a, b);
        sh[II] = ite(A, sc, c, a, b);
        break;
      }
      case Intrinsic::abs: {
        if (!isI(II->getType())) break;
        Value *a = II->getArgOperand(0);
        if (isZ(S(a))) break;
        sh[II] = A.CreateCall(hook("__vp_iabs", I32, {I32, I32, I64}), {c32(width(a->getType())), S(a), conc(A, a)});
        break;
      }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow:
      case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
        if (!isI(a->getType()) || (isZ(S(a)) && isZ(S(b)))) break;
        concretize(B, a); concretize(B, b);
        break;
      }
      case Intrinsic::usub_sat: {
        Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
        if (!isI(a->getType()) || (isZ(S(a)) && isZ(S(b)))) break;
        Value *sc = icmp(A, CmpInst::ICMP_UGE, a, b);
        Value *c = A.CreateICmpUGE(a, b);
        Value *diff = A.CreateSub(a, b);
        sh[diff] = binI(A, Instruction::Sub, 0, a, b);
        sh[II] = ite(A, sc, c, diff, ConstantInt::get(a->getType(), 0));
        break;
      }
      case Intrinsic::expect: sh[II] = S(II->getArgOperand(0)); break;
      case Intrinsic::fmuladd: case Intrinsic::fma:
        if (isD(II->getType()) && !(isZ(S(II->getArgOperand(0))) && isZ(S(II->getArgOperand(1))) && isZ(S(II->getArgOperand(2))))) {
          Value *m = A.CreateFMul(II->getArgOperand(0), II->getArgOperand(1));
          sh[m] = binD(A, Instruction::FMul, II->getArgOperand(0), II->getArgOperand(1));
          sh[II] = binD(A, Instruction::FAdd, m, II->getArgOperand(2));
        }
        break;
      default:
        // unmodelled intrinsic: integer operands are pinned to their value
        for (unsigned i = 0; i < II->arg_size(); ++i) {
          Value *a = II->getArgOperand(i);
          if (isI(a->getType()) && !isa<Constant>(a)) concretize(B, a);
        }
    }
  }

  void visit(Instruction *I) {
    IRBuilder<> A(I->getParent());
    auto setAfter = [&]() { A.SetInsertPoint(I->getNextNode()); };
    if (auto *x = dyn_cast<BinaryOperator>(I)) {
      setAfter();
      Type *t = x->getType();
      if (isD(t)) sh[I] = binD(A, x->getOpcode(), x->getOperand(0), x->getOperand(1));
      else if (isI(t)) {
        unsigned fl = 0;
        if (auto *o = dyn_cast<OverflowingBinaryOperator>(x)) fl = (o->hasNoSignedWrap() ? 1 : 0) | (o->hasNoUnsignedWrap() ? 2 : 0);
        unsigned op = x->getOpcode();
        IRBuilder<> Bf(I);
        if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) {
          if (!isZ(S(x->getOperand(1))))
            Bf.CreateCall(hook("__vp_divisor", V, {I32, I32, I64}), {S(x->getOperand(1)), c32(width(t)), conc(Bf, x->getOperand(1))});
        }
        sh[I] = binI(A, op, fl, x->getOperand(0), x->getOperand(1));
      }
    } else if (auto *x = dyn_cast<UnaryOperator>(I)) {
      setAfter();
      if (isD(x->getType())) sh[I] = unD(A, FNEG, x->getOperand(0));
    } else if (auto *x = dyn_cast<FCmpInst>(I)) {
      setAfter();
      if (isD(x->getOperand(0)->getType())) {
        Value *a = x->getOperand(0), *b = x->getOperand(1);
        if (!(isZ(S(a)) && isZ(S(b))))
          sh[I] = A.CreateCall(hook("__vp_fcmp", I32, {I32, I32, D, I32, D}), {c32(x->getPredicate()), S(a), a, S(b), b});
      }
    } else if (auto *x = dyn_cast<ICmpInst>(I)) {
      setAfter();
      Type *t = x->getOperand(0)->getType();
      if (isI(t)) sh[I] = icmp(A, x->getPredicate(), x->getOperand(0), x->getOperand(1));
    } else if (auto *x = dyn_cast<SelectInst>(I)) {
      setAfter();
      if (x->getCondition()->getType() == I1 && (scalar(x->getType()) || isAgg(x->getType())))
        sh[I] = ite(A, S(x->getCondition()), x->getCondition(), x->getTrueValue(), x->getFalseValue());
    } else if (auto *x = dyn_cast<CastInst>(I)) {
      setAfter();
      Value *a = x->getOperand(0);
      Value *s = S(a);
      if (isZ(s)) return;
      Type *f = a->getType(), *t = x->getType();
      switch (x->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
          if (scalar(f) && scalar(t) && width(f) == width(t)) sh[I] = s;
          break;
        case Instruction::SIToFP: case Instruction::UIToFP:
          if (isD(t) && isI(f))
            sh[I] = A.CreateCall(hook("__vp_i2f", I32, {I32, I32, I32, I64}), {c32(x->getOpcode() == Instruction::SIToFP), c32(width(f)), s, conc(A, a)});
          break;
        case Instruction::FPToSI: case Instruction::FPToUI:
          if (isD(f) && isI(t))
            sh[I] = A.CreateCall(hook("__vp_f2i", I32, {I32, I32, I32, D, I64}), {c32(x->getOpcode() == Instruction::FPToSI), c32(width(t)), s, a, conc(A, x)});
          break;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
          if (isI(f) && isI(t))
            sh[I] = A.CreateCall(hook("__vp_icast", I32, {I32, I32, I32, I32, I64}),
                                 {c32(x->getOpcode() == Instruction::ZExt ? 0 : x->getOpcode() == Instruction::SExt ? 1 : 2), c32(width(f)), c32(width(t)), s, conc(A, a)});
          break;
        default: break;
      }
    } else if (auto *x = dyn_cast<FreezeInst>(I)) {
      sh[I] = S(x->getOperand(0));
    } else if (auto *x = dyn_cast<LoadInst>(I)) {
      setAfter();
      sh[I] = emitLoadShadow(A, x->getPointerOperand(), x->getType(), x);
    } else if (auto *x = dyn_cast<StoreInst>(I)) {
      setAfter();
      emitStoreShadow(A, x->getPointerOperand(), x->getValueOperand()->getType(), S(x->getValueOperand()));
    } else if (auto *x = dyn_cast<AtomicRMWInst>(I)) {
      setAfter();
      A.CreateCall(hook("__vp_store", V, {P, I32, I32}), {x->getPointerOperand(), c32(DL.getTypeStoreSize(x->getType())), c32(0)});
    } else if (auto *x = dyn_cast<GetElementPtrInst>(I)) {
      A.SetInsertPoint(I);
      if (!I->getType()->isPointerTy()) return;
      for (auto &ix : x->indices()) if (!isa<Constant>(ix.get())) concretize(A, ix.get());
    } else if (auto *x = dyn_cast<ExtractValueInst>(I)) {
      setAfter();
      Value *s = S(x->getAggregateOperand());
      if (!isZ(s)) sh[I] = A.CreateExtractValue(s, x->getIndices());
    } else if (auto *x = dyn_cast<InsertValueInst>(I)) {
      setAfter();
      Value *s = S(x->getAggregateOperand()), *v = S(x->getInsertedValueOperand());
      if (!isZ(s) || !isZ(v)) sh[I] = A.CreateInsertValue(s, v, x->getIndices());
    } else if (auto *x = dyn_cast<BranchInst>(I)) {
      if (x->isConditional()) { A.SetInsertPoint(I); branch(A, S(x->getCondition()), x->getCondition()); }
    } else if (auto *x = dyn_cast<SwitchInst>(I)) {
      A.SetInsertPoint(I);
      Value *v = x->getCondition();
      if (!isZ(S(v)))
        for (auto &cs : x->cases()) {
          Value *s = icmp(A, CmpInst::ICMP_EQ, v, cs.getCaseValue());
          branch(A, s, A.CreateICmpEQ(v, cs.getCaseValue()));
        }
    } else if (auto *x = dyn_cast<ReturnInst>(I)) {
      A.SetInsertPoint(I);
      Value *rv = x->getReturnValue();
      if (auto *prev = I->getPrevNode()) if (auto *pc = dyn_cast<CallInst>(prev)) if (pc->isMustTailCall()) return;
      if (rv) {
        Value *s = S(rv);
        if (isAgg(rv->getType())) {
          unsigned k = 0;
          for (auto &l : leavesOf(rv->getType())) {
            if (k >= 16) break;
            A.CreateStore(isZ(s) ? (Value *)c32(0) : A.CreateExtractValue(s, l.first), A.CreateConstInBoundsGEP2_32(Ret->getValueType(), Ret, 0, k++));
          }
        } else A.CreateStore(scalar(rv->getType()) ? s : c32(0), A.CreateConstInBoundsGEP2_32(Ret->getValueType(), Ret, 0, 0));
      }
      A.CreateStore(F, RetTag);
    } else if (auto *x = dyn_cast<CallBase>(I)) {
      visitCall(x);
    }
  }

  void run(Function &fn) {
    F = &fn;
    sh.clear();
    // every invoke gets a private normal destination
    std::vector<InvokeInst *> invs;
    for (auto &BB : fn) if (auto *iv = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(iv);
    for (auto *iv : invs)
      if (!iv->getNormalDest()->getSinglePredecessor() || isa<PHINode>(iv->getNormalDest()->front())) {
        BasicBlock *nd = iv->getNormalDest();
        BasicBlock *nb = BasicBlock::Create(C, "vp.cont", &fn, nd);
        BranchInst::Create(nd, nb);
        BasicBlock *src = iv->getParent();
        // an invoke's normal dest edge is unique from src unless unwind==normal (impossible)
        for (PHINode &p : nd->phis()) p.replaceIncomingBlockWith(src, nb);
        iv->setNormalDest(nb);
      }
    std::vector<Instruction *> order;
    std::vector<PHINode *> phis;
    ReversePostOrderTraversal<Function *> rpo(&fn);
    for (BasicBlock *BB : rpo)
      for (Instruction &I : *BB) {
        if (auto *p = dyn_cast<PHINode>(&I)) phis.push_back(p);
        else order.push_back(&I);
      }
    // entry: read argument shadows
    IRBuilder<> B(&*fn.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
    {
      // keep static allocas first
      Value *ok = B.CreateICmpEQ(B.CreateLoad(P, Callee), F);
      unsigned slot = 0;
      for (auto &a : fn.args()) {
        if (slot >= kMaxArgs) break;
        if (a.hasByValAttr()) {
          Value *src = B.CreateLoad(P, B.CreateConstInBoundsGEP2_32(ArgPtrs->getValueType(), ArgPtrs, 0, slot++));
          B.CreateCall(hook("__vp_byval", V, {P, P, I64, I32}), {&a, src, ConstantInt::get(I64, DL.getTypeAllocSize(a.getParamByValType())), B.CreateZExt(ok, I32)});
          continue;
        }
        if (isAgg(a.getType())) {
          Value *r = zero(a.getType());
          for (auto &l : leavesOf(a.getType())) {
            if (slot >= kMaxArgs) break;
            Value *v = B.CreateLoad(I32, B.CreateConstInBoundsGEP2_32(Args->getValueType(), Args, 0, slot++));
            r = B.CreateInsertValue(r, B.CreateSelect(ok, v, c32(0)), l.first);
          }
          sh[&a] = r;
          continue;
        }
        if (a.use_empty()) { slot++; continue; }
        Value *v = B.CreateLoad(I32, B.CreateConstInBoundsGEP2_32(Args->getValueType(), Args, 0, slot++));
        if (scalar(a.getType())) sh[&a] = B.CreateSelect(ok, v, c32(0));
      }
    }
    for (PHINode *p : phis) {
      if (!(scalar(p->getType()) || isAgg(p->getType()))) continue;
      PHINode *s = PHINode::Create(shTy(p->getType()), p->getNumIncomingValues(), "", p);
      sh[p] = s;
    }
    for (Instruction *I : order) visit(I);
    for (PHINode *p : phis) {
      auto it = sh.find(p);
      if (it == sh.end()) continue;
      PHINode *s = cast<PHINode>(it->second);
      for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
        s->addIncoming(S(p->getIncomingValue(i)), p->getIncomingBlock(i));
    }
  }
};

// boost's float_distance stays a call, modelled by the runtime
struct KeepPass : PassInfoMixin<KeepPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    for (auto &F : M)
      if (isFDist(F.getName())) {
        F.removeFnAttr(Attribute::AlwaysInline);
        F.removeFnAttr(Attribute::InlineHint);
        F.addFnAttr(Attribute::NoInline);
      }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
struct VPPass : PassInfoMixin<VPPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Inst in(M);
    std::vector<Function *> fs;
    for (auto &F : M)
      if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !F.getName().starts_with("__vp_") &&
          !F.getName().contains("float_distance")) fs.push_back(&F);
    for (auto *F : fs) {
      // unreachable blocks would have no shadows
      EliminateUnreachableBlocks(*F);
      in.run(*F);
    }
    // shadows travel through memory: calls may no longer be assumed memory-free
    for (auto &F : M) {
      if (F.isIntrinsic()) continue;
      F.removeFnAttr(Attribute::Memory);
      F.removeFnAttr(Attribute::Speculatable);
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (!isa<IntrinsicInst>(CB)) { CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::Speculatable); }
    }
    {
      std::vector<Constant *> fp;
      for (auto *F : fs) fp.push_back(F);
      if (!fp.empty()) {
        auto *AT = ArrayType::get(in.P, fp.size());
        auto *g = new GlobalVariable(M, AT, true, GlobalValue::InternalLinkage, ConstantArray::get(AT, fp), "vp_fn_table");
        g->setSection("vp_fns");
        g->setAlignment(Align(8));
        appendToUsed(M, {g});
      }
    }
    if (getenv("VP_LISTFN")) for (auto *F : fs) errs() << "FN " << F->getName() << "\n";
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "vp", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(KeepPass()); });
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(VPPass()); });
          }};
}
