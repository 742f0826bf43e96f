// SymPass: LLVM 18 pass plugin that instruments a translation unit for concolic-exhaustive
// symbolic execution.  Every scalar SSA value V gets a shadow "expression pointer" (null ==
// concrete); the run-time library (rt.cpp) builds the expressions, keeps the byte-granular shadow
// memory, records the path condition and discharges the solver queries.
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/Scalar/LowerAtomicPass.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include "ops.h"

using namespace llvm;

namespace {

struct Instr {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I64, *I32, *I1, *Void;
  PointerType *Ptr;
  FunctionCallee fBin, fUn, fCmp, fSel, fLoad, fStore, fBranch, fPin, fPost, fMemcpy, fMemset,
    fClear, fExt, fUnsup, fByval, fFn, fCopyShadow;
  GlobalVariable *gArgs, *gRet, *gCallee, *gOwner;
  std::map<std::string, std::string> wrappers;
  std::set<std::string> externs;

  explicit Instr(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout())
  {
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I1 = Type::getInt1Ty(C);
    Void = Type::getVoidTy(C);
    Ptr = PointerType::getUnqual(C);
    fBin = M.getOrInsertFunction("__sym_bin", Ptr, I32, I32, Ptr, I64, Ptr, I64, I64);
    fUn = M.getOrInsertFunction("__sym_un", Ptr, I32, I32, I32, Ptr, I64, I64);
    fCmp = M.getOrInsertFunction("__sym_cmp", Ptr, I32, I32, Ptr, I64, Ptr, I64, I64);
    fSel = M.getOrInsertFunction("__sym_sel", Ptr, Ptr, I64, I32, Ptr, I64, Ptr, I64);
    fLoad = M.getOrInsertFunction("__sym_load", Ptr, Ptr, I32, I32, I64);
    fStore = M.getOrInsertFunction("__sym_store", Void, Ptr, Ptr, I32);
    fBranch = M.getOrInsertFunction("__sym_branch", Void, Ptr, I64, I32);
    fPin = M.getOrInsertFunction("__sym_pin", Void, Ptr, I64, I32);
    fPost = M.getOrInsertFunction("__sym_post", Void, Ptr, I32);
    fMemcpy = M.getOrInsertFunction("__sym_memcpy", Void, Ptr, Ptr, I64);
    fMemset = M.getOrInsertFunction("__sym_memset", Void, Ptr, Ptr, I64);
    fExt = M.getOrInsertFunction("__sym_ext", Void);
    fClear = M.getOrInsertFunction("__sym_clear", Void, Ptr, I64);
    fUnsup = M.getOrInsertFunction("__sym_unsup", Void, I32, Ptr, I64);
    fByval = M.getOrInsertFunction("__sym_byval", Void, Ptr, Ptr, I64);
    fFn = M.getOrInsertFunction("__sym_fn", Void, Ptr, Ptr);
    gArgs = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_args", ArrayType::get(Ptr, 128)));
    gRet = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_ret", ArrayType::get(Ptr, 32)));
    gCallee = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_callee", Ptr));
    gOwner = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_owner", Ptr));
    for (const char *w :
         {"memcmp", "bcmp", "strlen", "strcmp", "strncmp", "memchr", "fmod", "sin", "cos", "tan",
          "asin", "acos", "atan", "atan2", "exp", "log", "pow", "sqrt", "hypot", "fmin", "fmax",
          "floor", "ceil", "round", "trunc", "fminf", "fmaxf", "sinf", "cosf", "sqrtf", "fmodf",
          "lround", "llround"})
      wrappers[w] = std::string("__symw_") + w;
    for (const char *w :
         {"strtol", "strtoul", "strtoll", "strtoull", "toupper", "tolower", "isspace", "isdigit",
          "isalpha", "isalnum", "strchr", "strtod", "strtof"})
      wrappers[w] = std::string("symc_") + w;
    for (const char *w : {"strtol", "strtoul", "strtoll", "strtoull"})
      wrappers[std::string("__isoc23_") + w] = std::string("symc_") + w;
  }

  Value *nul() { return ConstantPointerNull::get(Ptr); }

  // ---- shadow types
  bool isScalar(Type *T)
  {
    return T->isIntegerTy() || T->isPointerTy() || T->isFloatTy() || T->isDoubleTy() ||
           T->isX86_FP80Ty() || T->isHalfTy() || T->isFP128Ty();
  }
  bool hasShadow(Type *T)
  {
    return isScalar(T) || T->isStructTy() || T->isArrayTy() || isa<FixedVectorType>(T);
  }
  Type *shTy(Type *T)
  {
    if (auto *S = dyn_cast<StructType>(T)) {
      std::vector<Type *> e;
      for (auto *t : S->elements()) e.push_back(shTy(t));
      return StructType::get(C, e);
    }
    if (auto *A = dyn_cast<ArrayType>(T))
      return ArrayType::get(shTy(A->getElementType()), A->getNumElements());
    if (auto *V = dyn_cast<FixedVectorType>(T)) return ArrayType::get(Ptr, V->getNumElements());
    return Ptr;
  }
  Constant *shNull(Type *T) { return Constant::getNullValue(shTy(T)); }
  unsigned slots(Type *T)
  {
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned n = 0;
      for (auto *t : S->elements()) n += slots(t);
      return n;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) return slots(A->getElementType()) * A->getNumElements();
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements();
    if (isScalar(T)) return 1;
    return 0;
  }
  // kind: number of bits, |0x1000 for floating point, |0x2000 for pointers
  unsigned kind(Type *T)
  {
    if (T->isDoubleTy()) return 64 | 0x1000;
    if (T->isFloatTy()) return 32 | 0x1000;
    if (T->isPointerTy()) return 64 | 0x2000;
    if (T->isIntegerTy()) {
      unsigned b = T->getIntegerBitWidth();
      return b <= 64 ? b : 0;
    }
    return 0;  // unsupported
  }
  Value *asI64(IRBuilder<> &B, Value *V)
  {
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(V, I64);
    return ConstantInt::get(I64, 0);
  }
  bool isNullC(Value *S)
  {
    auto *c = dyn_cast<Constant>(S);
    return c && c->isNullValue();
  }
  Value *i32(unsigned v) { return ConstantInt::get(I32, v); }
  Value *i64(uint64_t v) { return ConstantInt::get(I64, v); }

  // ---- per function
  DenseMap<Value *, Value *> sh;
  Function *F = nullptr;
  unsigned siteCtr = 0;

  Value *S(Value *V)
  {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    if (isa<Constant>(V)) return shNull(V->getType());
    if (!hasShadow(V->getType())) return nul();
    return shNull(V->getType());
  }

  unsigned storeSlots(IRBuilder<> &B, GlobalVariable *g, Type *T, Value *Sv, unsigned at)
  {
    if (isScalar(T)) {
      B.CreateStore(Sv, B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, at));
      return at + 1;
    }
    unsigned n = 0;
    if (auto *ST = dyn_cast<StructType>(T)) n = ST->getNumElements();
    else if (auto *AT = dyn_cast<ArrayType>(T)) n = AT->getNumElements();
    else if (auto *VT = dyn_cast<FixedVectorType>(T)) n = VT->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *et = isa<StructType>(T)  ? cast<StructType>(T)->getElementType(i)
                 : isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType()
                                     : cast<FixedVectorType>(T)->getElementType();
      at = storeSlots(B, g, et, B.CreateExtractValue(Sv, i), at);
    }
    return at;
  }
  Value *loadSlots(IRBuilder<> &B, GlobalVariable *g, Type *T, unsigned &at)
  {
    if (isScalar(T)) {
      Value *p = B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, at);
      at++;
      return B.CreateLoad(Ptr, p);
    }
    Value *r = shNull(T);
    unsigned n = 0;
    if (auto *ST = dyn_cast<StructType>(T)) n = ST->getNumElements();
    else if (auto *AT = dyn_cast<ArrayType>(T)) n = AT->getNumElements();
    else if (auto *VT = dyn_cast<FixedVectorType>(T)) n = VT->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *et = isa<StructType>(T)  ? cast<StructType>(T)->getElementType(i)
                 : isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType()
                                     : cast<FixedVectorType>(T)->getElementType();
      Value *e = loadSlots(B, g, et, at);
      r = B.CreateInsertValue(r, e, i);
    }
    return r;
  }
  void pinIf(IRBuilder<> &B, Value *V, unsigned why)
  {
    Value *s = S(V);
    if (!s->getType()->isPointerTy() || isNullC(s)) return;
    B.CreateCall(fPin, {s, asI64(B, V), i32(why)});
  }
  // unsupported instruction: pin every symbolic scalar operand
  void unsup(IRBuilder<> &B, Instruction *I)
  {
    for (Value *op : I->operands()) {
      if (isa<BasicBlock>(op) || op->getType()->isMetadataTy()) continue;
      unsupVal(B, op, I->getOpcode());
    }
  }
  void unsupVal(IRBuilder<> &B, Value *op, unsigned opc)
  {
    if (!hasShadow(op->getType())) return;
    Value *s = S(op);
    if (isNullC(s)) return;
    if (isScalar(op->getType())) {
      B.CreateCall(fUnsup, {i32(opc), s, asI64(B, op)});
    } else if (auto *VT = dyn_cast<FixedVectorType>(op->getType())) {
      for (unsigned k = 0; k < VT->getNumElements(); k++)
        B.CreateCall(
          fUnsup, {i32(opc), B.CreateExtractValue(s, k), asI64(B, B.CreateExtractElement(op, k))});
    } else {
      unsigned n = isa<StructType>(op->getType()) ? op->getType()->getStructNumElements()
                                                  : op->getType()->getArrayNumElements();
      for (unsigned k = 0; k < n; k++) {
        Value *e = B.CreateExtractValue(op, k);
        sh[e] = B.CreateExtractValue(s, k);
        unsupVal(B, e, opc);
      }
    }
  }

  Value *mkSel(IRBuilder<> &B, Value *Ec, Value *c, Type *T, Value *sa, Value *a, Value *sb,
               Value *b)
  {
    // T scalar
    unsigned k = kind(T);
    if (isNullC(Ec)) {
      if (isNullC(sa) && isNullC(sb)) return nul();
      return B.CreateSelect(c, sa, sb);
    }
    return B.CreateCall(
      fSel, {Ec, B.CreateZExt(c, I64), i32(k), sa, asI64(B, a), sb, asI64(B, b)});
  }

  void run(Function &Fn)
  {
    F = &Fn;
    sh.clear();
    EliminateUnreachableBlocks(Fn);
    // collect in RPO
    std::vector<Instruction *> work;
    {
      ReversePostOrderTraversal<Function *> RPOT(&Fn);
      for (BasicBlock *BB : RPOT)
        for (Instruction &I : *BB) work.push_back(&I);
    }
    // create phis
    std::vector<std::pair<PHINode *, PHINode *>> phis;
    for (Instruction *I : work)
      if (auto *P = dyn_cast<PHINode>(I)) {
        if (!hasShadow(P->getType())) continue;
        PHINode *np =
          PHINode::Create(shTy(P->getType()), P->getNumIncomingValues(), "", P);
        sh[P] = np;
        phis.push_back({P, np});
      }
    // entry
    {
      BasicBlock &E = Fn.getEntryBlock();
      Instruction *ip = &*E.getFirstInsertionPt();
      // keep allocas first
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      bool any = false;
      for (auto &A : Fn.args())
        if (slots(A.getType())) any = true;
      bool isMain = Fn.getName() == "main";
      Value *self = &Fn;
      Value *match = nullptr;
      if (any && !isMain) {
        Value *cal = B.CreateLoad(Ptr, gCallee);
        match = B.CreateICmpEQ(cal, self);
        B.CreateStore(nul(), gCallee);
        unsigned at = 0;
        for (auto &A : Fn.args()) {
          unsigned n = slots(A.getType());
          if (!n) continue;
          if (A.hasByValAttr()) {
            Value *p = B.CreateLoad(
              Ptr, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, at));
            at++;
            uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
            B.CreateCall(fByval, {&A, B.CreateSelect(match, p, nul()), i64(sz)});
            sh[&A] = nul();
            continue;
          }
          if (at + n > 120) break;
          Value *v = loadSlots(B, gArgs, A.getType(), at);
          sh[&A] = B.CreateSelect(match, v, shNull(A.getType()));
        }
      }
      // clear shadow of static allocas
      for (Instruction &I : E)
        if (auto *AI = dyn_cast<AllocaInst>(&I)) {
          if (auto sz = AI->getAllocationSize(DL))
            if (!sz->isScalable()) B.CreateCall(fClear, {AI, i64(sz->getFixedValue())});
        }
    }
    for (Instruction *I : work) visit(I);
    for (auto &[P, np] : phis)
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
        np->addIncoming(S(P->getIncomingValue(i)), P->getIncomingBlock(i));
  }

  Value *elemShadowGEP(IRBuilder<> &B, GEPOperator *G)
  {
    // base + sum idx*scale, symbolic
    MapVector<Value *, APInt> var;
    APInt off(64, 0);
    bool dyn = !isNullC(S(G->getPointerOperand()));
    for (auto &U : G->indices())
      if (!isa<Constant>(U) && !isNullC(S(U))) dyn = true;
    if (!dyn) return nul();
    if (!G->collectOffset(DL, 64, var, off)) return nullptr;
    Value *accE = S(G->getPointerOperand());
    Value *acc = B.CreatePtrToInt(G->getPointerOperand(), I64);
    for (auto &kv : var) {
      Value *idx = kv.first;
      Value *ie = S(idx);
      Value *iv = idx;
      unsigned ib = idx->getType()->getIntegerBitWidth();
      Value *iv64 = B.CreateSExtOrTrunc(iv, I64);
      Value *ie64 = ie;
      if (ib != 64)
        ie64 = B.CreateCall(
          fUn, {i32(ib < 64 ? OP_SEXT : OP_TRUNC), i32(ib), i32(64), ie, asI64(B, iv), iv64});
      Value *sc = i64(kv.second.getZExtValue());
      Value *mv = B.CreateMul(iv64, sc);
      Value *me = B.CreateCall(fBin, {i32(OP_MUL), i32(64), ie64, iv64, nul(), sc, mv});
      Value *nacc = B.CreateAdd(acc, mv);
      accE = B.CreateCall(fBin, {i32(OP_ADD), i32(64), accE, acc, me, mv, nacc});
      acc = nacc;
    }
    if (off != 0) {
      Value *ov = i64(off.getZExtValue());
      Value *nacc = B.CreateAdd(acc, ov);
      accE = B.CreateCall(fBin, {i32(OP_ADD), i32(64), accE, acc, nul(), ov, nacc});
    }
    return accE;
  }

  void bin(Instruction *I, IRBuilder<> &B, unsigned op, Value *a, Value *b)
  {
    Value *sa = S(a), *sb = S(b);
    if (isNullC(sa) && isNullC(sb)) return;
    unsigned k = kind(a->getType());
    if (!k) { unsup(B, I); return; }
    sh[I] = B.CreateCall(
      fBin, {i32(op), i32(k), sa, asI64(B, a), sb, asI64(B, b), asI64(B, I)});
  }
  void un(Instruction *I, IRBuilder<> &B, unsigned op, Value *a)
  {
    Value *sa = S(a);
    if (isNullC(sa)) return;
    unsigned k = kind(a->getType()), k2 = kind(I->getType());
    if (!k || !k2) { unsup(B, I); return; }
    sh[I] = B.CreateCall(fUn, {i32(op), i32(k), i32(k2), sa, asI64(B, a), asI64(B, I)});
  }

  void visit(Instruction *I)
  {
    if (isa<PHINode>(I)) return;
    if (isa<AllocaInst>(I)) {
      auto *AI = cast<AllocaInst>(I);
      IRBuilder<> B(I);
      if (AI->isArrayAllocation()) pinIf(B, AI->getArraySize(), PIN_SIZE);
      return;
    }
    if (I->isTerminator()) { visitTerm(I); return; }
    if (auto *CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
    IRBuilder<> B(I->getNextNode());
    switch (I->getOpcode()) {
      case Instruction::Add: bin(I, B, OP_ADD, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::Sub: bin(I, B, OP_SUB, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::Mul: bin(I, B, OP_MUL, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::UDiv:
      case Instruction::SDiv:
      case Instruction::URem:
      case Instruction::SRem: {
        unsigned op = I->getOpcode() == Instruction::UDiv   ? OP_UDIV
                      : I->getOpcode() == Instruction::SDiv ? OP_SDIV
                      : I->getOpcode() == Instruction::URem ? OP_UREM
                                                            : OP_SREM;
        // fork on zero divisor *before* the division executes
        Value *b = I->getOperand(1);
        if (!isNullC(S(b)) && kind(b->getType())) {
          IRBuilder<> Pb(I);
          Value *z = Pb.CreateICmpEQ(b, ConstantInt::get(b->getType(), 0));
          Value *e = Pb.CreateCall(
            fCmp, {i32(CmpInst::ICMP_EQ), i32(kind(b->getType())), S(b), asI64(Pb, b), nul(), i64(0),
                   Pb.CreateZExt(z, I64)});
          Pb.CreateCall(fBranch, {e, Pb.CreateZExt(z, I64), i32(site(I))});
        }
        bin(I, B, op, I->getOperand(0), b);
        return;
      }
      case Instruction::Shl: bin(I, B, OP_SHL, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::LShr: bin(I, B, OP_LSHR, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::AShr: bin(I, B, OP_ASHR, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::And: bin(I, B, OP_AND, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::Or: bin(I, B, OP_OR, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::Xor: bin(I, B, OP_XOR, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FAdd: bin(I, B, OP_FADD, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FSub: bin(I, B, OP_FSUB, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FMul: bin(I, B, OP_FMUL, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FDiv: bin(I, B, OP_FDIV, I->getOperand(0), I->getOperand(1)); return;
      case Instruction::FRem: unsup(B, I); return;
      case Instruction::FNeg: un(I, B, OP_FNEG, I->getOperand(0)); return;
      case Instruction::Freeze: sh[I] = S(I->getOperand(0)); return;
      case Instruction::Trunc: un(I, B, OP_TRUNC, I->getOperand(0)); return;
      case Instruction::ZExt: un(I, B, OP_ZEXT, I->getOperand(0)); return;
      case Instruction::SExt: un(I, B, OP_SEXT, I->getOperand(0)); return;
      case Instruction::FPExt: un(I, B, OP_FPEXT, I->getOperand(0)); return;
      case Instruction::FPTrunc: un(I, B, OP_FPTRUNC, I->getOperand(0)); return;
      case Instruction::FPToSI: un(I, B, OP_FPTOSI, I->getOperand(0)); return;
      case Instruction::FPToUI: un(I, B, OP_FPTOUI, I->getOperand(0)); return;
      case Instruction::SIToFP: un(I, B, OP_SITOFP, I->getOperand(0)); return;
      case Instruction::UIToFP: un(I, B, OP_UITOFP, I->getOperand(0)); return;
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
        if (kind(I->getType()) && kind(I->getOperand(0)->getType()) &&
            (kind(I->getType()) & 0xff) == (kind(I->getOperand(0)->getType()) & 0xff))
          sh[I] = S(I->getOperand(0));
        else unsup(B, I);
        return;
      case Instruction::BitCast: {
        Type *a = I->getOperand(0)->getType(), *b = I->getType();
        if (isScalar(a) && isScalar(b) && kind(a) && kind(b)) {
          bool fa = kind(a) & 0x1000, fb = kind(b) & 0x1000;
          if (fa == fb) sh[I] = S(I->getOperand(0));
          else un(I, B, fa ? OP_F2I : OP_I2F, I->getOperand(0));
        } else if (isa<FixedVectorType>(a) && isa<FixedVectorType>(b) &&
                   cast<FixedVectorType>(a)->getNumElements() ==
                     cast<FixedVectorType>(b)->getNumElements() &&
                   kind(a->getScalarType()) && kind(b->getScalarType())) {
          unsup(B, I);
        } else unsup(B, I);
        return;
      }
      case Instruction::ICmp:
      case Instruction::FCmp: {
        auto *CI = cast<CmpInst>(I);
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        if (!isScalar(a->getType())) { unsup(B, I); return; }
        Value *sa = S(a), *sb = S(b);
        if (isNullC(sa) && isNullC(sb)) return;
        if (!kind(a->getType())) { unsup(B, I); return; }
        sh[I] = B.CreateCall(fCmp, {i32(CI->getPredicate()), i32(kind(a->getType())), sa,
                                    asI64(B, a), sb, asI64(B, b), B.CreateZExt(I, I64)});
        return;
      }
      case Instruction::Select: {
        auto *SI = cast<SelectInst>(I);
        Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
        if (!isScalar(c->getType())) { unsup(B, I); return; }
        Value *Ec = S(c);
        if (isScalar(I->getType()) && kind(I->getType()) && !I->getType()->isPointerTy()) {
          sh[I] = mkSel(B, Ec, c, I->getType(), S(a), a, S(b), b);
        } else {
          if (!isNullC(Ec)) B.CreateCall(fBranch, {Ec, B.CreateZExt(c, I64), i32(site(I))});
          if (isNullC(S(a)) && isNullC(S(b))) return;
          sh[I] = B.CreateSelect(c, S(a), S(b));
        }
        return;
      }
      case Instruction::GetElementPtr: {
        if (I->getType()->isVectorTy()) { unsup(B, I); return; }
        IRBuilder<> Bb(I);
        Value *r = elemShadowGEP(Bb, cast<GEPOperator>(I));
        if (!r) { unsup(B, I); return; }
        if (!isNullC(r)) sh[I] = r;
        return;
      }
      case Instruction::Load: {
        auto *L = cast<LoadInst>(I);
        {
          IRBuilder<> Pb(I);
          pinIf(Pb, L->getPointerOperand(), PIN_ADDR);
        }
        Type *T = I->getType();
        Value *p = L->getPointerOperand();
        if (auto *g = dyn_cast<GlobalVariable>(p->stripPointerCasts()))
          if (g->isConstant()) return;
        if (isScalar(T)) {
          unsigned k = kind(T);
          uint64_t sz = DL.getTypeStoreSize(T);
          sh[I] = B.CreateCall(fLoad, {p, i32(sz), i32(k), k ? asI64(B, I) : i64(0)});
        } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
          Type *et = VT->getElementType();
          uint64_t sz = DL.getTypeStoreSize(et);
          Value *r = shNull(T);
          for (unsigned i = 0; i < VT->getNumElements(); i++) {
            Value *pp = B.CreateConstGEP1_64(Type::getInt8Ty(C), p, i * sz);
            Value *e = B.CreateCall(
              fLoad, {pp, i32(sz), i32(kind(et)), asI64(B, B.CreateExtractElement(I, i))});
            r = B.CreateInsertValue(r, e, i);
          }
          sh[I] = r;
        } else {
          std::vector<unsigned> path;
          sh[I] = loadAgg(B, I, T, p, 0, path);
        }
        return;
      }
      case Instruction::Store: {
        auto *St = cast<StoreInst>(I);
        pinIf(B, St->getPointerOperand(), PIN_ADDR);
        Value *v = St->getValueOperand();
        Value *p = St->getPointerOperand();
        Type *T = v->getType();
        if (isScalar(T)) {
          unsigned k = kind(T);
          Value *s = S(v);
          if (!k) { unsup(B, I); s = nul(); }
          B.CreateCall(fStore, {p, s, i32(DL.getTypeStoreSize(T))});
        } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
          uint64_t sz = DL.getTypeStoreSize(VT->getElementType());
          Value *s = S(v);
          for (unsigned i = 0; i < VT->getNumElements(); i++)
            B.CreateCall(fStore, {B.CreateConstGEP1_64(Type::getInt8Ty(C), p, i * sz),
                                  isNullC(s) ? nul() : B.CreateExtractValue(s, i), i32(sz)});
        } else {
          storeAgg(B, T, p, 0, S(v));
        }
        return;
      }
      case Instruction::ExtractValue: {
        auto *EV = cast<ExtractValueInst>(I);
        Value *s = S(EV->getAggregateOperand());
        if (isNullC(s)) return;
        sh[I] = B.CreateExtractValue(s, EV->getIndices());
        return;
      }
      case Instruction::InsertValue: {
        auto *IV = cast<InsertValueInst>(I);
        Value *s = S(IV->getAggregateOperand());
        Value *e = S(IV->getInsertedValueOperand());
        if (isNullC(s) && isNullC(e)) return;
        sh[I] = B.CreateInsertValue(s, e, IV->getIndices());
        return;
      }
      case Instruction::ExtractElement: {
        auto *k = dyn_cast<ConstantInt>(I->getOperand(1));
        Value *s = S(I->getOperand(0));
        if (isNullC(s)) return;
        if (!k) { unsup(B, I); return; }
        sh[I] = B.CreateExtractValue(s, k->getZExtValue());
        return;
      }
      case Instruction::InsertElement: {
        auto *k = dyn_cast<ConstantInt>(I->getOperand(2));
        Value *s = S(I->getOperand(0)), *e = S(I->getOperand(1));
        if (isNullC(s) && isNullC(e)) return;
        if (!k) { unsup(B, I); return; }
        sh[I] = B.CreateInsertValue(s, e, k->getZExtValue());
        return;
      }
      case Instruction::ShuffleVector: {
        auto *SV = cast<ShuffleVectorInst>(I);
        Value *s0 = S(I->getOperand(0)), *s1 = S(I->getOperand(1));
        if (isNullC(s0) && isNullC(s1)) return;
        unsigned n0 = cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements();
        Value *r = shNull(I->getType());
        auto m = SV->getShuffleMask();
        for (unsigned i = 0; i < m.size(); i++) {
          if (m[i] < 0) continue;
          Value *src = (unsigned)m[i] < n0 ? s0 : s1;
          unsigned ix = (unsigned)m[i] < n0 ? m[i] : m[i] - n0;
          if (isNullC(src)) continue;
          r = B.CreateInsertValue(r, B.CreateExtractValue(src, ix), i);
        }
        sh[I] = r;
        return;
      }
      case Instruction::LandingPad:
      case Instruction::Fence:
        return;
      default:
        unsup(B, I);
        return;
    }
  }
  Value *loadAgg(IRBuilder<> &B, Value *V, Type *T, Value *p, uint64_t off,
                 std::vector<unsigned> &path)
  {
    if (isScalar(T)) {
      Value *e = path.empty() ? V : B.CreateExtractValue(V, path);
      unsigned k = kind(T);
      return B.CreateCall(fLoad, {B.CreateConstGEP1_64(Type::getInt8Ty(C), p, off),
                                  i32(DL.getTypeStoreSize(T)), i32(k), k ? asI64(B, e) : i64(0)});
    }
    Value *r = shNull(T);
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) {
        path.push_back(i);
        r = B.CreateInsertValue(
          r, loadAgg(B, V, ST->getElementType(i), p, off + L->getElementOffset(i), path), i);
        path.pop_back();
      }
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t sz = DL.getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); i++) {
        path.push_back(i);
        r = B.CreateInsertValue(r, loadAgg(B, V, AT->getElementType(), p, off + i * sz, path), i);
        path.pop_back();
      }
    }
    return r;
  }
  void storeAgg(IRBuilder<> &B, Type *T, Value *p, uint64_t off, Value *s)
  {
    if (isScalar(T)) {
      B.CreateCall(fStore, {B.CreateConstGEP1_64(Type::getInt8Ty(C), p, off), s,
                            i32(DL.getTypeStoreSize(T))});
      return;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        storeAgg(B, ST->getElementType(i), p, off + L->getElementOffset(i),
                 B.CreateExtractValue(s, i));
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t sz = DL.getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); i++)
        storeAgg(B, AT->getElementType(), p, off + i * sz, B.CreateExtractValue(s, i));
    }
  }

  unsigned site(Instruction *)
  {
    static unsigned base = 0;
    if (!base) {
      std::hash<std::string> h;
      base = (unsigned)(h(M.getSourceFileName()) & 0x7fff) << 16;
    }
    return base + (++siteCtr);
  }

  void visitTerm(Instruction *I)
  {
    IRBuilder<> B(I);
    if (auto *BI = dyn_cast<BranchInst>(I)) {
      if (BI->isConditional()) {
        Value *s = S(BI->getCondition());
        if (!isNullC(s))
          B.CreateCall(fBranch, {s, B.CreateZExt(BI->getCondition(), I64), i32(site(I))});
      }
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      // musttail: nothing may sit between
      if (auto *CI = R->getParent()->getTerminatingMustTailCall()) { (void)CI; return; }
      if (Value *v = R->getReturnValue())
        if (slots(v->getType()) && slots(v->getType()) <= 32) {
          storeSlots(B, gRet, v->getType(), S(v), 0);
          B.CreateStore(F, gOwner);
          return;
        }
      B.CreateStore(F, gOwner);
      return;
    }
    if (auto *II = dyn_cast<InvokeInst>(I)) { visitCall(II); return; }
    if (auto *SI = dyn_cast<SwitchInst>(I)) {
      pinIf(B, SI->getCondition(), PIN_SWITCH);
      return;
    }
  }

  bool isRuntime(StringRef n) { return n.starts_with("__sym_") || n.starts_with("__symw_"); }
  bool pureNative(StringRef n)
  {
    // callees that neither take scalar data worth tracking nor call back into instrumented code
    return n.starts_with("__cxa_") || n == "__gxx_personality_v0" || n == "_ZSt9terminatev" ||
           n.starts_with("_ZSt20__throw_") || n == "_Unwind_Resume" || n == "__clang_call_terminate";
  }

  void visitCall(CallBase *CB)
  {
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { visitIntrinsic(II); return; }
    if (CB->isInlineAsm()) {
      IRBuilder<> B(CB);
      unsup(B, CB);
      return;
    }
    Function *callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    IRBuilder<> B(CB);
    if (callee && isRuntime(callee->getName())) return;
    if (callee) {
      auto it = wrappers.find(callee->getName().str());
      if (it != wrappers.end() && callee->isDeclaration()) {
        FunctionCallee w = M.getOrInsertFunction(it->second, callee->getFunctionType());
        CB->setCalledFunction(w);
        callee = cast<Function>(w.getCallee());
      } else if (callee->isDeclaration())
        externs.insert(callee->getName().str());
    }
    if (!callee) pinIf(B, CB->getCalledOperand(), PIN_CALL);
    if (callee && pureNative(callee->getName())) return;
    // args
    unsigned at = 0;
    unsigned n = CB->arg_size();
    for (unsigned i = 0; i < n; i++) {
      Value *a = CB->getArgOperand(i);
      unsigned k = slots(a->getType());
      if (!k) continue;
      if (CB->isByValArgument(i)) {
        B.CreateStore(a, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, at));
        at++;
        continue;
      }
      if (at + k > 120) break;
      at = storeSlots(B, gArgs, a->getType(), S(a), at);
    }
    bool byval = false;
    for (unsigned i = 0; i < n; i++) byval |= CB->isByValArgument(i);
    Value *fp = callee ? (Value *)callee : CB->getCalledOperand();
    B.CreateStore(fp, gCallee);
    B.CreateStore(nul(), gOwner);
    if (!callee || (callee->isDeclaration() && !wrappers.count(callee->getName().str()))) B.CreateCall(fExt, {});
    if (CB->isMustTailCall()) return;
    Instruction *ip = nullptr;
    if (auto *IV = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *nd = IV->getNormalDest();
      BasicBlock *nb = BasicBlock::Create(C, "", F, nd);
      BranchInst::Create(nd, nb);
      nd->replacePhiUsesWith(IV->getParent(), nb);
      IV->setNormalDest(nb);
      ip = &*nb->getFirstInsertionPt();
    } else
      ip = CB->getNextNode();
    if (CB->doesNotReturn() && !isa<InvokeInst>(CB)) return;
    IRBuilder<> A(ip);
    bool local = callee && !callee->isDeclaration() && !callee->isVarArg();
    if (!local) A.CreateCall(fPost, {fp, i32(byval ? 0 : at)});
    unsigned rs = slots(CB->getType());
    if (rs && rs <= 32) {
      Value *own = A.CreateLoad(Ptr, gOwner);
      Value *ok = A.CreateICmpEQ(own, fp);
      unsigned r = 0;
      Value *rv = loadSlots(A, gRet, CB->getType(), r);
      sh[CB] = A.CreateSelect(ok, rv, shNull(CB->getType()));
    }
  }

  void visitIntrinsic(IntrinsicInst *II)
  {
    IRBuilder<> B(II->getNextNode());
    auto id = II->getIntrinsicID();
    auto O = [&](unsigned i) { return II->getArgOperand(i); };
    switch (id) {
      case Intrinsic::memcpy:
      case Intrinsic::memcpy_inline:
      case Intrinsic::memmove: {
        IRBuilder<> Pb(II);
        pinIf(Pb, O(0), PIN_ADDR);
        pinIf(Pb, O(1), PIN_ADDR);
        pinIf(Pb, O(2), PIN_SIZE);
        Pb.CreateCall(fMemcpy, {O(0), O(1), Pb.CreateZExtOrTrunc(O(2), I64)});
        return;
      }
      case Intrinsic::memset: {
        IRBuilder<> Pb(II);
        pinIf(Pb, O(0), PIN_ADDR);
        pinIf(Pb, O(2), PIN_SIZE);
        Pb.CreateCall(fMemset, {O(0), S(O(1)), Pb.CreateZExtOrTrunc(O(2), I64)});
        return;
      }
      case Intrinsic::lifetime_start: {
        auto *sz = cast<ConstantInt>(O(0));
        if (!sz->isMinusOne()) B.CreateCall(fClear, {O(1), sz});
        return;
      }
      case Intrinsic::fabs: un(II, B, OP_FABS, O(0)); return;
      case Intrinsic::sqrt: un(II, B, OP_FSQRT, O(0)); return;
      case Intrinsic::floor: un(II, B, OP_FFLOOR, O(0)); return;
      case Intrinsic::ceil: un(II, B, OP_FCEIL, O(0)); return;
      case Intrinsic::trunc: un(II, B, OP_FTRUNC, O(0)); return;
      case Intrinsic::rint:
      case Intrinsic::nearbyint:
      case Intrinsic::roundeven: un(II, B, OP_FRINT, O(0)); return;
      case Intrinsic::round: un(II, B, OP_FROUND, O(0)); return;
      case Intrinsic::copysign: bin(II, B, OP_COPYSIGN, O(0), O(1)); return;
      case Intrinsic::minnum: bin(II, B, OP_FMIN, O(0), O(1)); return;
      case Intrinsic::maxnum: bin(II, B, OP_FMAX, O(0), O(1)); return;
      case Intrinsic::is_fpclass: {
        Value *s = S(O(0));
        if (isNullC(s)) return;
        if (!kind(O(0)->getType())) { unsup(B, II); return; }
        unsigned m = cast<ConstantInt>(O(1))->getZExtValue();
        sh[II] = B.CreateCall(fUn, {i32(OP_FPCLASS | (m << 8)), i32(kind(O(0)->getType())), i32(1),
                                    s, asI64(B, O(0)), B.CreateZExt(II, I64)});
        return;
      }
      case Intrinsic::umin: bin(II, B, OP_UMIN, O(0), O(1)); return;
      case Intrinsic::umax: bin(II, B, OP_UMAX, O(0), O(1)); return;
      case Intrinsic::smin: bin(II, B, OP_SMIN, O(0), O(1)); return;
      case Intrinsic::smax: bin(II, B, OP_SMAX, O(0), O(1)); return;
      case Intrinsic::abs: un(II, B, OP_IABS, O(0)); return;
      case Intrinsic::usub_sat: bin(II, B, OP_USUBSAT, O(0), O(1)); return;
      case Intrinsic::bswap: un(II, B, OP_BSWAP, O(0)); return;
      case Intrinsic::fshl: {
        if (O(0) == O(1) && isa<ConstantInt>(O(2))) bin(II, B, OP_ROTL, O(0), O(2));
        else unsup(B, II);
        return;
      }
      case Intrinsic::umul_with_overflow:
      case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::ssub_with_overflow: {
        Value *sa = S(O(0)), *sb = S(O(1));
        if (isNullC(sa) && isNullC(sb)) return;
        unsigned k = kind(O(0)->getType());
        if (!k) { unsup(B, II); return; }
        unsigned op = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow
                        ? OP_MUL
                        : id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow
                            ? OP_ADD
                            : OP_SUB;
        unsigned oo = id == Intrinsic::umul_with_overflow   ? OP_UMULO
                      : id == Intrinsic::smul_with_overflow ? OP_SMULO
                      : id == Intrinsic::uadd_with_overflow ? OP_UADDO
                      : id == Intrinsic::sadd_with_overflow ? OP_SADDO
                      : id == Intrinsic::usub_with_overflow ? OP_USUBO
                                                            : OP_SSUBO;
        Value *r0 = B.CreateExtractValue(II, 0), *r1 = B.CreateExtractValue(II, 1);
        Value *e0 = B.CreateCall(
          fBin, {i32(op), i32(k), sa, asI64(B, O(0)), sb, asI64(B, O(1)), asI64(B, r0)});
        Value *e1 = B.CreateCall(
          fBin, {i32(oo), i32(k), sa, asI64(B, O(0)), sb, asI64(B, O(1)), asI64(B, r1)});
        Value *r = shNull(II->getType());
        r = B.CreateInsertValue(r, e0, 0);
        r = B.CreateInsertValue(r, e1, 1);
        sh[II] = r;
        return;
      }
      case Intrinsic::expect:
      case Intrinsic::expect_with_probability:
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
      case Intrinsic::ssa_copy:
        sh[II] = S(O(0));
        return;
      case Intrinsic::assume:
      case Intrinsic::lifetime_end:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::eh_typeid_for:
      case Intrinsic::stacksave:
      case Intrinsic::stackrestore:
      case Intrinsic::trap:
      case Intrinsic::objectsize:
      case Intrinsic::threadlocal_address:
      case Intrinsic::is_constant:
      case Intrinsic::vastart:
      case Intrinsic::vaend:
      case Intrinsic::vacopy:
      case Intrinsic::donothing:
      case Intrinsic::invariant_start:
      case Intrinsic::invariant_end:
      case Intrinsic::prefetch:
        return;
      default: {
        if (isa<DbgInfoIntrinsic>(II)) return;
        IRBuilder<> Pb(II);
        unsup(Pb, II);
        return;
      }
    }
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
  {
    std::vector<Function *> fs;
    for (Function &F : M)
      if (!F.isDeclaration() && !F.isVarArg() && !F.hasAvailableExternallyLinkage() &&
          !F.getName().starts_with("__sym")) {
        // drop nomemory-style attributes which would let codegen reorder around the runtime calls
        fs.push_back(&F);
      }
    Instr in(M);
    for (Function *F : fs) in.run(*F);
    // available_externally bodies must go: their instrumented original lives elsewhere
    for (Function &F : M) {
      F.removeFnAttr(Attribute::Memory);
      F.removeFnAttr(Attribute::WillReturn);
      F.removeFnAttr(Attribute::NoSync);
      F.removeFnAttr(Attribute::NoFree);
      F.removeFnAttr(Attribute::NoCallback);
      F.removeFnAttr(Attribute::NoRecurse);
      F.removeFnAttr(Attribute::Speculatable);
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (isa<IntrinsicInst>(CB)) continue;
          CB->removeFnAttr(Attribute::Memory);
          CB->removeFnAttr(Attribute::NoCallback);
          CB->removeFnAttr(Attribute::WillReturn);
          CB->removeFnAttr(Attribute::NoSync);
          CB->removeFnAttr(Attribute::NoFree);
          // tail-call markers are unsound once the callee's arguments may escape to the runtime
          if (auto *CI = dyn_cast<CallInst>(CB))
            if (CI->isTailCall() && !CI->isMustTailCall()) CI->setTailCall(false);
        }
    }
    if (const char *p = getenv("SYM_EXTERNS")) {
      std::error_code ec;
      raw_fd_ostream o(p, ec, sys::fs::OF_Append);
      for (auto &e : in.externs) o << e << "\n";
    }
    if (const char *p = getenv("SYM_FUNCS")) {
      std::error_code ec;
      raw_fd_ostream o(p, ec, sys::fs::OF_Append);
      for (auto *f : fs) o << f->getName() << "\n";
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "v1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
              [](ModulePassManager &MPM, OptimizationLevel) {
                FunctionPassManager FPM;
                FPM.addPass(LowerSwitchPass());
                FPM.addPass(LowerAtomicPass());
                ScalarizerPassOptions so;
                so.ScalarizeLoadStore = true;
                so.ScalarizeVariableInsertExtract = true;
                FPM.addPass(ScalarizerPass(so));
                MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
                MPM.addPass(SymPass());
              });
          }};
}
