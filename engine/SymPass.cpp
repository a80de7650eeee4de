// LLVM-20 pass plugin: symbolic shadow instrumentation of the real code.
//
// Every first-class value gets one 32-bit shadow per scalar leaf: 0 means
// "concrete", any other value names a node of the runtime's expression DAG
// (see rt.cpp). The instrumented program computes its concrete result as usual
// and, next to it, the expression of that result over the symbolic inputs.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/Local.h"

using namespace llvm;

namespace {

using Leaves = SmallVector<Value *, 2>;

struct Instrumenter {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I1, *I8, *I32, *I64, *PtrTy, *VoidTy;
  GlobalVariable *ArgFn, *ArgSh, *RetFn, *RetSh, *ExtV, *ExtS;
  unsigned nextSite = 0;
  uint64_t modHash;

  Instrumenter(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I1 = Type::getInt1Ty(C);
    I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
    PtrTy = PointerType::getUnqual(C);
    VoidTy = Type::getVoidTy(C);
    auto gv = [&](StringRef n, Type *t) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    ArgFn = gv("__sym_argfn", PtrTy);
    ArgSh = gv("__sym_argsh", ArrayType::get(I32, 64));
    RetFn = gv("__sym_retfn", PtrTy);
    RetSh = gv("__sym_retsh", ArrayType::get(I32, 16));
    ExtV = gv("__sym_extv", ArrayType::get(I64, 64));
    ExtS = gv("__sym_exts", ArrayType::get(I32, 64));
    modHash = 1469598103934665603ull;
    for (char ch : M.getModuleIdentifier())
      modHash = (modHash ^ (unsigned char)ch) * 1099511628211ull;
  }

  FunctionCallee rt(StringRef name, Type *ret, ArrayRef<Type *> args) {
    return M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
  }

  // Number of scalar leaves of a type; vectors count as one, never symbolic.
  static unsigned leafCount(Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      unsigned n = 0;
      for (Type *e : ST->elements())
        n += leafCount(e);
      return n;
    }
    if (auto *AT = dyn_cast<ArrayType>(T))
      return AT->getNumElements() * leafCount(AT->getElementType());
    if (T->isVoidTy())
      return 0;
    return 1;
  }
  static bool isScalar(Type *T) {
    if (auto *IT = dyn_cast<IntegerType>(T))
      return IT->getBitWidth() <= 64;
    return T->isPointerTy() || T->isDoubleTy() || T->isFloatTy();
  }
  unsigned widthOf(Type *T) {
    if (auto *IT = dyn_cast<IntegerType>(T))
      return IT->getBitWidth();
    if (T->isPointerTy() || T->isDoubleTy())
      return 64;
    if (T->isFloatTy())
      return 32;
    return 0;
  }
  Value *toI64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy())
      return B.CreatePtrToInt(V, I64);
    if (T->isDoubleTy())
      return B.CreateBitCast(V, I64);
    if (T->isFloatTy())
      return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isIntegerTy()) {
      if (T->getIntegerBitWidth() <= 64)
        return B.CreateZExt(V, I64);
      return B.CreateTrunc(V, I64);
    }
    return ConstantInt::get(I64, 0);
  }

  // ---- per function ----
  DenseMap<Value *, Leaves> Sh;
  Value *Zero() { return ConstantInt::get(I32, 0); }
  bool isZero(Value *S) {
    auto *CI = dyn_cast<ConstantInt>(S);
    return CI && CI->isZero();
  }
  Leaves get(Value *V) {
    auto it = Sh.find(V);
    if (it != Sh.end())
      return it->second;
    Leaves L;
    for (unsigned i = 0, e = leafCount(V->getType()); i < e; ++i)
      L.push_back(Zero());
    return L;
  }
  Value *get1(Value *V) {
    auto L = get(V);
    return L.empty() ? Zero() : L[0];
  }
  Value *orAll(IRBuilder<> &B, ArrayRef<Value *> S) {
    Value *R = nullptr;
    for (Value *v : S) {
      if (isZero(v))
        continue;
      R = R ? B.CreateOr(R, v) : v;
    }
    return R;
  }

  // Emit, before/after `I`, a guarded computation producing an i32 shadow.
  template <typename Fn>
  Value *guarded(Instruction *At, ArrayRef<Value *> S, Fn fn,
                 Value *els = nullptr) {
    IRBuilder<> B(At);
    Value *any = orAll(B, S);
    if (!any)
      return els ? els : Zero();
    Value *cond = B.CreateICmpNE(any, Zero());
    BasicBlock *head = At->getParent();
    Instruction *T = SplitBlockAndInsertIfThen(cond, At, false);
    BasicBlock *thenB = T->getParent();
    IRBuilder<> TB(T);
    Value *r = fn(TB);
    thenB = T->getParent();
    IRBuilder<> PB(At->getParent(), At->getParent()->begin());
    PHINode *P = PB.CreatePHI(I32, 2);
    P->addIncoming(r, thenB);
    P->addIncoming(els ? els : Zero(), head);
    return P;
  }
  template <typename Fn>
  void guardedVoid(Instruction *At, ArrayRef<Value *> S, Fn fn) {
    IRBuilder<> B(At);
    Value *any = orAll(B, S);
    if (!any)
      return;
    Value *cond = B.CreateICmpNE(any, Zero());
    Instruction *T = SplitBlockAndInsertIfThen(cond, At, false);
    IRBuilder<> TB(T);
    fn(TB);
  }
  Value *c32(uint64_t v) { return ConstantInt::get(I32, v); }
  Value *c64(uint64_t v) { return ConstantInt::get(I64, v); }

  void concretize(Instruction *At, Value *S, Value *V) {
    if (isZero(S) || !isScalar(V->getType()))
      return;
    guardedVoid(At, {S}, [&](IRBuilder<> &B) {
      B.CreateCall(rt("__sym_concretize", VoidTy, {I32, I64}),
                   {S, toI64(B, V)});
    });
  }

  Value *siteId() { return c64(modHash + (nextSite++) * 0x9E3779B97F4A7C15ull); }

  Value *strGlobal(StringRef s) {
    std::string n = ("__symstr_" + s).str();
    if (auto *g = M.getNamedGlobal(n))
      return g;
    auto *cst = ConstantDataArray::getString(C, s);
    auto *g = new GlobalVariable(M, cst->getType(), true,
                                 GlobalValue::PrivateLinkage, cst, n);
    return g;
  }

  void handleIntrinsic(IntrinsicInst *I) {
    switch (I->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      IRBuilder<> B(I);
      Value *len = I->getArgOperand(2);
      B.CreateCall(rt("__sym_memcpy", VoidTy,
                      {PtrTy, I32, PtrTy, I32, I64, I32}),
                   {I->getArgOperand(0), get1(I->getArgOperand(0)),
                    I->getArgOperand(1), get1(I->getArgOperand(1)),
                    toI64(B, len), get1(len)});
      return;
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline: {
      IRBuilder<> B(I->getNextNode());
      Value *len = I->getArgOperand(2);
      Value *val = I->getArgOperand(1);
      B.CreateCall(
          rt("__sym_memset", VoidTy, {PtrTy, I32, I64, I32, I64, I32}),
          {I->getArgOperand(0), get1(I->getArgOperand(0)), toI64(B, val),
           get1(val), toI64(B, len), get1(len)});
      return;
    }
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy:
      Sh[I] = get(I->getArgOperand(0));
      return;
    case Intrinsic::umin:
    case Intrinsic::umax:
    case Intrinsic::smin:
    case Intrinsic::smax: {
      if (!isScalar(I->getType())) break;
      unsigned op = 0;
      switch (I->getIntrinsicID()) {
      case Intrinsic::umin: op = 0; break;
      case Intrinsic::umax: op = 1; break;
      case Intrinsic::smin: op = 2; break;
      default: op = 3; break;
      }
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      Value *sa = get1(a), *sb = get1(b);
      Sh[I] = {guarded(I, {sa, sb}, [&](IRBuilder<> &B) {
        return B.CreateCall(rt("__sym_minmax", I32,
                               {I32, I32, I32, I64, I32, I64}),
                            {c32(op), c32(widthOf(I->getType())), sa,
                             toI64(B, a), sb, toI64(B, b)});
      })};
      return;
    }
    case Intrinsic::abs:
    case Intrinsic::ctpop:
    case Intrinsic::ctlz:
    case Intrinsic::cttz:
    case Intrinsic::bswap:
    case Intrinsic::fabs: {
      if (!isScalar(I->getType())) break;
      unsigned op = 0;
      switch (I->getIntrinsicID()) {
      case Intrinsic::abs: op = 0; break;
      case Intrinsic::ctpop: op = 1; break;
      case Intrinsic::ctlz: op = 2; break;
      case Intrinsic::cttz: op = 3; break;
      case Intrinsic::bswap: op = 4; break;
      default: op = 5; break;
      }
      Value *a = I->getArgOperand(0);
      Value *sa = get1(a);
      Sh[I] = {guarded(I, {sa}, [&](IRBuilder<> &B) {
        return B.CreateCall(
            rt("__sym_unintr", I32, {I32, I32, I32, I64}),
            {c32(op), c32(widthOf(I->getType())), sa, toI64(B, a)});
      })};
      return;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      if (!isScalar(I->getType())) break;
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1),
            *s = I->getArgOperand(2);
      Value *sa = get1(a), *sb = get1(b), *ss = get1(s);
      concretize(I, ss, s);
      Sh[I] = {guarded(I, {sa, sb}, [&](IRBuilder<> &B) {
        return B.CreateCall(
            rt("__sym_fsh", I32, {I32, I32, I32, I64, I32, I64, I64}),
            {c32(I->getIntrinsicID() == Intrinsic::fshr),
             c32(widthOf(I->getType())), sa, toI64(B, a), sb, toI64(B, b),
             toI64(B, s)});
      })};
      return;
    }
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow: {
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      if (!isScalar(a->getType())) break;
      unsigned op = 0;
      switch (I->getIntrinsicID()) {
      case Intrinsic::uadd_with_overflow: op = 0; break;
      case Intrinsic::sadd_with_overflow: op = 1; break;
      case Intrinsic::usub_with_overflow: op = 2; break;
      case Intrinsic::ssub_with_overflow: op = 3; break;
      case Intrinsic::umul_with_overflow: op = 4; break;
      default: op = 5; break;
      }
      Value *sa = get1(a), *sb = get1(b);
      Leaves L;
      for (unsigned part = 0; part < 2; ++part)
        L.push_back(guarded(I, {sa, sb}, [&](IRBuilder<> &B) {
          return B.CreateCall(rt("__sym_ovf", I32,
                                 {I32, I32, I32, I32, I64, I32, I64}),
                              {c32(op), c32(part), c32(widthOf(a->getType())),
                               sa, toI64(B, a), sb, toI64(B, b)});
        }));
      Sh[I] = L;
      return;
    }
    case Intrinsic::uadd_sat:
    case Intrinsic::usub_sat:
    case Intrinsic::sadd_sat:
    case Intrinsic::ssub_sat: {
      if (!isScalar(I->getType())) break;
      unsigned op = I->getIntrinsicID() == Intrinsic::uadd_sat   ? 0
                    : I->getIntrinsicID() == Intrinsic::usub_sat ? 1
                    : I->getIntrinsicID() == Intrinsic::sadd_sat ? 2
                                                                  : 3;
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      Value *sa = get1(a), *sb = get1(b);
      Sh[I] = {guarded(I, {sa, sb}, [&](IRBuilder<> &B) {
        return B.CreateCall(rt("__sym_sat", I32,
                               {I32, I32, I32, I64, I32, I64}),
                            {c32(op), c32(widthOf(I->getType())), sa,
                             toI64(B, a), sb, toI64(B, b)});
      })};
      return;
    }
    case Intrinsic::ucmp:
    case Intrinsic::scmp: {
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      if (!isScalar(a->getType())) break;
      Value *sa = get1(a), *sb = get1(b);
      Sh[I] = {guarded(I, {sa, sb}, [&](IRBuilder<> &B) {
        return B.CreateCall(
            rt("__sym_3cmp", I32, {I32, I32, I32, I32, I64, I32, I64}),
            {c32(I->getIntrinsicID() == Intrinsic::scmp),
             c32(widthOf(I->getType())), c32(widthOf(a->getType())), sa,
             toI64(B, a), sb, toI64(B, b)});
      })};
      return;
    }
    case Intrinsic::assume:
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::objectsize:
    case Intrinsic::is_constant:
    case Intrinsic::trap:
    case Intrinsic::stacksave:
    case Intrinsic::stackrestore:
    case Intrinsic::prefetch:
      return;
    default:
      break;
    }
    // Any other intrinsic: its symbolic operands are enumerated.
    for (Value *a : I->args())
      if (isScalar(a->getType()))
        concretize(I, get1(a), a);
  }

  void handleCall(CallBase *I) {
    if (auto *II = dyn_cast<IntrinsicInst>(I))
      return handleIntrinsic(II);
    if (I->isInlineAsm())
      return;
    Function *F = I->getCalledFunction();
    StringRef name = F ? F->getName() : "";
    if (name.starts_with("__sym_h_")) {
      // harness interface: the runtime reads the argument shadows directly
      SmallVector<Value *, 8> S;
      for (unsigned i = 0; i < I->arg_size(); ++i)
        S.push_back(get1(I->getArgOperand(i)));
      {
        IRBuilder<> B(I);
        for (unsigned i = 0; i < S.size(); ++i)
          B.CreateStore(S[i], B.CreateConstInBoundsGEP2_64(
                                  ArgSh->getValueType(), ArgSh, 0, i));
      }
      if (leafCount(I->getType()) == 1 && isa<CallInst>(I)) {
        IRBuilder<> B(I->getNextNode());
        Sh[I] = {B.CreateLoad(I32, B.CreateConstInBoundsGEP2_64(
                                       RetSh->getValueType(), RetSh, 0, 0))};
      }
      return;
    }
    if (name.starts_with("__sym"))
      return;
    // memory library functions called by name
    if (name == "memcpy" || name == "memmove") {
      IRBuilder<> B(I);
      Value *len = I->getArgOperand(2);
      B.CreateCall(rt("__sym_memcpy", VoidTy,
                      {PtrTy, I32, PtrTy, I32, I64, I32}),
                   {I->getArgOperand(0), get1(I->getArgOperand(0)),
                    I->getArgOperand(1), get1(I->getArgOperand(1)),
                    toI64(B, len), get1(len)});
      Sh[I] = {get1(I->getArgOperand(0))};
      return;
    }
    if (name == "memset") {
      IRBuilder<> B(I->getNextNode());
      Value *len = I->getArgOperand(2), *val = I->getArgOperand(1);
      Value *sv = get1(val);
      Value *v8 = B.CreateAnd(toI64(B, val), c64(255));
      B.CreateCall(
          rt("__sym_memset", VoidTy, {PtrTy, I32, I64, I32, I64, I32}),
          {I->getArgOperand(0), get1(I->getArgOperand(0)), v8, sv,
           toI64(B, len), get1(len)});
      Sh[I] = {get1(I->getArgOperand(0))};
      return;
    }
    if (name == "memcmp" || name == "bcmp" || name == "strcmp" ||
        name == "strncmp") {
      IRBuilder<> B(I->getNextNode());
      bool str = name.starts_with("str");
      Value *len = I->arg_size() > 2 ? I->getArgOperand(2) : c64(~0ull);
      Sh[I] = {B.CreateCall(
          rt("__sym_memcmp", I32,
             {I32, PtrTy, I32, PtrTy, I32, I64, I32, I32}),
          {c32(name == "bcmp" ? 1 : (str ? 2 : 0)), I->getArgOperand(0),
           get1(I->getArgOperand(0)), I->getArgOperand(1),
           get1(I->getArgOperand(1)), toI64(B, len), get1(len), I})};
      return;
    }
    if (name == "memchr") {
      IRBuilder<> B(I);
      Value *len = I->getArgOperand(2), *val = I->getArgOperand(1);
      B.CreateCall(
          rt("__sym_memchr_pre", VoidTy, {PtrTy, I32, I64, I32, I64, I32}),
          {I->getArgOperand(0), get1(I->getArgOperand(0)), toI64(B, val),
           get1(val), toI64(B, len), get1(len)});
      return;
    }
    if (name == "strlen") {
      IRBuilder<> B(I);
      B.CreateCall(rt("__sym_strlen_pre", VoidTy, {PtrTy, I32}),
                   {I->getArgOperand(0), get1(I->getArgOperand(0))});
      return;
    }

    Value *callee = I->getCalledOperand();
    SmallVector<Value *, 8> S;
    SmallVector<std::pair<unsigned, Value *>, 8> scal; // arg idx, value
    for (unsigned i = 0; i < I->arg_size(); ++i)
      for (Value *s : get(I->getArgOperand(i)))
        S.push_back(s);
    bool indirect = !F;
    if (indirect)
      concretize(I, get1(callee), callee);

    bool definedHere = F && !F->isDeclaration() &&
                       !F->hasAvailableExternallyLinkage();
    // Call of something that may be uninstrumented: enumerate what it sees.
    if (!definedHere) {
      bool hasArgs = I->arg_size() > 0;
      if (hasArgs) {
        IRBuilder<> B(I);
        Value *isExt;
        if (F) {
          auto *flag = getFlag(F->getName(), /*define=*/false);
          isExt = B.CreateICmpEQ(flag, ConstantPointerNull::get(
                                           PointerType::getUnqual(C)));
        } else {
          isExt = B.CreateICmpEQ(
              B.CreateCall(rt("__sym_is_instr", I32, {PtrTy}), {callee}),
              c32(0));
        }
        Instruction *T = SplitBlockAndInsertIfThen(isExt, I, false);
        IRBuilder<> TB(T);
        unsigned n = 0;
        for (unsigned i = 0; i < I->arg_size() && n < 60; ++i) {
          Value *a = I->getArgOperand(i);
          if (!isScalar(a->getType())) {
            continue;
          }
          TB.CreateStore(toI64(TB, a),
                         TB.CreateConstInBoundsGEP2_64(ExtV->getValueType(), ExtV, 0, n));
          TB.CreateStore(get1(a),
                         TB.CreateConstInBoundsGEP2_64(ExtS->getValueType(), ExtS, 0, n));
          ++n;
        }
        uint64_t pmask = 0;
        n = 0;
        for (unsigned i = 0; i < I->arg_size() && n < 60; ++i) {
          Value *a = I->getArgOperand(i);
          if (!isScalar(a->getType()))
            continue;
          if (a->getType()->isPointerTy())
            pmask |= 1ull << n;
          ++n;
        }
        TB.CreateCall(rt("__sym_ext_call", VoidTy, {PtrTy, I32, I64}),
                      {F ? strGlobal(name) : ConstantPointerNull::get(
                                                 PointerType::getUnqual(C)),
                       c32(n), c64(pmask)});
      }
    }
    bool allZero = true;
    for (Value *s : S)
      if (!isZero(s))
        allZero = false;
    bool hasByval = false;
    for (unsigned i = 0; i < I->arg_size(); ++i)
      if (I->isByValArgument(i)) {
        hasByval = true;
        IRBuilder<> B(I);
        B.CreateCall(rt("__sym_byval_save", VoidTy, {I32, PtrTy, I64}),
                     {c32(i), I->getArgOperand(i),
                      c64(DL.getTypeAllocSize(I->getParamByValType(i)))});
      }
    if (!allZero || hasByval) {
      IRBuilder<> B(I);
      for (unsigned i = 0; i < S.size() && i < 64; ++i)
        B.CreateStore(S[i], B.CreateConstInBoundsGEP2_64(ArgSh->getValueType(), ArgSh, 0, i));
      B.CreateStore(callee, ArgFn);
    }
    unsigned rn = leafCount(I->getType());
    if (rn && !I->isMustTailCall() && rn <= 16) {
      Instruction *nx = I->getNextNode();
      IRBuilder<> B(nx);
      Value *m = B.CreateICmpEQ(B.CreateLoad(PtrTy, RetFn), callee);
      Leaves L;
      for (unsigned i = 0; i < rn; ++i)
        L.push_back(B.CreateSelect(
            m, B.CreateLoad(I32, B.CreateConstInBoundsGEP2_64(RetSh->getValueType(), RetSh, 0, i)),
            Zero()));
      Sh[I] = L;
    }
  }

  GlobalVariable *getFlag(StringRef fn, bool define) {
    std::string n = ("__symflag_" + fn).str();
    GlobalVariable *g = M.getNamedGlobal(n);
    if (!g)
      g = new GlobalVariable(M, I8, false, GlobalValue::ExternalWeakLinkage,
                             nullptr, n);
    if (define && g->isDeclaration()) {
      g->setLinkage(GlobalValue::WeakAnyLinkage);
      g->setInitializer(ConstantInt::get(I8, 1));
    }
    return g;
  }

  void handle(Instruction *I) {
    Type *T = I->getType();
    switch (I->getOpcode()) {
    case Instruction::FNeg: {
      Value *a = I->getOperand(0), *sa = get1(a);
      if (!isScalar(T)) break;
      Sh[I] = {guarded(I, {sa}, [&](IRBuilder<> &B) {
        return B.CreateCall(rt("__sym_unintr", I32, {I32, I32, I32, I64}),
                            {c32(6), c32(widthOf(T)), sa, toI64(B, a)});
      })};
      return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: case Instruction::Shl: case Instruction::LShr:
    case Instruction::AShr: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub:
    case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (!isScalar(T)) break;
      Value *a = I->getOperand(0), *b = I->getOperand(1);
      Value *sa = get1(a), *sb = get1(b);
      if (isZero(sa) && isZero(sb)) return;
      Sh[I] = {guarded(I, {sa, sb}, [&](IRBuilder<> &B) {
        return B.CreateCall(
            rt("__sym_bin", I32, {I32, I32, I32, I64, I32, I64, I64}),
            {c32(I->getOpcode()), c32(widthOf(T)), sa, toI64(B, a), sb,
             toI64(B, b), siteId()});
      })};
      return;
    }
    case Instruction::ICmp:
    case Instruction::FCmp: {
      auto *CI = cast<CmpInst>(I);
      Value *a = I->getOperand(0), *b = I->getOperand(1);
      if (!isScalar(a->getType())) break;
      Value *sa = get1(a), *sb = get1(b);
      if (isZero(sa) && isZero(sb)) return;
      Sh[I] = {guarded(I, {sa, sb}, [&](IRBuilder<> &B) {
        return B.CreateCall(
            rt("__sym_cmp", I32, {I32, I32, I32, I64, I32, I64}),
            {c32(CI->getPredicate()), c32(widthOf(a->getType())), sa,
             toI64(B, a), sb, toI64(B, b)});
      })};
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::FPToSI: case Instruction::FPToUI:
    case Instruction::FPTrunc: case Instruction::FPExt: {
      Value *a = I->getOperand(0), *sa = get1(a);
      if (!isScalar(T) || !isScalar(a->getType())) break;
      if (isZero(sa)) return;
      Sh[I] = {guarded(I, {sa}, [&](IRBuilder<> &B) {
        return B.CreateCall(rt("__sym_cast", I32, {I32, I32, I32, I32, I64}),
                            {c32(I->getOpcode()), c32(widthOf(a->getType())),
                             c32(widthOf(T)), sa, toI64(B, a)});
      })};
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      Value *a = I->getOperand(0), *sa = get1(a);
      if (!isScalar(T) || !isScalar(a->getType())) break;
      if (widthOf(T) == widthOf(a->getType())) { Sh[I] = {sa}; return; }
      if (isZero(sa)) return;
      unsigned op = widthOf(T) < widthOf(a->getType()) ? Instruction::Trunc
                                                       : Instruction::ZExt;
      Sh[I] = {guarded(I, {sa}, [&](IRBuilder<> &B) {
        return B.CreateCall(rt("__sym_cast", I32, {I32, I32, I32, I32, I64}),
                            {c32(op), c32(widthOf(a->getType())),
                             c32(widthOf(T)), sa, toI64(B, a)});
      })};
      return;
    }
    case Instruction::BitCast: case Instruction::Freeze:
    case Instruction::AddrSpaceCast:
      if (leafCount(T) == leafCount(I->getOperand(0)->getType()) &&
          (T->isAggregateType() || (isScalar(T) && isScalar(I->getOperand(0)->getType())))) {
        Sh[I] = get(I->getOperand(0));
        return;
      }
      break;
    case Instruction::GetElementPtr: {
      auto *G = cast<GetElementPtrInst>(I);
      if (!isScalar(T)) break;
      SmallVector<Value *, 4> S;
      S.push_back(get1(G->getPointerOperand()));
      for (auto &ix : G->indices()) S.push_back(get1(ix));
      bool z = true;
      for (auto *s : S) z &= isZero(s);
      if (z) return;
      unsigned bw = 64;
      SmallMapVector<Value *, APInt, 4> vo;
      APInt co(bw, 0);
      if (!G->collectOffset(DL, bw, vo, co)) break;
      Sh[I] = {guarded(I, S, [&](IRBuilder<> &B) -> Value * {
        auto fn = rt("__sym_gep", I32, {I32, I64, I32, I32, I64, I64});
        Value *cs = get1(G->getPointerOperand());
        Value *cv = toI64(B, G->getPointerOperand());
        if (co != 0) {
          cs = B.CreateCall(fn, {cs, cv, Zero(), c32(64), c64(co.getSExtValue()), c64(1)});
          cv = B.CreateAdd(cv, c64(co.getSExtValue()));
        }
        for (auto &[v, sc] : vo) {
          cs = B.CreateCall(fn, {cs, cv, get1(v), c32(widthOf(v->getType())), toI64(B, v), c64(sc.getSExtValue())});
          cv = B.CreateAdd(cv, B.CreateMul(B.CreateSExtOrTrunc(v, I64), c64(sc.getSExtValue())));
        }
        return cs;
      })};
      return;
    }
    case Instruction::Select: {
      auto *S = cast<SelectInst>(I);
      Value *c = S->getCondition(), *sc = get1(c);
      if (c->getType()->isVectorTy()) break;
      Leaves la = get(S->getTrueValue()), lb = get(S->getFalseValue());
      if (!isScalar(T)) {
        concretize(I, sc, c);
        Leaves L;
        IRBuilder<> B(I);
        for (unsigned i = 0; i < la.size(); ++i)
          L.push_back(B.CreateSelect(c, la[i], lb[i]));
        Sh[I] = L;
        return;
      }
      if (isZero(sc) && isZero(la[0]) && isZero(lb[0])) return;
      IRBuilder<> B(I);
      Value *plain = (isZero(la[0]) && isZero(lb[0])) ? Zero() : B.CreateSelect(c, la[0], lb[0]);
      Sh[I] = {guarded(I, {sc}, [&](IRBuilder<> &B) {
        return B.CreateCall(
            rt("__sym_select", I32, {I32, I32, I32, I32, I64, I32, I64}),
            {c32(widthOf(T)), sc, B.CreateZExt(c, I32), la[0],
             toI64(B, S->getTrueValue()), lb[0],
             toI64(B, S->getFalseValue())});
      }, plain)};
      return;
    }
    case Instruction::Load: {
      auto *L = cast<LoadInst>(I);
      Value *p = L->getPointerOperand(), *sp = get1(p);
      uint64_t n = DL.getTypeStoreSize(T);
      if (!isScalar(T)) {
        IRBuilder<> B(I);
        if (T->isAggregateType() && leafCount(T) <= 16) {
          // leaf-wise
          Leaves out;
          loadLeaves(B, T, p, sp, 0, out);
          Sh[I] = out;
          return;
        }
        B.CreateCall(rt("__sym_concretize_mem", VoidTy, {PtrTy, I32, I64}), {p, sp, c64(n)});
        return;
      }
      if (isStaticSafe(p) && isZero(sp) && isa<GlobalVariable>(p->stripPointerCasts()) &&
          cast<GlobalVariable>(p->stripPointerCasts())->isConstant())
        return;
      IRBuilder<> B(I);
      Sh[I] = {B.CreateCall(rt("__sym_load", I32, {PtrTy, I32, I32, I32}),
                            {p, sp, c32(n), c32(widthOf(T))})};
      return;
    }
    case Instruction::Store: {
      auto *S = cast<StoreInst>(I);
      Value *p = S->getPointerOperand(), *sp = get1(p);
      Value *v = S->getValueOperand();
      Type *VT = v->getType();
      uint64_t n = DL.getTypeStoreSize(VT);
      if (!isScalar(VT)) {
        IRBuilder<> B(I);
        B.CreateCall(rt("__sym_clear", VoidTy, {PtrTy, I32, I64}), {p, sp, c64(n)});
        if (VT->isAggregateType() && leafCount(VT) <= 16) {
          IRBuilder<> B2(I->getNextNode());
          Leaves l = get(v);
          unsigned k = 0;
          storeLeaves(B2, VT, p, 0, l, k);
        }
        return;
      }
      // address first (it may be enumerated), then the shadow
      IRBuilder<> B(I);
      B.CreateCall(rt("__sym_store", VoidTy, {PtrTy, I32, I32, I32, I32, I64}),
                   {p, sp, c32(n), c32(widthOf(VT)), get1(v), toI64(B, v)});
      return;
    }
    case Instruction::AtomicRMW:
    case Instruction::AtomicCmpXchg: {
      IRBuilder<> B(I);
      Value *p = I->getOperand(0);
      B.CreateCall(rt("__sym_clear", VoidTy, {PtrTy, I32, I64}),
                   {p, get1(p), c64(8)});
      return;
    }
    case Instruction::ExtractValue: {
      auto *E = cast<ExtractValueInst>(I);
      Leaves l = get(E->getAggregateOperand());
      unsigned off = 0;
      Type *cur = E->getAggregateOperand()->getType();
      for (unsigned ix : E->indices()) {
        if (auto *ST = dyn_cast<StructType>(cur)) {
          for (unsigned k = 0; k < ix; ++k) off += leafCount(ST->getElementType(k));
          cur = ST->getElementType(ix);
        } else {
          auto *AT = cast<ArrayType>(cur);
          off += ix * leafCount(AT->getElementType());
          cur = AT->getElementType();
        }
      }
      Leaves r;
      for (unsigned k = 0; k < leafCount(cur); ++k) r.push_back(l[off + k]);
      Sh[I] = r;
      return;
    }
    case Instruction::InsertValue: {
      auto *E = cast<InsertValueInst>(I);
      Leaves l = get(E->getAggregateOperand());
      unsigned off = 0;
      Type *cur = E->getAggregateOperand()->getType();
      for (unsigned ix : E->indices()) {
        if (auto *ST = dyn_cast<StructType>(cur)) {
          for (unsigned k = 0; k < ix; ++k) off += leafCount(ST->getElementType(k));
          cur = ST->getElementType(ix);
        } else {
          auto *AT = cast<ArrayType>(cur);
          off += ix * leafCount(AT->getElementType());
          cur = AT->getElementType();
        }
      }
      Leaves v = get(E->getInsertedValueOperand());
      for (unsigned k = 0; k < v.size(); ++k) l[off + k] = v[k];
      Sh[I] = l;
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke:
      return handleCall(cast<CallBase>(I));
    case Instruction::Br: {
      auto *Br = cast<BranchInst>(I);
      if (!Br->isConditional()) return;
      Value *c = Br->getCondition(), *sc = get1(c);
      if (isZero(sc)) return;
      guardedVoid(I, {sc}, [&](IRBuilder<> &B) {
        B.CreateCall(rt("__sym_branch", VoidTy, {I32, I32, I64}),
                     {sc, B.CreateZExt(c, I32), siteId()});
      });
      return;
    }
    case Instruction::Ret: {
      auto *R = cast<ReturnInst>(I);
      Value *v = R->getReturnValue();
      if (!v) return;
      if (auto *prev = dyn_cast_or_null<CallInst>(R->getPrevNode()))
        if (prev->isMustTailCall()) return;
      Leaves l = get(v);
      if (l.size() > 16) return;
      IRBuilder<> B(I);
      for (unsigned i = 0; i < l.size(); ++i)
        B.CreateStore(l[i], B.CreateConstInBoundsGEP2_64(RetSh->getValueType(), RetSh, 0, i));
      B.CreateStore(I->getFunction(), RetFn);
      return;
    }
    case Instruction::Switch:
      concretize(I, get1(I->getOperand(0)), I->getOperand(0));
      return;
    case Instruction::IndirectBr:
      return;
    case Instruction::Alloca:
    case Instruction::PHI:
    case Instruction::Unreachable:
    case Instruction::Fence:
    case Instruction::LandingPad:
    case Instruction::Resume:
      return;
    default:
      break;
    }
    // unsupported: enumerate symbolic scalar operands
    for (Value *op : I->operands())
      if (isScalar(op->getType()))
        concretize(I, get1(op), op);
  }

  bool isStaticSafe(Value *p) { return isa<GlobalVariable>(p->stripPointerCasts()); }

  void loadLeaves(IRBuilder<> &B, Type *T, Value *p, Value *sp, uint64_t off, Leaves &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); ++i)
        loadLeaves(B, ST->getElementType(i), p, sp, off + SL->getElementOffset(i), out);
      return;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < AT->getNumElements(); ++i)
        loadLeaves(B, AT->getElementType(), p, sp, off + i * DL.getTypeAllocSize(AT->getElementType()), out);
      return;
    }
    if (!isScalar(T)) { out.push_back(Zero()); return; }
    Value *q = B.CreateConstGEP1_64(I8, p, off);
    out.push_back(B.CreateCall(rt("__sym_load", I32, {PtrTy, I32, I32, I32}),
                               {q, sp, c32(DL.getTypeStoreSize(T)), c32(widthOf(T))}));
  }
  void storeLeaves(IRBuilder<> &B, Type *T, Value *p, uint64_t off, Leaves &l, unsigned &k) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); ++i)
        storeLeaves(B, ST->getElementType(i), p, off + SL->getElementOffset(i), l, k);
      return;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < AT->getNumElements(); ++i)
        storeLeaves(B, AT->getElementType(), p, off + i * DL.getTypeAllocSize(AT->getElementType()), l, k);
      return;
    }
    Value *s = l[k++];
    if (!isScalar(T) || isZero(s)) return;
    Value *q = B.CreateConstGEP1_64(I8, p, off);
    B.CreateCall(rt("__sym_store_post", VoidTy, {PtrTy, I32, I32, I32}),
                 {q, c32(DL.getTypeStoreSize(T)), c32(widthOf(T)), s});
  }

  void runOnFunction(Function &F, SmallVectorImpl<Constant *> &fnTable) {
    Sh.clear();
    SmallVector<Instruction *, 64> work;
    SmallVector<PHINode *, 16> phis;
    {
      ReversePostOrderTraversal<Function *> RPO(&F);
      for (BasicBlock *BB : RPO)
        for (Instruction &I : *BB) {
          if (auto *P = dyn_cast<PHINode>(&I))
            phis.push_back(P);
          else
            work.push_back(&I);
        }
    }
    // argument shadows
    BasicBlock &entry = F.getEntryBlock();
    Instruction *ip = &*entry.getFirstInsertionPt();
    while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
    IRBuilder<> B(ip);
    std::string nm = F.getName().str();
    // entry hook (coverage)
    std::string file;
    unsigned line = 0;
    if (auto *SP = F.getSubprogram()) {
      file = SP->getFilename().str();
      if (file.empty() || file[0] != '/')
        file = (SP->getDirectory() + "/" + SP->getFilename()).str();
      line = SP->getLine();
    }
    bool repoFn = file.find("/repo/") == 0;
    unsigned n = 0;
    for (Argument &A : F.args()) n += leafCount(A.getType());
    bool anyByval = false;
    for (Argument &A : F.args()) anyByval |= A.hasByValAttr();
    if ((n > 0 && n <= 64) || anyByval) {
      Value *m = B.CreateICmpEQ(B.CreateLoad(PtrTy, ArgFn), &F);
      unsigned k = 0;
      for (Argument &A : F.args()) {
        Leaves L;
        unsigned lc = leafCount(A.getType());
        for (unsigned i = 0; i < lc; ++i, ++k) {
          if (!(isScalar(A.getType()) || A.getType()->isAggregateType()) || k >= 64)
            L.push_back(Zero());
          else
            L.push_back(B.CreateSelect(
                m, B.CreateLoad(I32, B.CreateConstInBoundsGEP2_64(ArgSh->getValueType(), ArgSh, 0, k)),
                Zero()));
        }
        Sh[&A] = L;
      }
      for (Argument &A : F.args())
        if (A.hasByValAttr())
          B.CreateCall(rt("__sym_byval_restore", VoidTy, {I32, I32, PtrTy, I64}),
                       {B.CreateZExt(m, I32), c32(A.getArgNo()), &A,
                        c64(DL.getTypeAllocSize(A.getParamByValType()))});
      B.CreateStore(ConstantPointerNull::get(PointerType::getUnqual(C)), ArgFn);
    }
    if (repoFn) {
      auto *st = StructType::get(C, {PtrTy, PtrTy, I32, I32});
      auto *init = ConstantStruct::get(
          st, {cast<Constant>(strGlobal(nm)), cast<Constant>(strGlobal(file)),
               ConstantInt::get(I32, line), ConstantInt::get(I32, 0)});
      auto *g = new GlobalVariable(M, st, false, GlobalValue::PrivateLinkage, init, "__symcov");
      B.CreateCall(rt("__sym_enter", VoidTy, {PtrTy}), {g});
    }
    for (PHINode *P : phis) {
      if (!(isScalar(P->getType()) || P->getType()->isAggregateType())) continue;
      Leaves L;
      IRBuilder<> PB(P);
      for (unsigned i = 0; i < leafCount(P->getType()); ++i)
        L.push_back(PB.CreatePHI(I32, P->getNumIncomingValues()));
      Sh[P] = L;
    }
    for (Instruction *I : work) handle(I);
    for (PHINode *P : phis) {
      auto it = Sh.find(P);
      if (it == Sh.end()) continue;
      Leaves L = it->second;
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        Leaves s = get(P->getIncomingValue(i));
        for (unsigned k = 0; k < L.size(); ++k)
          cast<PHINode>(L[k])->addIncoming(s[k], P->getIncomingBlock(i));
      }
    }
    fnTable.push_back(&F);
    if (!F.hasLocalLinkage()) getFlag(F.getName(), true);
  }

  bool run() {
    SmallVector<Function *, 64> fs;
    for (Function &F : M) {
      if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
      if (F.getName().starts_with("__sym")) continue;
      fs.push_back(&F);
    }
    SmallVector<Constant *, 64> table;
    for (Function *F : fs) {
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoSync);
      F->removeFnAttr(Attribute::WillReturn);
      F->removeFnAttr(Attribute::NoFree);
      for (Argument &A : F->args()) {
        A.removeAttr(Attribute::ReadNone);
        A.removeAttr(Attribute::ReadOnly);
        A.removeAttr(Attribute::WriteOnly);
        A.removeAttr(Attribute::NoAlias);
        A.removeAttr(Attribute::Captures);
      }
    }
    for (Function &F : M)
      if (F.isDeclaration() && !F.isIntrinsic()) {
        F.removeFnAttr(Attribute::Memory);
      }
    for (Function *F : fs)
      for (Instruction &I : instructions(*F)) {
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          CB->removeFnAttr(Attribute::Memory);
          if (auto *CI = dyn_cast<CallInst>(CB))
            if (CI->isTailCall() && !CI->isMustTailCall())
              CI->setTailCallKind(CallInst::TCK_None);
        }
        I.setMetadata(LLVMContext::MD_noalias, nullptr);
        I.setMetadata(LLVMContext::MD_alias_scope, nullptr);
        I.setMetadata(LLVMContext::MD_tbaa, nullptr);
        I.setMetadata(LLVMContext::MD_invariant_load, nullptr);
      }
    // Keep instrumented inline functions out of the dynamic symbol table: the
    // shared libraries would otherwise run our copies of their templates.
    for (Function *F : fs)
      if (F->hasLinkOnceLinkage() || F->hasWeakLinkage()) F->setVisibility(GlobalValue::HiddenVisibility);
    for (Function *F : fs) runOnFunction(*F, table);
    for (GlobalAlias &A : M.aliases())
      if (!A.hasLocalLinkage() && isa<Function>(A.getAliaseeObject()) &&
          !A.getName().starts_with("__sym"))
        getFlag(A.getName(), true);
    // constructor registering the instrumented functions of this module
    if (!table.empty()) {
      // comdat functions can be discarded: take addresses through the table,
      // which resolves to the prevailing definition.
      auto *AT = ArrayType::get(PtrTy, table.size());
      auto *g = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage,
                                   ConstantArray::get(AT, table), "__symfns");
      FunctionType *FT = FunctionType::get(VoidTy, false);
      Function *ctor = Function::Create(FT, GlobalValue::InternalLinkage, "__sym_ctor", M);
      IRBuilder<> B(BasicBlock::Create(C, "e", ctor));
      B.CreateCall(rt("__sym_register", VoidTy, {PtrTy, I32}), {g, c32(table.size())});
      B.CreateRetVoid();
      appendToGlobalCtors(M, ctor, 0);
    }
    return true;
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Instrumenter(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel,
                   ThinOrFullLTOPhase) {
                  MPM.addPass(createModuleToFunctionPassAdaptor(LowerSwitchPass()));
                  MPM.addPass(SymPass());
                });
            PB.registerPipelineParsingCallback(
                [](StringRef Name, ModulePassManager &MPM,
                   ArrayRef<PassBuilder::PipelineElement>) {
                  if (Name != "sym") return false;
                  MPM.addPass(createModuleToFunctionPassAdaptor(LowerSwitchPass()));
                  MPM.addPass(SymPass());
                  return true;
                });
          }};
}
