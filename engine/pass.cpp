// LLVM 18 pass plugin: rewrites every floating point operation of the compiled
// repository code into a call of the symbolic runtime (engine/rt.cpp).
//
// A symbolic double is a NaN-boxed expression id, so loads, stores, memcpy, phi,
// struct passing and raw I/O need no instrumentation.  Comparisons become boxed
// booleans; those that feed a select stay symbolic (if-then-else expressions), those
// that feed a branch or an integer are decided by the runtime (path condition).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/Demangle/Demangle.h"
#include <cstdlib>
#include <map>
#include <set>
using namespace llvm;

namespace {

static bool isD(Type *t) { return t->isDoubleTy(); }

struct Inst {
  Module &M; LLVMContext &C; Type *D, *I32, *I1, *I64, *Ptr, *V;
  std::map<Value*, Value*> boxed;       // i1 value -> boxed bool (double)
  Inst(Module &m): M(m), C(m.getContext()) {
    D=Type::getDoubleTy(C); I32=Type::getInt32Ty(C); I1=Type::getInt1Ty(C); I64=Type::getInt64Ty(C);
    Ptr=PointerType::getUnqual(C); V=Type::getVoidTy(C);
  }
  FunctionCallee fn(StringRef n, Type *r, std::vector<Type*> a) {
    return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
  }
  Value *call(IRBuilder<> &B, StringRef n, Type *r, std::vector<Value*> a) {
    std::vector<Type*> t; for (auto v: a) t.push_back(v->getType());
    return B.CreateCall(fn(n, r, t), a);
  }
  // Is v (an i1) derived from an fcmp through and/or/xor/select-i1/freeze/phi?
  bool web(Value *v, std::set<Value*> &seen) {
    if (!v->getType()->isIntegerTy(1)) return false;
    if (!seen.insert(v).second) return false;
    if (isa<FCmpInst>(v)) return isD(cast<FCmpInst>(v)->getOperand(0)->getType());
    if (auto *b = dyn_cast<BinaryOperator>(v)) return web(b->getOperand(0),seen) | web(b->getOperand(1),seen);
    if (auto *s = dyn_cast<SelectInst>(v)) return web(s->getCondition(),seen) | web(s->getTrueValue(),seen) | web(s->getFalseValue(),seen);
    if (auto *f = dyn_cast<FreezeInst>(v)) return web(f->getOperand(0),seen);
    if (auto *p = dyn_cast<PHINode>(v)) { bool r=false; for (auto &o: p->incoming_values()) r |= web(o,seen); return r; }
    return false;
  }
  bool inWeb(Value *v) { std::set<Value*> s; return web(v, s); }

  Value *box(Value *v) {                 // boxed boolean for i1 v
    auto it = boxed.find(v);
    if (it != boxed.end()) return it->second;
    if (auto *c = dyn_cast<ConstantInt>(v)) return ConstantFP::get(D, c->isZero()?0.0:1.0);
    if (isa<UndefValue>(v)) return ConstantFP::get(D, 0.0);
    if (!inWeb(v)) {
      // ordinary boolean: convert right after its definition
      Value *r;
      if (auto *i = dyn_cast<Instruction>(v)) {
        Instruction *ip = isa<PHINode>(i) ? &*i->getParent()->getFirstInsertionPt()
                        : (isa<InvokeInst>(i) ? nullptr : i->getNextNode());
        if (!ip) { auto *inv=cast<InvokeInst>(i); ip=&*inv->getNormalDest()->getFirstInsertionPt(); }
        IRBuilder<> B(ip); r = B.CreateUIToFP(v, D);
      } else { // argument
        auto *F = cast<Argument>(v)->getParent();
        IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt()); r = B.CreateUIToFP(v, D);
      }
      return boxed[v] = r;
    }
    auto *i = cast<Instruction>(v);
    if (auto *p = dyn_cast<PHINode>(i)) {
      PHINode *n = PHINode::Create(D, p->getNumIncomingValues(), "bx", p);
      boxed[v] = n;
      for (unsigned k=0;k<p->getNumIncomingValues();++k) n->addIncoming(box(p->getIncomingValue(k)), p->getIncomingBlock(k));
      return n;
    }
    Value *r;
    if (auto *f = dyn_cast<FCmpInst>(i)) {
      IRBuilder<> B(i->getNextNode());
      r = call(B, "rt_cmp", D, {ConstantInt::get(I32, (int)f->getPredicate()), f->getOperand(0), f->getOperand(1)});
    } else if (auto *b = dyn_cast<BinaryOperator>(i)) {
      Value *x=box(b->getOperand(0)), *y=box(b->getOperand(1));
      IRBuilder<> B(i->getNextNode());
      const char *n = b->getOpcode()==Instruction::And?"rt_and":b->getOpcode()==Instruction::Or?"rt_or":b->getOpcode()==Instruction::Xor?"rt_xor":nullptr;
      if (!n) report_fatal_error("rt: boolean op");
      r = call(B, n, D, {x,y});
    } else if (auto *s = dyn_cast<SelectInst>(i)) {
      Value *c=box(s->getCondition()), *x=box(s->getTrueValue()), *y=box(s->getFalseValue());
      IRBuilder<> B(i->getNextNode());
      r = call(B, "rt_bite", D, {c,x,y});
    } else if (auto *f = dyn_cast<FreezeInst>(i)) {
      r = box(f->getOperand(0));
    } else report_fatal_error("rt: web");
    return boxed[v] = r;
  }

  bool run() {
    static const std::map<std::string,std::string> lib1 = {
      {"sqrt","rt_sqrt"},{"fabs","rt_fabs"},{"exp","rt_exp"},{"log","rt_log"},{"sin","rt_sin"},{"cos","rt_cos"},
      {"tan","rt_tan"},{"tanh","rt_tanh"},{"sinh","rt_sinh"},{"cosh","rt_cosh"},{"atan","rt_atan"},{"asin","rt_asin"},{"acos","rt_acos"},
      {"floor","rt_floor"},{"ceil","rt_ceil"},{"trunc","rt_trunc"},{"round","rt_round"},{"rint","rt_rint"},{"nearbyint","rt_rint"},{"cbrt","rt_cbrt"},{"log10","rt_log10"},
      {"__exp_finite","rt_exp"},{"__log_finite","rt_log"}};
    static const std::map<std::string,std::string> lib2 = {
      {"pow","rt_pow"},{"fmin","rt_min"},{"fmax","rt_max"},{"atan2","rt_atan2"},{"copysign","rt_copysign"},{"fmod","rt_fmod"},{"hypot","rt_hypot"}};
    static const std::map<unsigned,std::string> in1 = {
      {Intrinsic::sqrt,"rt_sqrt"},{Intrinsic::fabs,"rt_fabs"},{Intrinsic::exp,"rt_exp"},{Intrinsic::log,"rt_log"},{Intrinsic::sin,"rt_sin"},
      {Intrinsic::cos,"rt_cos"},{Intrinsic::floor,"rt_floor"},{Intrinsic::ceil,"rt_ceil"},{Intrinsic::trunc,"rt_trunc"},{Intrinsic::round,"rt_round"},
      {Intrinsic::rint,"rt_rint"},{Intrinsic::nearbyint,"rt_rint"},{Intrinsic::log10,"rt_log10"}};
    static const std::map<unsigned,std::string> in2 = {
      {Intrinsic::pow,"rt_pow"},{Intrinsic::minnum,"rt_min"},{Intrinsic::maxnum,"rt_max"},{Intrinsic::minimum,"rt_min"},{Intrinsic::maximum,"rt_max"},{Intrinsic::copysign,"rt_copysign"}};
    bool mem = getenv("RT_MEM") != nullptr;
    for (auto &F: M) {
      if (F.isDeclaration()) continue;
      if (F.getName().starts_with("rt_")) continue;
      boxed.clear();
      std::vector<Instruction*> work;
      for (auto &I: instructions(F)) work.push_back(&I);
      std::vector<Instruction*> dead;
      // pass 1: i1 webs.  Decide at uses that need a concrete i1.
      for (auto *I: work) {
        auto vec = [&](Type *t){ if (auto *vt=dyn_cast<VectorType>(t)) return vt->getElementType()->isFloatingPointTy(); return false; };
        if (isa<BinaryOperator>(I) || isa<FCmpInst>(I) || isa<UnaryOperator>(I))
          if (vec(I->getOperand(0)->getType())) { errs() << "rt: vector fp op in " << F.getName() << "\n"; report_fatal_error("rt: vector"); }
      }
      for (auto *I: work) {
        if (!I->getType()->isIntegerTy(1)) continue;
        if (!(isa<FCmpInst>(I)||isa<BinaryOperator>(I)||isa<SelectInst>(I)||isa<FreezeInst>(I)||isa<PHINode>(I))) continue;
        if (!inWeb(I)) continue;
        // users that need concrete i1
        std::vector<Use*> us;
        for (auto &U: I->uses()) us.push_back(&U);
        for (Use *U: us) {
          auto *user = cast<Instruction>(U->getUser());
          bool keep=false;
          if (user->getType()->isIntegerTy(1) && (isa<BinaryOperator>(user)||isa<SelectInst>(user)||isa<FreezeInst>(user)||isa<PHINode>(user)) ) keep = inWeb(user);
          if (auto *s=dyn_cast<SelectInst>(user)) if (isD(s->getType()) && U->getOperandNo()==0) keep=true;
          if (isa<UIToFPInst>(user)) keep=true;
          if (keep) continue;
          Value *b = box(I);
          Instruction *ip = user;
          if (auto *p=dyn_cast<PHINode>(user)) ip = p->getIncomingBlock(*U)->getTerminator();
          IRBuilder<> B(ip);
          Value *d = call(B, "rt_decide", I1, {b});
          U->set(d);
        }
      }
      for (auto *I: work) {
        IRBuilder<> B(I);
        Value *r=nullptr;
        if (auto *s=dyn_cast<SelectInst>(I)) {
          if (isD(s->getType()) && inWeb(s->getCondition())) {
            r = call(B, "rt_ite", D, {box(s->getCondition()), s->getTrueValue(), s->getFalseValue()});
          }
        } else if (auto *u=dyn_cast<UIToFPInst>(I)) {
          if (u->getOperand(0)->getType()->isIntegerTy(1) && isD(u->getType()) && inWeb(u->getOperand(0)))
            r = call(B, "rt_ite", D, {box(u->getOperand(0)), ConstantFP::get(D,1.0), ConstantFP::get(D,0.0)});
        } else if (auto *b=dyn_cast<BinaryOperator>(I)) {
          if (isD(b->getType())) {
            const char *n=nullptr;
            switch (b->getOpcode()) { case Instruction::FAdd:n="rt_add";break; case Instruction::FSub:n="rt_sub";break; case Instruction::FMul:n="rt_mul";break;
              case Instruction::FDiv:n="rt_div";break; case Instruction::FRem:n="rt_fmod";break; default:; }
            if (n) r = call(B, n, D, {b->getOperand(0), b->getOperand(1)});
          }
        } else if (auto *u=dyn_cast<UnaryOperator>(I)) {
          if (isD(u->getType()) && u->getOpcode()==Instruction::FNeg) r = call(B, "rt_neg", D, {u->getOperand(0)});
        } else if (auto *f=dyn_cast<FPToSIInst>(I)) {
          if (isD(f->getOperand(0)->getType())) { Value *x=call(B,"rt_toint",D,{f->getOperand(0)}); I->setOperand(0,x); }
        } else if (auto *f=dyn_cast<FPToUIInst>(I)) {
          if (isD(f->getOperand(0)->getType())) { Value *x=call(B,"rt_toint",D,{f->getOperand(0)}); I->setOperand(0,x); }
        } else if (auto *f=dyn_cast<FPTruncInst>(I)) {
          if (isD(f->getOperand(0)->getType())) { Value *x=call(B,"rt_conc",D,{f->getOperand(0)}); I->setOperand(0,x); }
        } else if (auto *a=dyn_cast<AtomicRMWInst>(I)) {
          if (isD(a->getType())) {
            const char *n = a->getOperation()==AtomicRMWInst::FAdd?"rt_add":a->getOperation()==AtomicRMWInst::FSub?"rt_sub":
              a->getOperation()==AtomicRMWInst::FMax?"rt_max":a->getOperation()==AtomicRMWInst::FMin?"rt_min":nullptr;
            if (n) { Value *o=B.CreateLoad(D,a->getPointerOperand()); Value *x=call(B,n,D,{o,a->getValOperand()}); B.CreateStore(x,a->getPointerOperand()); r=o; }
          }
        } else if (auto *c=dyn_cast<CallBase>(I)) {
          Function *cf=c->getCalledFunction();
          if (cf) {
            if (auto id=cf->getIntrinsicID()) {
              if (isD(c->getType())) {
                if (in1.count(id)) r=call(B,in1.at(id),D,{c->getArgOperand(0)});
                else if (in2.count(id)) r=call(B,in2.at(id),D,{c->getArgOperand(0),c->getArgOperand(1)});
                else if (id==Intrinsic::fma||id==Intrinsic::fmuladd) { Value *m=call(B,"rt_mul",D,{c->getArgOperand(0),c->getArgOperand(1)}); r=call(B,"rt_add",D,{m,c->getArgOperand(2)}); }
                else if (id==Intrinsic::powi) { Value *e=B.CreateSIToFP(c->getArgOperand(1),D); r=call(B,"rt_pow",D,{c->getArgOperand(0),e}); }
                else if (id==Intrinsic::vector_reduce_fadd) report_fatal_error("rt: vector reduce");
              } else if (id==Intrinsic::is_fpclass && isD(c->getArgOperand(0)->getType())) {
                Value *x=call(B,"rt_conc",D,{c->getArgOperand(0)}); c->setArgOperand(0,x);
              }
            } else if (cf->isDeclaration() && isD(c->getType())) {
              std::string n=cf->getName().str();
              if (lib1.count(n) && c->arg_size()==1) r=call(B,lib1.at(n),D,{c->getArgOperand(0)});
              else if (lib2.count(n) && c->arg_size()==2) r=call(B,lib2.at(n),D,{c->getArgOperand(0),c->getArgOperand(1)});
            }
          }
          if (r && isa<InvokeInst>(I)) { // invoke of a libm function: keep control flow
            auto *inv=cast<InvokeInst>(I); I->replaceAllUsesWith(r); BranchInst::Create(inv->getNormalDest(), I); inv->getUnwindDest()->removePredecessor(I->getParent()); I->eraseFromParent(); continue;
          }
        }
        if (r) { I->replaceAllUsesWith(r); for (auto &kv: boxed) if (kv.second==I) kv.second=r; dead.push_back(I); }
      }
      for (auto *I: dead) I->eraseFromParent();
      // memory access tracing (race / bounds checks)
      if (mem) {
        std::vector<Instruction*> w2; for (auto &I: instructions(F)) w2.push_back(&I);
        const DataLayout &DL=M.getDataLayout();
        for (auto *I: w2) {
          Value *p=nullptr; uint64_t sz=0; int kind=-1;
          if (auto *l=dyn_cast<LoadInst>(I)) { p=l->getPointerOperand(); sz=DL.getTypeStoreSize(l->getType()); kind=l->isAtomic()?2:0; }
          else if (auto *s=dyn_cast<StoreInst>(I)) { p=s->getPointerOperand(); sz=DL.getTypeStoreSize(s->getValueOperand()->getType()); kind=s->isAtomic()?2:1; }
          else if (auto *a=dyn_cast<AtomicRMWInst>(I)) { p=a->getPointerOperand(); sz=DL.getTypeStoreSize(a->getType()); kind=2; }
          else if (auto *a=dyn_cast<AtomicCmpXchgInst>(I)) { p=a->getPointerOperand(); sz=DL.getTypeStoreSize(a->getNewValOperand()->getType()); kind=2; }
          else if (auto *m=dyn_cast<MemTransferInst>(I)) {
            IRBuilder<> B(I); call(B,"rt_access",V,{m->getSource(),B.CreateZExtOrTrunc(m->getLength(),I64),ConstantInt::get(I32,0)});
            call(B,"rt_access",V,{m->getDest(),B.CreateZExtOrTrunc(m->getLength(),I64),ConstantInt::get(I32,1)}); continue; }
          else if (auto *m=dyn_cast<MemSetInst>(I)) { IRBuilder<> B(I); call(B,"rt_access",V,{m->getDest(),B.CreateZExtOrTrunc(m->getLength(),I64),ConstantInt::get(I32,1)}); continue; }
          if (!p || isa<AllocaInst>(p->stripPointerCasts())) continue;
          IRBuilder<> B(I);
          call(B,"rt_access",V,{p,ConstantInt::get(I64,sz),ConstantInt::get(I32,kind)});
        }
      }
    }
    return true;
  }
};

// Marks the start and the end of one work item: every call operator of a functor of the
// repository that takes an int index (run before inlining).
struct EarlyPass : PassInfoMixin<EarlyPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    if (!getenv("RT_MEM")) return PreservedAnalyses::all();
    auto &C=M.getContext();
    auto *V=Type::getVoidTy(C); auto *I64=Type::getInt64Ty(C); auto *Ptr=PointerType::getUnqual(C);
    for (auto &F: M) {
      if (F.isDeclaration()) continue;
      std::string d=demangle(F.getName().str());
      if (d.find("ppkMHD::")==std::string::npos) continue;
      if (d.rfind("Kokkos::",0)==0 || d.rfind("void Kokkos::",0)==0) continue;
      size_t p=d.find("::operator()"); if (p==std::string::npos) continue;
      if (d.find("{lambda")!=std::string::npos) {}
      if (F.arg_size()<2) continue;
      Value *idx=nullptr; Type *t=F.getArg(1)->getType();
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      if (t->isIntegerTy()) idx=B.CreateSExtOrTrunc(F.getArg(1),I64);
      else if (t->isPointerTy()) idx=B.CreateSExt(B.CreateLoad(Type::getInt32Ty(C),F.getArg(1)),I64);
      else continue;
      auto beg=M.getOrInsertFunction("rt_item_begin",FunctionType::get(V,{Ptr,I64},false));
      auto end=M.getOrInsertFunction("rt_item_end",FunctionType::get(V,{},false));
      Value *nm=B.CreateGlobalStringPtr(d);
      B.CreateCall(beg,{nm,idx});
      std::vector<Instruction*> rets; for (auto &I: instructions(F)) if (isa<ReturnInst>(I)) rets.push_back(&I);
      for (auto *r: rets) { IRBuilder<> B2(r); B2.CreateCall(end,{}); }
    }
    return PreservedAnalyses::none();
  }
};
struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Inst(M).run(); return PreservedAnalyses::none(); }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel){ MPM.addPass(EarlyPass()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel){ MPM.addPass(SymPass()); });
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>){
      if (N=="symfp") { MPM.addPass(SymPass()); return true; } return false; });
  }};
}
