// LLVM IR -> C, for code that works on characters, integers and pointers.  Loaded as a clang pass plug-in at the end of
// the optimisation pipeline; writes the module as C (to $IR2C_OUT) for CBMC.
#include <llvm/IR/PassManager.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Passes/PassPlugin.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace llvm;
// IR2C_NOFP: no arithmetic on real numbers (every result is an unknown value), library functions have unknown results
static const bool nofp = getenv("IR2C_NOFP") != nullptr;
// a function that stores real numbers only and calls nothing but such functions has no effect that matters
static bool harmless(const Function &F, std::map<const Function *, bool> &memo) {
  auto it = memo.find(&F); if (it != memo.end()) return it->second; memo[&F] = false;
  if (F.isDeclaration() || F.getName() == "v_main") return false;
  for (const BasicBlock &B : F) for (const Instruction &I : B) {
    if (auto *s = dyn_cast<StoreInst>(&I)) { if (!s->getValueOperand()->getType()->isFloatingPointTy() && !isa<AllocaInst>(s->getPointerOperand()->stripInBoundsOffsets())) return false; }
    else if (auto *c = dyn_cast<CallBase>(&I)) {
      auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if (!f) return false; StringRef n = f->getName();
      if (n.startswith("llvm.mem")) { if (!isa<AllocaInst>(c->getArgOperand(0)->stripInBoundsOffsets())) return false; continue; }
      if (n.startswith("llvm.") || (f->isDeclaration() && f->getReturnType()->isFloatingPointTy())) continue;
      if (!harmless(*f, memo)) return false;
    } else if (I.mayWriteToMemory()) return false;
  }
  return memo[&F] = true;
}
static std::map<const Function *, bool> memo;
static bool real_only(const Function &F) { return (F.getReturnType()->isVoidTy() || F.getReturnType()->isFloatingPointTy()) && harmless(F, memo); }
static bool skip(const Function &F) {
  if (!nofp) return false; StringRef n = F.getName(); if (real_only(F)) return true;
  if (n.startswith("_GLOBAL__") || n.startswith("__cxx_global") || n.startswith("__clang_call")) return true;
  static const char *keep[] = {"5array", "3max", "3min", "4swap", "4move", "7forward", "16initializer_list", "3map", "7declval", "3absI", "4pair", "9addressof"};
  bool st = n.startswith("_ZNSt") || n.startswith("_ZNKSt") || n.startswith("_ZSt") || n.startswith("_ZN9__gnu_cxx") || n.startswith("_ZNK9__gnu_cxx") || n.startswith("_ZNSa") || n.startswith("_ZNKSa");
  if (!st) return false; StringRef m = n.substr(n.startswith("_ZNKSt") ? 6 : n.startswith("_ZNSt") ? 5 : 4); for (const char *k : keep) if (m.startswith(k)) return false; return true;
}
namespace {
struct Gen {
  Module &M; const DataLayout &DL; std::ostringstream types, decls, body; std::map<Type *, std::string> tn; std::map<const Value *, std::string> vn; int nt = 0, nu = 0; std::set<const Function *> need;
  Gen(Module &m) : M(m), DL(m.getDataLayout()) {}
  static std::string san(StringRef s) { std::string r = "f_"; for (char c : s) r += (isalnum((unsigned char)c) ? c : '_'); return r; }
  static int width(Type *t) { unsigned w = t->getIntegerBitWidth(); return w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : w <= 64 ? 64 : 128; }
  std::string uns(int w) { return w == 128 ? "unsigned __int128" : "uint" + std::to_string(w) + "_t"; }
  std::string sig(int w) { return w == 128 ? "__int128" : "int" + std::to_string(w) + "_t"; }
  std::string ty(Type *t) {
    if (t->isVoidTy()) return "void"; if (t->isIntegerTy()) return uns(width(t)); if (t->isPointerTy()) return "char *"; if (t->isFloatTy()) return "float"; if (t->isDoubleTy()) return "double";
    auto it = tn.find(t); if (it != tn.end()) return it->second;
    std::string n = "struct t" + std::to_string(nt++);
    if (auto *st = dyn_cast<StructType>(t)) { std::string s = n + " { "; int k = 0; for (Type *e : st->elements()) s += ty(e) + " f" + std::to_string(k++) + "; "; if (!k) s += "char e; "; types << s << "}" << (st->isPacked() ? " __attribute__((packed))" : "") << ";\n"; }
    else if (auto *at = dyn_cast<ArrayType>(t)) { std::string e = ty(at->getElementType()); types << n << " { " << e << " a[" << std::max<uint64_t>(1, at->getNumElements()) << "]; };\n"; }
    else { errs() << "ir2c: unsupported type " << *t << "\n"; exit(3); }
    tn[t] = n; return n;
  }
  std::string init(const Constant *c) {            // initialiser
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) { std::string r = "{ { "; for (unsigned i = 0; i < s->getNumElements(); ++i) r += (i ? ", " : "") + init(s->getElementAsConstant(i)); return r + " } }"; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { std::string r = "{ "; for (unsigned i = 0; i < s->getNumOperands(); ++i) r += (i ? ", " : "") + init(s->getOperand(i)); return r + " }"; }
    if (auto *s = dyn_cast<ConstantArray>(c)) { std::string r = "{ { "; for (unsigned i = 0; i < s->getNumOperands(); ++i) r += (i ? ", " : "") + init(s->getOperand(i)); return r + " } }"; }
    if (isa<ConstantAggregateZero>(c) || (isa<UndefValue>(c) && c->getType()->isAggregateType())) return "{ 0 }";
    return val(c);
  }
  std::string gep(const GEPOperator *g) {
    // byte offsets only: member accesses through cast pointers with symbolic indices are misread by CBMC 6.11
    std::string e = "(" + val(g->getPointerOperand()) + ")"; int64_t off = 0; std::string r;
    for (auto it = gep_type_begin(g), end = gep_type_end(g); it != end; ++it) {
      if (StructType *st = it.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
      int64_t sz = DL.getTypeAllocSize(it.getIndexedType());
      if (auto *c = dyn_cast<ConstantInt>(it.getOperand())) off += sz * c->getSExtValue(); else r += " + " + (sz == 1 ? std::string() : std::to_string(sz) + " * ") + "(int64_t)" + sval(it.getOperand());
    }
    if (off) r += " + " + std::to_string(off); return "((char *)" + e + r + ")";
  }
  std::string val(const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() > 64) { std::string s = "(((unsigned __int128)" + std::to_string(c->getValue().extractBitsAsZExtValue(64, 64)) + "ul << 64) | " + std::to_string(c->getValue().extractBitsAsZExtValue(64, 0)) + "ul)"; return s; } return "((" + ty(v->getType()) + ")" + std::to_string(c->getZExtValue()) + "ul)"; }
    if (isa<ConstantPointerNull>(v)) return "((char *)0)";
    if (auto *c = dyn_cast<ConstantFP>(v)) { char b[64]; snprintf(b, 64, "%a", c->getType()->isFloatTy() ? (double)c->getValueAPF().convertToFloat() : c->getValueAPF().convertToDouble()); return std::string("((") + ty(v->getType()) + ")" + b + ")"; }
    if (isa<UndefValue>(v)) { std::string n = "u" + std::to_string(nu++); types << ty(v->getType()) << " " << n << ";\n"; return n; }
    if (auto *f = dyn_cast<Function>(v)) { need.insert(f); return "((char *)" + fn(f) + ")"; }
    if (auto *g = dyn_cast<GlobalVariable>(v)) return "((char *)&" + vn.at(g) + ")";
    if (auto *g = dyn_cast<GEPOperator>(v)) if (isa<Constant>(v)) return gep(g);
    if (auto *ce = dyn_cast<ConstantExpr>(v)) { if (ce->isCast()) return "((" + ty(ce->getType()) + ")" + val(ce->getOperand(0)) + ")"; }
    auto it = vn.find(v); if (it != vn.end()) return it->second;
    errs() << "ir2c: unsupported value " << *v << "\n"; exit(3);
  }
  std::string sval(const Value *v) { return v->getType()->isIntegerTy() ? "(" + sig(width(v->getType())) + ")" + sx(v) : val(v); }
  // value sign-extended from its real width into its container
  std::string sx(const Value *v) { unsigned w = v->getType()->getIntegerBitWidth(); int c = width(v->getType()); if ((int)w == c) return "((" + sig(c) + ")" + val(v) + ")"; std::string s = std::to_string(c - w); return "(((" + sig(c) + ")(" + val(v) + " << " + s + ")) >> " + s + ")"; }
  std::string mask(Type *t, const std::string &e) { unsigned w = t->getIntegerBitWidth(); int c = width(t); std::string r = "((" + uns(c) + ")(" + e + "))"; return (int)w == c ? r : "(" + r + " & " + std::to_string((1ull << w) - 1) + "ul)"; }
  std::string fn(const Function *f) { static const std::set<std::string> lib = {"strlen", "strcpy", "strncpy", "strcmp", "strncmp", "strchr", "memcpy", "memset", "memmove", "memcmp", "free", "malloc", "isspace", "tolower", "toupper", "isdigit", "isalpha"}; std::string n = f->getName().str();
    if (n == "_Znwm" || n == "_Znam") return "v_new"; if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm") return "v_delete"; if (n.rfind("nondet_", 0) == 0 || n == "v_input") return n; if (lib.count(n) && f->isDeclaration()) return n == "isspace" || n == "tolower" || n == "toupper" ? "v_" + n : n; return san(n); }
  std::string str(const Value *v) { if (auto *g = dyn_cast<GlobalVariable>(v->stripPointerCasts())) if (g->hasInitializer()) if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) return d->isCString() ? d->getAsCString().str() : ""; return "?"; }
  std::string call(const CallBase *c) {
    std::string args; auto arg = [&](unsigned i) { return val(c->getArgOperand(i)); };
    if (auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) {
      StringRef n = f->getName();
      if (n == "v_assert") return "__CPROVER_assert(" + arg(0) + " != 0, \"" + str(c->getArgOperand(1)) + "\")";
      if (n == "v_assume") return "__CPROVER_assume(" + arg(0) + " != 0)";
      if (n == "__cxa_throw" || n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev") return "__CPROVER_assert(0, \"the program does not give up\"); __CPROVER_assume(0)";
      if (nofp && n == "v_int") return "v_int(" + arg(0) + ")";
      if (nofp && n == "v_kernel") return getenv("IR2C_KERNELS") ? "__CPROVER_assert(0, \"KERNEL " + str(c->getArgOperand(0)) + "\")" : "/*KERNEL " + str(c->getArgOperand(0)) + "*/ (void)0";
      if (nofp && n == "v_real") return "nondet_double()";
      if (nofp && c->getType()->isFloatingPointTy() && (f->isDeclaration() || n.startswith("llvm."))) return c->getType()->isFloatTy() ? "nondet_float()" : "nondet_double()";
      if (n == "__cxa_pure_virtual") return "__CPROVER_assert(0, \"pure virtual\")";
      if (nofp && n.startswith("llvm.memcpy")) if (auto *k = dyn_cast<ConstantInt>(c->getArgOperand(2))) for (int i = 0; i < 2; ++i) {
        const Value *q = c->getArgOperand(i)->stripPointerCasts(); Type *t = nullptr; if (auto *a = dyn_cast<AllocaInst>(q)) t = a->getAllocatedType(); else if (auto *g = dyn_cast<GlobalVariable>(q)) t = g->getValueType(); else if (auto *g = dyn_cast<GEPOperator>(q)) t = g->getResultElementType();
        if (t && t->isSized() && !t->isArrayTy() && DL.getTypeAllocSize(t) == k->getZExtValue()) return "*(" + ty(t) + " *)" + arg(0) + " = *(" + ty(t) + " *)" + arg(1);
      }
      if (n.startswith("llvm.memcpy") || n.startswith("llvm.memmove")) return std::string(n.startswith("llvm.memcpy") ? "memcpy(" : "memmove(") + arg(0) + ", " + arg(1) + ", " + arg(2) + ")";
      if (n.startswith("llvm.memset")) return "memset(" + arg(0) + ", " + arg(1) + ", " + arg(2) + ")";
      if (n.startswith("llvm.umax") || n.startswith("llvm.umin")) return "(" + arg(0) + (n.startswith("llvm.umax") ? " > " : " < ") + arg(1) + " ? " + arg(0) + " : " + arg(1) + ")";
      if (n.startswith("llvm.smax") || n.startswith("llvm.smin")) return "(" + sx(c->getArgOperand(0)) + (n.startswith("llvm.smax") ? " > " : " < ") + sx(c->getArgOperand(1)) + " ? " + arg(0) + " : " + arg(1) + ")";
      if (n.startswith("llvm.abs")) return "((" + ty(c->getType()) + ")(" + sx(c->getArgOperand(0)) + " < 0 ? -" + sx(c->getArgOperand(0)) + " : " + sx(c->getArgOperand(0)) + "))";
      if (n.startswith("llvm.usub.sat")) return "(" + arg(0) + " > " + arg(1) + " ? " + mask(c->getType(), arg(0) + " - " + arg(1)) + " : 0)";
      if (n.startswith("llvm.trap") || n.startswith("llvm.ubsantrap")) return "__CPROVER_assert(0, \"trap\"); __CPROVER_assume(0)";
      if (n.startswith("llvm.")) { if (c->getType()->isVoidTy()) return "(void)0"; errs() << "ir2c: unsupported intrinsic " << n << "\n"; exit(3); }
      need.insert(f); for (unsigned i = 0; i < c->arg_size(); ++i) args += (i ? ", " : "") + arg(i); return fn(f) + "(" + args + ")";
    }
    std::string sg = "(" + ty(c->getType()) + " (*)("; for (unsigned i = 0; i < c->arg_size(); ++i) { args += (i ? ", " : "") + arg(i); sg += (i ? ", " : "") + ty(c->getArgOperand(i)->getType()); } if (!c->arg_size()) sg += "void";
    return "(" + sg + "))" + val(c->getCalledOperand()) + ")(" + args + ")";
  }
  std::string label(const BasicBlock *b) { return vn.at(b); }
  void jump(std::ostream &o, const BasicBlock *from, const BasicBlock *to) {
    o << "{ "; int k = 0; std::string set; for (const PHINode &p : to->phis()) { std::string t = "p" + std::to_string(k++); o << ty(p.getType()) << " " << t << " = " << val(p.getIncomingValueForBlock(from)) << "; "; set += (heads.count(to) ? "n_" : "") + vn.at(&p) + " = " + t + "; "; } o << set << "goto " << label(to) << "; }";
  }
  // blocks are written in reverse post-order, so a goto goes backwards exactly at the end of a loop, and every jump to the head of a loop
  // goes to one label (CBMC restarts its unwinding counter there)
  std::map<const BasicBlock *, unsigned> pos; std::set<const BasicBlock *> heads;
  void func(Function &F) {
    if (skip(F)) { need.insert(&F); return; }
    int n = 0; std::ostringstream o, loc; for (Argument &a : F.args()) vn[&a] = "a" + std::to_string(n++);
    for (BasicBlock &B : F) { vn[&B] = "b" + std::to_string(n++); for (Instruction &I : B) if (!I.getType()->isVoidTy()) { vn[&I] = "v" + std::to_string(n++);
      if (auto *al = dyn_cast<AllocaInst>(&I)) { std::string m = "m" + std::to_string(n++); if (al->isArrayAllocation() && !isa<ConstantInt>(al->getArraySize())) { errs() << "ir2c: variable array\n"; exit(3); } uint64_t c = cast<ConstantInt>(al->getArraySize())->getZExtValue(); loc << "  " << ty(al->getAllocatedType()) << " " << m; if (c != 1) loc << "[" << c << "]"; loc << "; char *" << vn[&I] << " = (char *)&" << m << ";\n"; }
      else loc << "  " << ty(I.getType()) << " " << vn[&I] << ";\n"; } }
    ReversePostOrderTraversal<Function *> rpot(&F); pos.clear(); heads.clear(); std::vector<BasicBlock *> ord; if (getenv("IR2C_NOFP")) ord.assign(rpot.begin(), rpot.end()); else for (BasicBlock &B : F) ord.push_back(&B);
    for (BasicBlock *B : ord) { unsigned k = pos.size(); pos[B] = k; }
    if (getenv("IR2C_NOFP")) for (BasicBlock *B : ord) for (const BasicBlock *P : predecessors(B)) if (pos.count(P) && pos[P] >= pos[B]) heads.insert(B);
    for (BasicBlock *BB : ord) { BasicBlock &B = *BB; o << " " << vn[&B] << ": ;\n";
      if (heads.count(&B)) for (const PHINode &p : B.phis()) { o << "  " << vn[&p] << " = n_" << vn[&p] << ";\n"; loc << "  " << ty(p.getType()) << " n_" << vn[&p] << ";\n"; }
      for (Instruction &I : B) {
      if (isa<AllocaInst>(I) || isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      std::string L = I.getType()->isVoidTy() ? "  " : "  " + vn[&I] + " = "; auto op = [&](unsigned i) { return val(I.getOperand(i)); };
      if (auto *b = dyn_cast<BinaryOperator>(&I)) { Type *t = I.getType(); std::string a = op(0), c = op(1), e;
        if (t->isFloatingPointTy() && nofp) { o << L << (t->isFloatTy() ? "nondet_float" : "nondet_double") << "();\n"; continue; }
        if (t->isFloatingPointTy()) { const char *s = b->getOpcode() == Instruction::FAdd ? "+" : b->getOpcode() == Instruction::FSub ? "-" : b->getOpcode() == Instruction::FMul ? "*" : "/"; o << L << a << " " << s << " " << c << ";\n"; continue; }
        std::string W = "(" + uns(width(t)) + ")";
        switch (b->getOpcode()) { case Instruction::Add: e = a + " + " + c; break; case Instruction::Sub: e = a + " - " + c; break; case Instruction::Mul: e = a + " * " + c; break; case Instruction::UDiv: e = a + " / " + c; break; case Instruction::URem: e = a + " % " + c; break;
          case Instruction::SDiv: e = sx(I.getOperand(0)) + " / " + sx(I.getOperand(1)); break; case Instruction::SRem: e = sx(I.getOperand(0)) + " % " + sx(I.getOperand(1)); break; case Instruction::And: e = a + " & " + c; break; case Instruction::Or: e = a + " | " + c; break; case Instruction::Xor: e = a + " ^ " + c; break;
          case Instruction::Shl: e = W + a + " << " + c; break; case Instruction::LShr: e = a + " >> " + c; break; case Instruction::AShr: e = sx(I.getOperand(0)) + " >> " + c; break; default: errs() << "ir2c: " << I << "\n"; exit(3); }
        o << L << mask(t, e) << ";\n"; }
      else if (auto *c = dyn_cast<ICmpInst>(&I)) { bool p = c->getOperand(0)->getType()->isPointerTy(); bool sg = c->isSigned(); std::string a = sg && !p ? sx(c->getOperand(0)) : op(0), b = sg && !p ? sx(c->getOperand(1)) : op(1); const char *s = "=="; switch (c->getUnsignedPredicate()) { default: break; } switch (c->getPredicate()) { case CmpInst::ICMP_EQ: s = "=="; break; case CmpInst::ICMP_NE: s = "!="; break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: s = ">"; break; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: s = ">="; break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: s = "<"; break; default: s = "<="; }
        o << L << "(" << a << " " << s << " " << b << ");\n"; }
      else if (nofp && (isa<FCmpInst>(I) || I.getOpcode() == Instruction::FNeg || (isa<CastInst>(I) && (I.getType()->isFloatingPointTy() || I.getOperand(0)->getType()->isFloatingPointTy()) && !isa<BitCastInst>(I)))) o << L << (isa<FCmpInst>(I) ? "nondet_bool_()" : I.getType()->isFloatTy() ? "nondet_float()" : I.getType()->isDoubleTy() ? "nondet_double()" : "(" + ty(I.getType()) + ")nondet_long()") << ";\n";
      else if (auto *c = dyn_cast<FCmpInst>(&I)) { const char *s = "=="; bool un = false; switch (c->getPredicate()) { case CmpInst::FCMP_OEQ: s = "=="; break; case CmpInst::FCMP_UNE: s = "!="; break; case CmpInst::FCMP_OGT: s = ">"; break; case CmpInst::FCMP_OGE: s = ">="; break; case CmpInst::FCMP_OLT: s = "<"; break; case CmpInst::FCMP_OLE: s = "<="; break; case CmpInst::FCMP_UNO: un = true; break; case CmpInst::FCMP_ORD: un = true; s = "!"; break; default: errs() << "ir2c: " << I << "\n"; exit(3); }
        if (un) o << L << (s[0] == '!' ? "!" : "") << "(" << op(0) << " != " << op(0) << " || " << op(1) << " != " << op(1) << ");\n"; else o << L << "(" << op(0) << " " << s << " " << op(1) << ");\n"; }
      else if (I.getOpcode() == Instruction::FNeg) o << L << "-" << op(0) << ";\n";
      else if (auto *l = dyn_cast<LoadInst>(&I)) o << L << "*(" << ty(l->getType()) << " *)" << op(0) << ";\n";
      else if (auto *s = dyn_cast<StoreInst>(&I)) o << "  *(" << ty(s->getValueOperand()->getType()) << " *)" << val(s->getPointerOperand()) << " = " << val(s->getValueOperand()) << ";\n";
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) o << L << gep(cast<GEPOperator>(g)) << ";\n";
      else if (isa<ZExtInst>(I)) o << L << "(" << ty(I.getType()) << ")" << op(0) << ";\n";
      else if (isa<TruncInst>(I)) o << L << mask(I.getType(), op(0)) << ";\n";
      else if (isa<SExtInst>(I)) o << L << mask(I.getType(), "(" + sig(width(I.getType())) + ")" + sx(I.getOperand(0))) << ";\n";
      else if (isa<FreezeInst>(I)) o << L << op(0) << ";\n";
      else if (isa<SIToFPInst>(I) || isa<FPToSIInst>(I)) { if (isa<SIToFPInst>(I)) o << L << "(" << ty(I.getType()) << ")" << sx(I.getOperand(0)) << ";\n"; else o << L << "(" << sig(width(I.getType())) << ")" << op(0) << ";\n"; }
      else if (isa<FPExtInst>(I) || isa<FPTruncInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I) || isa<UIToFPInst>(I) || isa<FPToUIInst>(I)) o << L << "(" << ty(I.getType()) << ")" << op(0) << ";\n";
      else if (isa<SelectInst>(I)) { o << L << op(0) << " ? " << op(1) << " : " << op(2) << ";\n"; }
      else if (auto *c = dyn_cast<CallBase>(&I)) { if (isa<CallBrInst>(I)) { errs() << "ir2c: callbr\n"; exit(3); } if (c->isInlineAsm()) continue; std::string e = call(c); o << (I.getType()->isVoidTy() || e.rfind("__CPROVER_", 0) == 0 ? "  " : (I.getType()->isIntegerTy() ? L + "(" + ty(I.getType()) + ")" : L)) << e << ";\n"; if (auto *iv = dyn_cast<InvokeInst>(&I)) { o << "  "; jump(o, &B, iv->getNormalDest()); o << "\n"; } }
      else if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { o << "  "; jump(o, &B, b->getSuccessor(0)); o << "\n"; } else { o << "  if (" << val(b->getCondition()) << ") "; jump(o, &B, b->getSuccessor(0)); o << " else "; jump(o, &B, b->getSuccessor(1)); o << "\n"; } }
      else if (auto *s = dyn_cast<SwitchInst>(&I)) { for (auto &cs : s->cases()) { o << "  if (" << val(s->getCondition()) << " == " << val(cs.getCaseValue()) << ") "; jump(o, &B, cs.getCaseSuccessor()); o << " else\n"; } o << "  "; jump(o, &B, s->getDefaultDest()); o << "\n"; }
      else if (auto *r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue()) o << "  return " << val(r->getReturnValue()) << ";\n"; else o << "  return;\n"; }
      else if (isa<UnreachableInst>(I) || isa<ResumeInst>(I)) o << "  __CPROVER_assume(0);\n";
      else if (isa<LandingPadInst>(I)) o << "  __CPROVER_assume(0);\n";
      else if (auto *e = dyn_cast<ExtractValueInst>(&I)) { std::string p = op(0); for (unsigned k : e->indices()) p += ".f" + std::to_string(k); o << L << p << ";\n"; }
      else if (auto *e = dyn_cast<InsertValueInst>(&I)) { std::string p = vn[&I]; o << L << op(0) << "; "; for (unsigned k : e->indices()) p += ".f" + std::to_string(k); o << p << " = " << op(1) << ";\n"; }
      else { errs() << "ir2c: unsupported " << I << "\n"; exit(3); }
    } }
    body << head(F) << " {\n" << loc.str() << o.str() << "}\n";
  }
  std::string head(const Function &F) { std::string s = ty(F.getReturnType()) + " " + fn(&F) + "("; int k = 0; for (const Argument &a : F.args()) { s += (k ? ", " : "") + ty(a.getType()) + " a" + std::to_string(k); ++k; } return s + (k ? ")" : "void)"); }
  void run(const char *out) {
    int k = 0; for (GlobalVariable &g : M.globals()) vn[&g] = "g" + std::to_string(k++);
    std::ostringstream gl, glf; for (GlobalVariable &g : M.globals()) if (!g.getName().startswith("llvm.")) { glf << (g.hasLocalLinkage() || g.hasInitializer() ? "" : "extern ") << ty(g.getValueType()) << " " << vn[&g] << ";\n"; }
    for (GlobalVariable &g : M.globals()) if (g.hasInitializer() && !g.getName().startswith("llvm.")) gl << ty(g.getValueType()) << " " << vn[&g] << " = " << init(g.getInitializer()) << ";\n";
    for (Function &F : M) if (!F.isDeclaration() && !F.getName().startswith("llvm.")) func(F);
    std::set<std::string> done; for (Function &F : M) { if (F.getName().startswith("llvm.") || F.getName() == "v_assert" || F.getName() == "v_assume" || F.getName() == "v_input" || (nofp && (F.getName() == "v_int" || F.getName() == "v_real" || F.getName() == "v_kernel"))) continue; std::string n = fn(&F); if ((n.rfind("f_", 0) != 0 && n.rfind("nondet_", 0) != 0) || !done.insert(n).second) continue; if ((F.isDeclaration() || skip(F)) && !need.count(&F)) continue; decls << head(F); if (nofp && (F.isDeclaration() || skip(F))) decls << (F.getReturnType()->isVoidTy() ? " {}\n" : " { " + ty(F.getReturnType()) + " r; return r; }\n"); else decls << ";\n"; }
    std::ofstream o(out); o << "#include <stdint.h>\n#include <string.h>\n#include <stdlib.h>\n#include <ctype.h>\nuint8_t v_in[256]; uint8_t nondet_byte(void); static uint8_t v_input(uint32_t i) { uint8_t c = nondet_byte(); v_in[i] = c; return c; }\nstatic char *v_new(uint64_t n) { char *p = malloc(n); __CPROVER_assume(p != 0); return p; }\n#define v_delete(p, ...) free(p)\n"
      "static uint32_t v_isspace(uint32_t c) { return c == 32 || (c >= 9 && c <= 13); }\nstatic uint32_t v_tolower(uint32_t c) { return c >= 65 && c <= 90 ? c + 32 : c; }\nstatic uint32_t v_toupper(uint32_t c) { return c >= 97 && c <= 122 ? c - 32 : c; }\n";
    if (nofp) o << "int v_iv[512]; int nondet_int(void); long nondet_long(void); double nondet_double(void); float nondet_float(void); _Bool nondet_bool(void); static uint8_t nondet_bool_(void) { return nondet_bool(); }\nstatic uint32_t v_int(uint32_t i) { int c = nondet_int(); v_iv[i] = c; return c; }\n";
    o << types.str() << decls.str() << glf.str() << gl.str() << body.str() << "int main(void) { f_v_main(); return 0; }\n";
  }
};
struct P : PassInfoMixin<P> { PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { if (const char *o = getenv("IR2C_OUT")) { memo.clear(); Gen g(M); g.run(o); } return PreservedAnalyses::all(); } static bool isRequired() { return true; } };
}
// stores to global or function-local static data are announced by a call of v_gstore() (a work item must not make one)
static void gstores(Module &M) {
  Function *G = M.getFunction("v_gstore"); if (!G) return; std::vector<Instruction *> at;
  auto shared = [](const Value *p, bool local) { auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(p)); return g && !g->isConstant() && !g->isThreadLocal() && !g->getName().startswith("_ZN1R") && !g->getName().startswith("_ZGV") && (!local || g->getName().startswith("_ZZ")); };
  for (Function &F : M) if (&F != G && !F.getName().startswith("v_") && F.getName() != "main" && !F.getName().startswith("_ZN1R")) for (BasicBlock &B : F) for (Instruction &I : B) {
    if (auto *s = dyn_cast<StoreInst>(&I)) { if (shared(s->getPointerOperand(), false)) at.push_back(&I); }
    else if (auto *m = dyn_cast<MemIntrinsic>(&I)) { if (shared(m->getDest(), false)) at.push_back(&I); }
    else if (auto *c = dyn_cast<CallBase>(&I)) for (const Use &a : c->args()) if (a->getType()->isPointerTy() && !isa<DbgInfoIntrinsic>(c) && !isa<LifetimeIntrinsic>(c) && shared(a, true)) { at.push_back(&I); break; }
  }
  for (Instruction *I : at) CallInst::Create(G->getFunctionType(), G, "", I);
}
struct Keep : PassInfoMixin<Keep> { PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { memo.clear(); gstores(M); if (nofp) for (Function &F : M) if (!F.isDeclaration() && skip(F) && (!real_only(F) || F.getInstructionCount() > 40)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } return PreservedAnalyses::none(); } static bool isRequired() { return true; } };
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "ir2c", "1", [](PassBuilder &PB) { PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(Keep()); }); PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(P()); }); }};
}
