// sxe: symbolic executor for LLVM bitcode (bounded, path-forking, Z3-decided).
#include "kir.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>

typedef uint32_t u32;
using namespace llvm;
u64 g_pagesAlive = 0;

static const u64 FN_BASE = 0x10000, GL_BASE = 0x1000000, HEAP_BASE = 0x10000000, STACK_TOP = 0xF8000000ull,
                 STACK_LIMIT = 0xF0000000ull;

static Module *M;
static const DataLayout *DL;
static std::vector<KFunction *> g_funcs;
static std::unordered_map<const Function *, KFunction *> g_fmap;
static std::unordered_map<u64, KFunction *> g_faddr;
static std::unordered_map<const GlobalVariable *, u64> g_gaddr;
static std::vector<std::string> g_repoPrefix;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- options
static double o_timeout = 120;
static u64 o_maxInstr = 30000000;     // per path, after the fork point
static u64 o_maxPaths = 1000000;
static unsigned o_maxEnum = 80;
static unsigned o_samples = 12;
static std::string o_out = "/tmp/sxe_out";
static std::vector<std::string> o_sel;
static std::vector<int> o_selIdx;
static int o_jobs = 8;
static bool o_trace = false;
static std::string o_hostfile;
static u64 o_memMB = 2500;
static std::map<std::string, long> o_params;
static unsigned o_maxErrs = 3;

// ---------------------------------------------------------------- state
struct Frame {
  int rc = 1;
  KFunction *f = nullptr;
  uint32_t pc = 0;
  u64 spBase = 0;   // SP on entry
  u64 spill = 0;
  u64 varargs = 0;
  u64 id = 0;
  std::vector<Val> regs;
  std::vector<std::pair<u64, u32>> allocas;
};

struct FrameP {
  Frame *p = nullptr;
  FrameP() {}
  explicit FrameP(Frame *f) : p(f) {}
  FrameP(const FrameP &o) : p(o.p) { if (p) p->rc++; }
  FrameP(FrameP &&o) : p(o.p) { o.p = nullptr; }
  FrameP &operator=(const FrameP &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  FrameP &operator=(FrameP &&o) { std::swap(p, o.p); return *this; }
  ~FrameP() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
};

struct JmpSnap {
  std::vector<FrameP> frames;
  u64 sp;
  u64 frameId;
};

struct Obs { std::string label; int kind; std::vector<Val> v; unsigned w; };

struct State {
  Mem *mem;
  std::vector<FrameP> frames;
  u64 sp = STACK_TOP - 4096;
  u64 heapTop = HEAP_BASE;
  std::vector<Expr *> pc;
  ModelP model;
  std::vector<std::pair<Expr *, u64>> known;
  u128 knownMask = 0;
  std::vector<unsigned> syms;      // symbols in creation order
  std::vector<std::string> symNames;
  std::map<u64, std::shared_ptr<JmpSnap>> jmps;
  u64 nextJmp = 1;
  u64 instrs = 0;
  u64 nextFrameId = 1;
  u64 stackRestoreLo = ~0ull, stackRestoreHi = 0;
  std::vector<Obs> obs;
  std::vector<std::string> reach;
  bool concretized = false;
  int expectExit = -100000;
  Val expectExitV;
  bool hasExpectExit = false;
  std::string curLabel;
  u64 depth = 0;
  State() : mem(new Mem()) {}
  State(const State &o)
      : mem(o.mem->clone()), frames(o.frames), sp(o.sp), heapTop(o.heapTop), pc(o.pc), model(o.model), known(o.known),
        knownMask(o.knownMask), syms(o.syms), symNames(o.symNames), jmps(o.jmps), nextJmp(o.nextJmp), instrs(o.instrs),
        nextFrameId(o.nextFrameId), stackRestoreLo(o.stackRestoreLo), stackRestoreHi(o.stackRestoreHi), obs(o.obs),
        reach(o.reach), concretized(o.concretized), expectExit(o.expectExit), expectExitV(o.expectExitV),
        hasExpectExit(o.hasExpectExit), curLabel(o.curLabel), depth(o.depth) {}
  ~State() { delete mem; }
  Frame *top() {
    FrameP &f = frames.back();
    if (f.p->rc > 1) {
      Frame *n = new Frame(*f.p);
      n->rc = 1;
      f.p->rc--;
      f.p = n;
    }
    return f.p;
  }
};

static std::vector<State *> work;

// ---------------------------------------------------------------- results
struct ErrRec {
  std::string kind, label, where, detail;
  std::vector<std::pair<std::string, std::string>> inputs;
  std::string trace;
};
static std::map<std::string, std::vector<ErrRec>> g_errs;
static std::map<std::string, u64> g_errCount, g_killed, g_reach;
static u64 g_done = 0, g_forks = 0, g_assumeFail = 0, g_totalInstr = 0, g_maxDepth = 0;
struct AssertStat { u64 checks = 0, trivial = 0, proved = 0, violated = 0, unknown = 0; };
static std::map<std::string, AssertStat> g_asserts;
static std::vector<std::string> g_sampleFiles;
static u64 g_concretizedPaths = 0;
static bool g_symPhase = false;  // after fork point
static std::string g_harness = "main";
static u64 g_branchSym = 0;

// ---------------------------------------------------------------- compile
static std::string fileOf(const Function *F) {
  if (auto *sp = F->getSubprogram())
    if (auto *f = sp->getFile()) {
      std::string s = f->getFilename().str();
      if (!s.empty() && s[0] != '/') s = f->getDirectory().str() + "/" + s;
      return s;
    }
  return "";
}

static void flattenT(Type *T, u64 off, std::vector<std::pair<uint16_t, u64>> &out) {
  if (auto *st = dyn_cast<StructType>(T)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flattenT(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto *at = dyn_cast<ArrayType>(T)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) flattenT(at->getElementType(), off + i * es, out);
  } else if (T->isIntegerTy()) out.push_back({(uint16_t)T->getIntegerBitWidth(), off});
  else if (T->isPointerTy()) out.push_back({64, off});
  else if (T->isDoubleTy()) out.push_back({64, off});
  else if (T->isFloatTy()) out.push_back({32, off});
  else out.push_back({0, off});
}
static unsigned nslots(Type *T) {
  if (T->isVoidTy()) return 0;
  std::vector<std::pair<uint16_t, u64>> v;
  flattenT(T, 0, v);
  return v.size();
}
static unsigned widthOf(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy() || T->isDoubleTy()) return 64;
  if (T->isFloatTy()) return 32;
  return 0;
}

static Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(Expr *e) {
  Val v;
  if (isC(e) && e->w <= 64) v.c = (u64)e->c;
  else v.e = e;
  return v;
}

static u64 gaddr(const GlobalValue *G);
// Flatten a constant into scalar values.
static void constVals(const Constant *C, std::vector<Val> &out);
static Val constScalar(const Constant *C) {
  Val v;
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() <= 64) v.c = ci->getZExtValue();
    else {
      u128 x = ci->getValue().extractBitsAsZExtValue(64, 0);
      x |= (u128)ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth() - 64), 64) << 64;
      v.e = mkConst(x, ci->getBitWidth());
    }
    return v;
  }
  if (auto *cf = dyn_cast<ConstantFP>(C)) {
    v.c = cf->getValueAPF().bitcastToAPInt().getZExtValue();
    return v;
  }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) {
    unsigned w = widthOf(C->getType());
    if (w > 64) v.e = mkConst(0, w);
    return v;
  }
  if (auto *gv = dyn_cast<GlobalValue>(C)) { v.c = gaddr(gv); return v; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      v = constScalar(ce->getOperand(0));
      v.c &= (u64)maskw(widthOf(ce->getType()));
      return v;
    case Instruction::Trunc: v = constScalar(ce->getOperand(0)); v.c &= (u64)maskw(widthOf(ce->getType())); return v;
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; abort(); }
      v = constScalar(cast<Constant>(gep->getPointerOperand()));
      v.c += (u64)off.getSExtValue();
      return v;
    }
    case Instruction::Sub: v.c = constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c; return v;
    case Instruction::Add: v.c = constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c; return v;
    case Instruction::ICmp: {
      u64 a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
      switch (ce->getPredicate()) {
      case CmpInst::ICMP_EQ: v.c = a == b; return v;
      case CmpInst::ICMP_NE: v.c = a != b; return v;
      default: break;
      }
      break;
    }
    default: break;
    }
  }
  std::string s;
  raw_string_ostream os(s);
  C->print(os);
  fprintf(stderr, "unsupported constant %s\n", s.c_str());
  return v;
}
static void constVals(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) constVals(C->getAggregateElement(i), out);
  } else out.push_back(constScalar(C));
}

static u64 gaddr(const GlobalValue *G) {
  if (auto *a = dyn_cast<GlobalAlias>(G)) return constScalar(a->getAliasee()).c;
  if (auto *F = dyn_cast<Function>(G)) return g_fmap[F]->addr;
  auto it = g_gaddr.find(cast<GlobalVariable>(G));
  if (it == g_gaddr.end()) { errs() << "no global " << G->getName() << "\n"; return 0; }
  return it->second;
}

enum Builtin {
  B_NONE = 0, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_STRNCMP,
  B_STRCHR, B_SETJMP, B_LONGJMP, B_ABORT, B_EXIT, B_ASSERTFAIL, B_THROW, B_MMAP, B_MUNMAP, B_SYSCONF, B_ZERO, B_MATH1,
  B_MATH2, B_SX_SYM, B_SX_ASSUME, B_SX_ASSERT, B_SX_REACH, B_SX_SELECT, B_SX_CONC, B_SX_OBS, B_SX_OBSB, B_FMTDBL,
  B_SX_STRTOD, B_SX_EXPEXIT, B_SX_PARAM, B_SX_ISSYM, B_SX_KILL, B_SX_LABEL, B_SX_FEAS, B_SX_PRINT, B_SX_ANYSYM, B_SX_CHOOSE, B_SX_HREAD, B_SX_HWRITE,
  B_INTRIN_FIRST = 1000
};
static std::map<std::string, int> g_bnames = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"cfree", B_FREE},
    {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_MALLOC}, {"_ZnamRKSt9nothrow_t", B_MALLOC},
    {"_ZdlPv", B_FREE}, {"_ZdaPv", B_FREE}, {"_ZdlPvm", B_FREE}, {"_ZdaPvm", B_FREE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
    {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"strchr", B_STRCHR},
    {"_setjmp", B_SETJMP}, {"setjmp", B_SETJMP}, {"__sigsetjmp", B_SETJMP}, {"sigsetjmp", B_SETJMP},
    {"longjmp", B_LONGJMP}, {"_longjmp", B_LONGJMP}, {"siglongjmp", B_LONGJMP},
    {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"_Exit", B_EXIT}, {"quick_exit", B_EXIT},
    {"__assert_fail", B_ASSERTFAIL},
    {"_ZSt17__throw_bad_allocv", B_THROW}, {"_ZSt19__throw_logic_errorPKc", B_THROW},
    {"_ZSt20__throw_length_errorPKc", B_THROW}, {"_ZSt28__throw_bad_array_new_lengthv", B_THROW},
    {"_ZSt9terminatev", B_THROW}, {"__cxa_throw", B_THROW}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_THROW},
    {"__cxa_rethrow", B_THROW}, {"_ZSt20__throw_out_of_rangePKc", B_THROW},
    {"mmap", B_MMAP}, {"mmap64", B_MMAP}, {"munmap", B_MUNMAP}, {"sysconf", B_SYSCONF},
    {"__cxa_atexit", B_ZERO}, {"atexit", B_ZERO}, {"backtrace", B_ZERO}, {"signal", B_ZERO}, {"sigaction", B_ZERO},
    {"getpid", B_ZERO}, {"popen", B_ZERO}, {"getenv", B_ZERO}, {"time", B_ZERO}, {"clock", B_ZERO},
    {"backtrace_symbols_fd", B_ZERO}, {"backtrace_symbols", B_ZERO},
    {"sqrt", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"trunc", B_MATH1}, {"round", B_MATH1}, {"rint", B_MATH1},
    {"fabs", B_MATH1}, {"exp", B_MATH1}, {"log", B_MATH1}, {"sin", B_MATH1}, {"cos", B_MATH1}, {"tan", B_MATH1},
    {"asin", B_MATH1}, {"acos", B_MATH1}, {"atan", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"exp2", B_MATH1},
    {"nearbyint", B_MATH1}, {"cbrt", B_MATH1},
    {"pow", B_MATH2}, {"fmod", B_MATH2}, {"atan2", B_MATH2}, {"hypot", B_MATH2}, {"fmin", B_MATH2}, {"fmax", B_MATH2},
    {"sx_sym_", B_SX_SYM}, {"sx_assume_", B_SX_ASSUME}, {"sx_assert_", B_SX_ASSERT}, {"sx_reach", B_SX_REACH},
    {"sx_select", B_SX_SELECT}, {"sx_conc_", B_SX_CONC}, {"sx_obs_", B_SX_OBS}, {"sx_obsb_", B_SX_OBSB},
    {"sx_fmt_double", B_FMTDBL}, {"sx_host_strtod", B_SX_STRTOD}, {"sx_expect_exit", B_SX_EXPEXIT},
    {"sx_param", B_SX_PARAM}, {"sx_is_symbolic", B_SX_ISSYM}, {"sx_kill", B_SX_KILL}, {"sx_label", B_SX_LABEL},
    {"sx_feasible", B_SX_FEAS}, {"sx_print_", B_SX_PRINT}, {"sx_any_sym_bytes", B_SX_ANYSYM}, {"sx_choose_", B_SX_CHOOSE}, {"sx_host_read", B_SX_HREAD}, {"sx_host_write", B_SX_HWRITE},
};

struct Compiler {
  KFunction *K;
  DenseMap<const Value *, int> reg;
  unsigned n = 0;
  std::map<std::pair<const BasicBlock *, const BasicBlock *>, int> edgeIdx;
  DenseMap<const BasicBlock *, unsigned> bbStart;
  int newRegs(const Value *v) {
    unsigned k = nslots(v->getType());
    int r = n;
    reg[v] = r;
    std::vector<std::pair<uint16_t, u64>> fl;
    flattenT(v->getType(), 0, fl);
    for (auto &p : fl) K->regW.push_back(p.first);
    n += k;
    return r;
  }
  int constOp(const Constant *C) {
    std::vector<Val> vs;
    constVals(C, vs);
    int base = K->consts.size();
    for (auto &v : vs) K->consts.push_back(v);
    return -base - 1;
  }
  // operand index; for aggregates slots are consecutive (for constants: -base-1, going down)
  int opn(const Value *v) {
    if (auto *C = dyn_cast<Constant>(v)) return constOp(C);
    auto it = reg.find(v);
    if (it == reg.end()) return newRegs(v);
    return it->second;
  }
  static int slot(int op, unsigned i) { return op >= 0 ? op + (int)i : op - (int)i; }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.target = bbStart.count(to) ? 0 : 0;
    for (auto &phi : to->phis()) {
      int src = opn(phi.getIncomingValueForBlock(from));
      int dst = reg[&phi];
      unsigned k = nslots(phi.getType());
      for (unsigned i = 0; i < k; i++) e.moves.push_back({dst + (int)i, slot(src, i)});
    }
    K->edges.push_back(e);
    pend.push_back({(int)K->edges.size() - 1, to});
    return K->edges.size() - 1;
  }
  std::vector<std::pair<int, const BasicBlock *>> pend;

  void run(KFunction *k) {
    K = k;
    Function *F = k->F;
    for (auto &a : F->args()) K->argRegs.push_back(newRegs(&a));
    for (auto &bb : *F)
      for (auto &I : bb)
        if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) newRegs(&I);
    for (auto &bb : *F) {
      bbStart[&bb] = K->insts.size();
      for (auto &I : bb) emit(I);
    }
    for (auto &p : pend) K->edges[p.first].target = bbStart[p.second];
    K->nregs = n;
    K->compiled = true;
  }
  void emit(Instruction &I) {
    if (isa<PHINode>(I)) return;
    KInst k;
    k.I = &I;
    k.op = K_UNSUP;
    if (!I.getType()->isVoidTy()) {
      k.dst = reg[&I];
      k.w = widthOf(I.getType());
    }
    unsigned opc = I.getOpcode();
    auto push = [&]() { K->insts.push_back(k); };
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
      static const std::map<unsigned, int> m = {
          {Instruction::Add, X_ADD}, {Instruction::Sub, X_SUB}, {Instruction::Mul, X_MUL}, {Instruction::UDiv, X_UDIV},
          {Instruction::SDiv, X_SDIV}, {Instruction::URem, X_UREM}, {Instruction::SRem, X_SREM}, {Instruction::And, X_AND},
          {Instruction::Or, X_OR}, {Instruction::Xor, X_XOR}, {Instruction::Shl, X_SHL}, {Instruction::LShr, X_LSHR},
          {Instruction::AShr, X_ASHR}, {Instruction::FAdd, X_FADD}, {Instruction::FSub, X_FSUB},
          {Instruction::FMul, X_FMUL}, {Instruction::FDiv, X_FDIV}, {Instruction::FRem, X_FREM}};
      k.sub = m.at(opc);
      k.op = k.sub >= X_FADD ? K_FBIN : K_BIN;
      k.a = opn(bo->getOperand(0));
      k.b = opn(bo->getOperand(1));
      if (!k.w) k.op = K_UNSUP;
      return push();
    }
    switch (opc) {
    case Instruction::FNeg: k.op = K_FNEG; k.a = opn(I.getOperand(0)); return push();
    case Instruction::ICmp: {
      auto *c = cast<ICmpInst>(&I);
      k.op = K_ICMP;
      k.sub = c->getPredicate();
      k.w2 = widthOf(c->getOperand(0)->getType());
      k.a = opn(c->getOperand(0));
      k.b = opn(c->getOperand(1));
      return push();
    }
    case Instruction::FCmp: {
      auto *c = cast<FCmpInst>(&I);
      k.op = K_FCMP;
      k.sub = c->getPredicate();
      k.w2 = widthOf(c->getOperand(0)->getType());
      k.a = opn(c->getOperand(0));
      k.b = opn(c->getOperand(1));
      return push();
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt:
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPToSI: case Instruction::FPToUI:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      k.op = K_CAST;
      k.sub = opc;
      k.w2 = widthOf(I.getOperand(0)->getType());
      k.a = opn(I.getOperand(0));
      if (!k.w || !k.w2) k.op = K_UNSUP;
      return push();
    }
    case Instruction::Freeze: {
      unsigned ns = nslots(I.getType());
      int s = opn(I.getOperand(0));
      int d = k.dst;
      for (unsigned i = 0; i < ns; i++) {
        k.op = K_MOVE;
        k.dst = d + i;
        k.a = slot(s, i);
        push();
      }
      return;
    }
    case Instruction::Select: {
      unsigned ns = nslots(I.getType());
      int c = opn(I.getOperand(0)), x = opn(I.getOperand(1)), y = opn(I.getOperand(2));
      int d = k.dst;
      for (unsigned i = 0; i < ns; i++) {
        k.op = K_SELECT;
        k.dst = d + i;
        k.w = K->regW[d + i];
        k.a = c;
        k.b = slot(x, i);
        k.c = slot(y, i);
        push();
      }
      return;
    }
    case Instruction::Load: {
      auto *L = cast<LoadInst>(&I);
      k.op = K_LOAD;
      k.a = opn(L->getPointerOperand());
      k.imm = 0;
      if (!k.w) {
        auto *v = new std::vector<std::pair<uint16_t, u64>>();
        flattenT(I.getType(), 0, *v);
        for (auto &p : *v) if (!p.first) k.op = K_UNSUP;
        k.agg = v;
      }
      return push();
    }
    case Instruction::Store: {
      auto *S = cast<StoreInst>(&I);
      k.op = K_STORE;
      k.a = opn(S->getPointerOperand());
      k.b = opn(S->getValueOperand());
      k.w = widthOf(S->getValueOperand()->getType());
      if (!k.w) {
        auto *v = new std::vector<std::pair<uint16_t, u64>>();
        flattenT(S->getValueOperand()->getType(), 0, *v);
        for (auto &p : *v) if (!p.first) k.op = K_UNSUP;
        k.agg = v;
      }
      return push();
    }
    case Instruction::Alloca: {
      auto *A = cast<AllocaInst>(&I);
      k.op = K_ALLOCA;
      k.imm = DL->getTypeAllocSize(A->getAllocatedType());
      k.a = opn(A->getArraySize());
      k.w2 = widthOf(A->getArraySize()->getType());
      k.b = A->getAlign().value();
      return push();
    }
    case Instruction::GetElementPtr: {
      k.op = K_GEP;
      k.a = opn(I.getOperand(0));
      k.gep = new std::vector<GepIdx>();
      s64 off = 0;
      for (gep_type_iterator gi = gep_type_begin(&I), ge = gep_type_end(&I); gi != ge; ++gi) {
        if (StructType *st = gi.getStructTypeOrNull()) {
          off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
        } else {
          s64 sc = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) off += ci->getSExtValue() * sc;
          else k.gep->push_back({opn(gi.getOperand()), (uint16_t)widthOf(gi.getOperand()->getType()), sc});
        }
      }
      k.imm = (u64)off;
      return push();
    }
    case Instruction::Br: {
      auto *B = cast<BranchInst>(&I);
      if (B->isUnconditional()) {
        k.op = K_BR;
        k.e0 = edge(I.getParent(), B->getSuccessor(0));
      } else {
        k.op = K_CBR;
        k.a = opn(B->getCondition());
        k.e0 = edge(I.getParent(), B->getSuccessor(0));
        k.e1 = edge(I.getParent(), B->getSuccessor(1));
      }
      return push();
    }
    case Instruction::Switch: {
      auto *S = cast<SwitchInst>(&I);
      k.op = K_SWITCH;
      k.a = opn(S->getCondition());
      k.w2 = widthOf(S->getCondition()->getType());
      k.e0 = edge(I.getParent(), S->getDefaultDest());
      k.sw = new std::vector<SwCase>();
      for (auto &c : S->cases()) k.sw->push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
      return push();
    }
    case Instruction::Ret: {
      k.op = K_RET;
      if (I.getNumOperands()) {
        k.a = opn(I.getOperand(0));
        k.imm = nslots(I.getOperand(0)->getType());
      }
      return push();
    }
    case Instruction::Unreachable: k.op = K_UNREACHABLE; return push();
    case Instruction::LandingPad: k.op = K_LANDINGPAD; return push();
    case Instruction::Resume: k.op = K_UNREACHABLE; return push();
    case Instruction::ExtractValue: {
      auto *E = cast<ExtractValueInst>(&I);
      unsigned base = aggOff(E->getAggregateOperand()->getType(), E->getIndices());
      int s = opn(E->getAggregateOperand());
      unsigned ns = nslots(I.getType());
      int d = k.dst;
      for (unsigned i = 0; i < ns; i++) {
        k.op = K_MOVE;
        k.dst = d + i;
        k.a = slot(s, base + i);
        push();
      }
      return;
    }
    case Instruction::InsertValue: {
      auto *E = cast<InsertValueInst>(&I);
      unsigned base = aggOff(E->getAggregateOperand()->getType(), E->getIndices());
      int s = opn(E->getAggregateOperand()), v = opn(E->getInsertedValueOperand());
      unsigned nv = nslots(E->getInsertedValueOperand()->getType());
      unsigned ns = nslots(I.getType());
      int d = k.dst;
      for (unsigned i = 0; i < ns; i++) {
        k.op = K_MOVE;
        k.dst = d + i;
        k.a = (i >= base && i < base + nv) ? slot(v, i - base) : slot(s, i);
        push();
      }
      return;
    }
    case Instruction::Call: case Instruction::Invoke: {
      auto *cb = cast<CallBase>(&I);
      if (isa<DbgInfoIntrinsic>(&I)) return;
      k.op = K_CALL;
      KCall *c = new KCall();
      k.call = c;
      c->nret = nslots(I.getType());
      Value *cal = cb->getCalledOperand()->stripPointerCasts();
      if (auto *ga = dyn_cast<GlobalAlias>(cal)) cal = const_cast<GlobalObject *>(ga->getAliaseeObject());
      if (auto *fn = dyn_cast<Function>(cal)) {
        if (fn->isIntrinsic()) {
          switch (fn->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
          case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl:
            return;
          default: break;
          }
        }
        c->direct = g_fmap[fn];
      } else c->target = opn(cb->getCalledOperand());
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        Value *a = cb->getArgOperand(i);
        if (a->getType()->isMetadataTy()) { c->args.push_back(0); c->widths.push_back(0); c->byval.push_back(0); continue; }
        unsigned ns = nslots(a->getType());
        if (ns != 1) { k.op = K_UNSUP; break; }
        c->args.push_back(opn(a));
        c->widths.push_back(widthOf(a->getType()));
        u64 bv = 0;
        if (cb->isByValArgument(i)) bv = DL->getTypeAllocSize(cb->getParamByValType(i));
        c->byval.push_back(bv);
      }
      if (auto *inv = dyn_cast<InvokeInst>(&I)) c->edge = edge(I.getParent(), inv->getNormalDest());
      return push();
    }
    case Instruction::AtomicRMW: {
      auto *a = cast<AtomicRMWInst>(&I);
      k.op = K_XCHG; k.sub = a->getOperation();
      k.a = opn(a->getPointerOperand()); k.b = opn(a->getValOperand());
      return push();
    }
    case Instruction::Fence: return;
    default: k.op = K_UNSUP; return push();
    }
  }
  unsigned aggOff(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned ix : idx) {
      if (auto *st = dyn_cast<StructType>(T)) {
        for (unsigned j = 0; j < ix; j++) off += nslots(st->getElementType(j));
        T = st->getElementType(ix);
      } else {
        auto *at = cast<ArrayType>(T);
        off += ix * nslots(at->getElementType());
        T = at->getElementType();
      }
    }
    return off;
  }
};

static void compileF(KFunction *k) { Compiler c; c.run(k); }

// liveness at a call: registers (of this frame) needed after the call returns.
static void usesOf(KFunction *F, const KInst &k, std::vector<int> &u) {
  auto add = [&](int o) { if (o >= 0) u.push_back(o); };
  switch (k.op) {
  case K_BIN: case K_FBIN: case K_ICMP: case K_FCMP: case K_XCHG: add(k.a); add(k.b); break;
  case K_CAST: case K_FNEG: case K_MOVE: case K_LOAD: case K_ALLOCA: case K_CBR: case K_SWITCH: add(k.a); break;
  case K_SELECT: add(k.a); add(k.b); add(k.c); break;
  case K_STORE:
    add(k.a);
    if (k.agg) { for (size_t i = 0; i < k.agg->size(); i++) if (k.b >= 0) u.push_back(k.b + i); } else add(k.b);
    break;
  case K_GEP: add(k.a); for (auto &g : *k.gep) add(g.op); break;
  case K_RET: if (k.imm) for (u64 i = 0; i < k.imm; i++) if (k.a >= 0) u.push_back(k.a + i); break;
  case K_CALL:
    if (!k.call->direct) add(k.call->target);
    for (int a : k.call->args) add(a);
    break;
  default: break;
  }
}
static std::map<KFunction *, std::vector<std::vector<bool>>> g_liveIn;
static void computeLive(KFunction *F) {
  size_t n = F->insts.size();
  std::vector<std::vector<bool>> in(n + 1, std::vector<bool>(F->nregs, false));
  bool ch = true;
  auto edgeIn = [&](int e, std::vector<bool> &o) {
    const Edge &E = F->edges[e];
    std::vector<bool> t = in[E.target];
    for (auto &m : E.moves) t[m.first] = false;
    for (auto &m : E.moves) if (m.second >= 0) t[m.second] = true;
    for (size_t i = 0; i < t.size(); i++) if (t[i]) o[i] = true;
  };
  while (ch) {
    ch = false;
    for (size_t i = n; i-- > 0;) {
      const KInst &k = F->insts[i];
      std::vector<bool> o(F->nregs, false);
      switch (k.op) {
      case K_BR: edgeIn(k.e0, o); break;
      case K_CBR: edgeIn(k.e0, o); edgeIn(k.e1, o); break;
      case K_SWITCH: edgeIn(k.e0, o); for (auto &c : *k.sw) edgeIn(c.edge, o); break;
      case K_RET: case K_UNREACHABLE: break;
      case K_CALL: if (k.call->edge >= 0) { edgeIn(k.call->edge, o); break; } // fallthrough
      default: o = in[i + 1]; break;
      }
      if (k.op == K_CALL) { for (unsigned j = 0; j < k.call->nret; j++) o[k.dst + j] = false; }
      else if (k.dst >= 0) {
        unsigned cnt = k.agg && k.op == K_LOAD ? k.agg->size() : 1;
        for (unsigned j = 0; j < cnt; j++) o[k.dst + j] = false;
      }
      std::vector<int> u;
      usesOf(F, k, u);
      for (int x : u) o[x] = true;
      if (o != in[i]) { in[i] = o; ch = true; }
    }
  }
  g_liveIn[F] = in;
}
static const std::vector<int> &liveAt(KFunction *F, uint32_t pc) {
  KInst &k = F->insts[pc];
  KCall *c = k.call;
  if (!c->liveDone) {
    if (!g_liveIn.count(F)) computeLive(F);
    auto &in = g_liveIn[F];
    std::vector<bool> o(F->nregs, false);
    if (c->edge >= 0) {
      const Edge &E = F->edges[c->edge];
      o = in[E.target];
      for (auto &m : E.moves) o[m.first] = false;
      for (auto &m : E.moves) if (m.second >= 0) o[m.second] = true;
    } else o = in[pc + 1];
    for (unsigned j = 0; j < c->nret; j++) o[k.dst + j] = false;
    // a call's own arguments also stay visible to a conservative scan
    for (int a : c->args) if (a >= 0) o[a] = true;
    for (size_t i = 0; i < o.size(); i++) if (o[i] && F->regW[i] == 64) c->live.push_back(i);
    c->liveDone = true;
  }
  return c->live;
}

#include "exec.inc"

// ---------------------------------------------------------------- main
static void optimizeModule() {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
  FPM.addPass(EarlyCSEPass(false));
  FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).hoistCommonInsts(false).sinkCommonInsts(false).speculateBlocks(false)));
  FPM.addPass(DCEPass());
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    bool sj = false;
    for (auto &I : instructions(F))
      if (auto *cb = dyn_cast<CallBase>(&I))
        if (cb->hasFnAttr(Attribute::ReturnsTwice) || (cb->getCalledFunction() && cb->getCalledFunction()->hasFnAttribute(Attribute::ReturnsTwice))) sj = true;
    if (F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::OptimizeNone);
    if (sj) continue;
    FPM.run(F, FAM);
  }
}

static void initConst(State &S, u64 addr, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
    StringRef d = cds->getRawDataValues();
    for (size_t i = 0; i < d.size(); i++) S.mem->putByte(addr + i, (uint8_t)d[i], nullptr);
    return;
  }
  if (auto *st = dyn_cast<StructType>(T)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initConst(S, addr + sl->getElementOffset(i), C->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(T)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) initConst(S, addr + i * es, C->getAggregateElement(i));
    return;
  }
  Val v = constScalar(C);
  u64 n = DL->getTypeStoreSize(T);
  if (v.e) { for (u64 i = 0; i < n; i++) S.mem->putByte(addr + i, (uint8_t)(v.e->c >> (8 * i)), nullptr); return; }
  for (u64 i = 0; i < n && i < 8; i++) S.mem->putByte(addr + i, (uint8_t)(v.c >> (8 * i)), nullptr);
}

int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--timeout") o_timeout = atof(nx().c_str());
    else if (a == "--max-instr") o_maxInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-paths") o_maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-enum") o_maxEnum = atoi(nx().c_str());
    else if (a == "--samples") o_samples = atoi(nx().c_str());
    else if (a == "--out") o_out = nx();
    else if (a == "--sel") o_sel.push_back(nx());
    else if (a == "--jobs") o_jobs = atoi(nx().c_str());
    else if (a == "--repo") g_repoPrefix.push_back(nx());
    else if (a == "--query-timeout") g_queryTimeoutMs = atoi(nx().c_str());
    else if (a == "--mem") o_memMB = atoi(nx().c_str());
    else if (a == "--trace") o_trace = true;
    else if (a == "--hostfile") o_hostfile = nx();
    else if (a == "--param") { std::string p = nx(); auto q = p.find('='); o_params[p.substr(0, q)] = atol(p.c_str() + q + 1); }
    else bc = a;
  }
  struct rlimit rl = {1u << 30, 1u << 30};
  setrlimit(RLIMIT_STACK, &rl);
  static LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("sxe", errs()); return 2; }
  M = mod.get();
  DL = &M->getDataLayout();
  // like ld --wrap: calls to X reach the harness's __wrap_X, which reaches X as __real_X
  for (auto &F : *M) {
    if (!F.getName().starts_with("__wrap_") || F.isDeclaration()) continue;
    std::string x = F.getName().substr(7).str();
    Function *X = M->getFunction(x), *R = M->getFunction("__real_" + x);
    if (X) X->replaceAllUsesWith(&F);
    if (X && R) R->replaceAllUsesWith(X);
  }
  optimizeModule();
  State *S = new State();
  S->model = std::make_shared<Model>();
  u64 fa = FN_BASE;
  for (auto &F : *M) {
    KFunction *k = new KFunction();
    k->F = &F;
    k->name = F.getName().str();
    k->addr = fa;
    fa += 16;
    if (F.isDeclaration() || g_bnames.count(k->name)) {
      auto it = g_bnames.find(k->name);
      if (it != g_bnames.end()) k->builtin = it->second;
      else if (F.isIntrinsic()) k->builtin = B_INTRIN_FIRST + F.getIntrinsicID();
    }
    for (auto &A : F.args()) if (A.hasByValAttr()) k->hasByval = true;
    k->file = fileOf(&F);
    for (auto &p : g_repoPrefix) if (k->file.compare(0, p.size(), p) == 0) k->isRepo = true;
    g_funcs.push_back(k);
    g_fmap[&F] = k;
    g_faddr[k->addr] = k;
  }
  u64 ga = GL_BASE;
  for (auto &G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 1);
    ga = (ga + 32 + al - 1) / al * al;
    g_gaddr[&G] = ga;
    S->mem->setState(ga, sz, V_OK);
    ga += sz + 32;
  }
  for (auto &G : M->globals()) if (G.hasInitializer()) initConst(*S, g_gaddr[&G], G.getInitializer());
  for (auto &G : M->globals()) if (G.isConstant()) S->mem->setState(g_gaddr[&G], DL->getTypeAllocSize(G.getValueType()), V_RO);
  S->mem->setState(STACK_TOP - 4096, 4096, V_OK);
  S->mem->fill(STACK_TOP - 4096, 4096, 0);
  // constructors
  std::vector<Function *> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
    if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : arr->operands())
        if (auto *f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
  for (auto *f : ctors) {
    State *c = S;
    pushCall(*c, g_fmap[f], {}, nullptr);
    if (!runConcrete(c)) { fprintf(stderr, "ctor %s failed\n", f->getName().str().c_str()); }
  }
  Function *mf = M->getFunction("sx_main");
  if (!mf) { fprintf(stderr, "no sx_main\n"); return 2; }
  pushCall(*S, g_fmap[mf], {}, nullptr);
  g_t0 = now();
  runAll(S);
  return finishChild();
}
