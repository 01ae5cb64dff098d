// Compact executable form of LLVM IR functions.
#pragma once
#include "expr.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <string>
#include <vector>

struct Val {
  Expr *e = nullptr;
  u64 c = 0;
};

enum KOp : uint8_t {
  K_BIN, K_ICMP, K_FCMP, K_FBIN, K_CAST, K_SELECT, K_LOAD, K_STORE, K_ALLOCA, K_GEP,
  K_BR, K_CBR, K_SWITCH, K_RET, K_CALL, K_MOVE, K_UNREACHABLE, K_EXTRACTV, K_INSERTV, K_FNEG, K_UNSUP, K_LANDINGPAD,
  K_XCHG, K_CMPXCHG
};

struct Edge {
  uint32_t target;
  std::vector<std::pair<int, int>> moves;
};

struct KFunction;
struct KCall {
  KFunction *direct = nullptr;
  int target = 0;  // operand when indirect
  std::vector<int> args;
  std::vector<uint16_t> widths;
  std::vector<u64> byval;
  unsigned nret = 0;
  int edge = -1;  // invoke normal edge
  bool liveDone = false;
  std::vector<int> live;
};
struct GepIdx { int op; uint16_t w; s64 scale; };
struct SwCase { u64 v; int edge; };

struct KInst {
  KOp op;
  uint8_t sub = 0;
  uint16_t w = 0, w2 = 0;
  int dst = -1;
  int a = 0, b = 0, c = 0;
  u64 imm = 0;
  int e0 = -1, e1 = -1;
  KCall *call = nullptr;
  std::vector<GepIdx> *gep = nullptr;
  std::vector<SwCase> *sw = nullptr;
  std::vector<std::pair<uint16_t, u64>> *agg = nullptr;  // width, offset
  const llvm::Instruction *I = nullptr;
};

struct KFunction {
  llvm::Function *F = nullptr;
  std::string name;
  u64 addr = 0;
  int builtin = 0;
  bool compiled = false;
  bool isRepo = false;
  bool hasSetjmp = false;
  bool hasByval = false;
  unsigned nregs = 0;
  std::vector<KInst> insts;
  std::vector<Edge> edges;
  std::vector<Val> consts;
  std::vector<int> argRegs;
  std::vector<uint16_t> regW;
  u64 execCount = 0;
  bool symSeen = false;
  std::string file;
};
