// Expression DAG: hash-consed bit-vector terms (width 1..128) with constant
// folding, simplification, evaluation under a concrete model and translation
// to Z3.  Doubles are carried as their 64-bit IEEE patterns.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;

enum Op : uint8_t {
  X_CONST, X_SYM,
  X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM,
  X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR,
  X_CONCAT, X_EXTRACT, X_ZEXT, X_SEXT, X_ITE,
  X_EQ, X_ULT, X_ULE, X_SLT, X_SLE,
  X_FADD, X_FSUB, X_FMUL, X_FDIV, X_FREM, X_FSQRT, X_FEQ, X_FLT, X_FLE, X_FUNO,
  X_SI2F, X_UI2F, X_F2SI, X_F2UI, X_FRND, X_F32TO64, X_F64TO32,
  X_NOPS
};

struct Expr {
  Op op;
  uint8_t nk;
  uint8_t hasfp;
  uint16_t w;
  uint32_t aux;   // extract low bit / symbol id / rounding mode
  uint32_t id;
  uint32_t hash;
  uint32_t cost;  // rough dag size (saturating)
  u128 c;
  Expr *k[3];
  u128 mask;      // symbols (id mod 128)
  u64 evEpoch;
  u128 evVal;
  Z3_ast z;
};

extern std::vector<std::string> g_symNames;
extern std::vector<uint16_t> g_symWidth;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

Expr *mkConst(u128 v, unsigned w);
Expr *mkSym(const std::string &name, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkNot(Expr *a);  // width 1
Expr *mkCmp(Op op, Expr *a, Expr *b);
Expr *mkFBin(Op op, Expr *a, Expr *b);
Expr *mkFUn(Op op, Expr *a, unsigned w, unsigned aux);

static inline bool isC(Expr *e) { return e->op == X_CONST; }

struct Model {
  std::vector<u128> v;
  u64 epoch;
  Model() { static u64 n = 1; epoch = n++; }
  u128 get(unsigned id) const { return id < v.size() ? v[id] : 0; }
};
u128 evalE(Expr *e, const Model &m);
std::string exprStr(Expr *e, int depth = 6);
bool foldConst(Op op, unsigned w, u128 a, u128 b, unsigned wa, unsigned aux, u128 &out);
