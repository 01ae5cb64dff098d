#pragma once
#include "expr.h"
#include <memory>
#include <vector>
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats {
  u64 queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
typedef std::shared_ptr<Model> ModelP;
// Decide satisfiability of (slice of pc relevant to q) && q. cur is a model of pc.
Res solve(const std::vector<Expr *> &pc, Expr *q, const ModelP &cur, ModelP &out);
// bounds on the bits that hold e as a signed / unsigned number
unsigned signedWidth(Expr *e);
unsigned unsignedWidth(Expr *e);
void solverReset();
