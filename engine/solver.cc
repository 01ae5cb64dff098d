#include "solver.h"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <unistd.h>

SolverStats g_ss;
unsigned g_queryTimeoutMs = 20000;
static Z3_context C = nullptr;
static Z3_solver S = nullptr;        // incremental bit-vector solver
static std::vector<Z3_ast> symAst;
static Z3_sort fp64, fp32;
static Z3_ast rne;

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, errh);
  fp64 = Z3_mk_fpa_sort_64(C);
  fp32 = Z3_mk_fpa_sort_32(C);
  rne = Z3_mk_fpa_rne(C);
}
void solverReset() {}

static Z3_sort fs(unsigned w) { return w == 64 ? fp64 : fp32; }
static Z3_ast tz(Expr *e);
static Z3_ast b2bv(Z3_ast b) {
  Z3_sort s1 = Z3_mk_bv_sort(C, 1);
  return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, s1), Z3_mk_unsigned_int64(C, 0, s1));
}
static Z3_ast asBool(Expr *e);
static std::unordered_map<Expr *, Z3_ast> boolCache;
static Z3_ast toF(Expr *e) { return Z3_mk_fpa_to_fp_bv(C, tz(e), fs(e->w)); }
static Z3_ast dconst(double d, unsigned w) {
  return w == 64 ? Z3_mk_fpa_numeral_double(C, d, fp64) : Z3_mk_fpa_numeral_float(C, (float)d, fp32);
}

// Narrowing: sw(e) bounds the number of bits that hold e as a signed number
// (e == sign-extension of its low sw(e) bits); arithmetic and comparisons on
// narrow values are bit-blasted at that width.
// uw(e) bounds the number of bits that hold e as an unsigned number.
static std::unordered_map<Expr *, unsigned> swCache, uwCache;
static unsigned sw(Expr *e);
static unsigned uw(Expr *e) {
  if (e->op == X_SYM) return e->w;
  auto it = uwCache.find(e);
  if (it != uwCache.end()) return it->second;
  unsigned w = e->w, r = w;
  Expr **k = e->k;
  switch (e->op) {
  case X_CONST: { u128 v = e->c; r = 0; while (v) { r++; v >>= 1; } break; }
  case X_ZEXT: r = uw(k[0]); break;
  case X_SEXT: r = uw(k[0]) < k[0]->w ? uw(k[0]) : w; break;
  case X_UREM: r = std::min(uw(k[0]), uw(k[1]) ? uw(k[1]) : w); break;
  case X_UDIV: r = uw(k[0]); break;
  case X_AND: r = std::min(uw(k[0]), uw(k[1])); break;
  case X_OR: case X_XOR: r = std::max(uw(k[0]), uw(k[1])); break;
  case X_ADD: r = std::max(uw(k[0]), uw(k[1])) + 1; break;
  case X_MUL: r = uw(k[0]) + uw(k[1]); break;
  case X_EXTRACT: r = uw(k[0]) > e->aux ? std::min(w, uw(k[0]) - e->aux) : 0; break;
  case X_ITE: {
    // absolute value: ite(x < 0, -x, x), in either order
    Expr *c = k[0], *x = nullptr, *y = nullptr;
    if (c->op == X_SLT && isC(c->k[1]) && c->k[1]->c == 0) { x = c->k[0]; y = k[1]; if (x != k[2]) x = nullptr; }
    else if (c->op == X_SLT && isC(c->k[0]) && (c->k[0]->c == 0 || c->k[0]->c == maskw(c->k[0]->w))) { x = c->k[1]; y = k[2]; if (x != k[1]) x = nullptr; }
    else if (c->op == X_SLE && isC(c->k[1]) && (c->k[1]->c == 0 || c->k[1]->c == maskw(c->k[1]->w))) { x = c->k[0]; y = k[1]; if (x != k[2]) x = nullptr; }
    else if (c->op == X_SLE && isC(c->k[0]) && c->k[0]->c == 0) { x = c->k[1]; y = k[2]; if (x != k[1]) x = nullptr; }
    if (!x && c->k[0]) {
      // the comparison may have been narrowed below an extension
      auto base = [](Expr *t) { while (t->op == X_SEXT) t = t->k[0]; return t; };
      for (int j = 0; j < 2 && !x; j++) {
        Expr *t = c->k[j], *o = c->k[!j];
        if (!t || !o || !isC(o) || (c->op != X_SLT && c->op != X_SLE)) continue;
        s128 ov = sx(o->c, o->w);
        bool neg1;  // k[1] is the branch where the value is negative (or zero)
        if (j == 0 && ((c->op == X_SLT && (ov == 0 || ov == 1)) || (c->op == X_SLE && (ov == 0 || ov == -1)))) neg1 = true;
        else if (j == 1 && ((c->op == X_SLT && (ov == 0 || ov == -1)) || (c->op == X_SLE && (ov == 0 || ov == 1)))) neg1 = false;
        else continue;
        Expr *pos = neg1 ? k[2] : k[1], *ng = neg1 ? k[1] : k[2];
        if (base(pos) == base(t) && mkBin(X_SUB, mkConst(0, w), pos) == ng) { x = pos; y = ng; }
      }
    }
    if (x && y && mkBin(X_SUB, mkConst(0, w), x) == y) r = sw(x);
    else r = std::max(uw(k[1]), uw(k[2]));
    break;
  }
  default: break;
  }
  if (r > w) r = w;
  uwCache[e] = r;
  return r;
}
static unsigned sw(Expr *e) {
  if (e->op == X_SYM || e->w <= 8) return e->w;
  auto it = swCache.find(e);
  if (it != swCache.end()) return it->second;
  unsigned w = e->w, r = w;
  switch (e->op) {
  case X_CONST: {
    s128 v = sx(e->c, w);
    if (v < 0) v = ~v;
    r = 1;
    while (v) { r++; v >>= 1; }
    break;
  }
  case X_SEXT: r = sw(e->k[0]); break;
  case X_ZEXT: r = uw(e->k[0]) + 1; break;
  case X_ADD: case X_SUB: r = std::max(sw(e->k[0]), sw(e->k[1])) + 1; break;
  case X_MUL: r = sw(e->k[0]) + sw(e->k[1]); break;
  case X_SDIV: r = std::max(sw(e->k[0]), sw(e->k[1])) + 1; break;
  case X_SREM: r = std::max(sw(e->k[0]), sw(e->k[1])); break;
  case X_ITE: r = std::max(sw(e->k[1]), sw(e->k[2])); break;
  case X_AND: case X_OR: case X_XOR: r = std::max(sw(e->k[0]), sw(e->k[1])); break;
  default: break;
  }
  if (uw(e) < r) r = uw(e) + 1;
  if (r < 1) r = 1;
  if (r > w) r = w;
  swCache[e] = r;
  return r;
}
static std::unordered_map<Expr *, std::unordered_map<unsigned, Z3_ast>> tznCache;
static Z3_ast tzn(Expr *e, unsigned n) {
  if (e->w == n) return tz(e);
  auto &cell = tznCache[e];
  auto it = cell.find(n);
  if (it != cell.end()) return it->second;
  Z3_ast r = nullptr;
  Expr **k = e->k;
  auto fit = [&]() { return sw(k[0]) <= n && sw(k[1]) <= n; };
  switch (e->op) {
  case X_CONST: r = tz(mkConst(e->c, n)); break;
  case X_SEXT: if (k[0]->w <= n) r = k[0]->w == n ? tz(k[0]) : Z3_mk_sign_ext(C, n - k[0]->w, tz(k[0])); else r = tzn(k[0], n); break;
  case X_ZEXT: if (k[0]->w < n) r = Z3_mk_zero_ext(C, n - k[0]->w, tz(k[0])); break;
  case X_ADD: r = Z3_mk_bvadd(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_SUB: r = Z3_mk_bvsub(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_MUL: if (fit()) r = Z3_mk_bvmul(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_SDIV: if (fit()) r = Z3_mk_bvsdiv(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_SREM: if (fit()) r = Z3_mk_bvsrem(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_UREM: if (std::max(uw(k[0]), uw(k[1])) <= n) r = Z3_mk_bvurem(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_UDIV: if (std::max(uw(k[0]), uw(k[1])) <= n) r = Z3_mk_bvudiv(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_AND: if (fit()) r = Z3_mk_bvand(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_OR: if (fit()) r = Z3_mk_bvor(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_XOR: if (fit()) r = Z3_mk_bvxor(C, tzn(k[0], n), tzn(k[1], n)); break;
  case X_ITE: r = Z3_mk_ite(C, asBool(k[0]), tzn(k[1], n), tzn(k[2], n)); break;
  default: break;
  }
  if (!r) r = Z3_mk_extract(C, n - 1, 0, tz(e));
  Z3_inc_ref(C, r);
  tznCache[e][n] = r;
  return r;
}
static unsigned cmpw(Expr *e) { unsigned n = std::max(sw(e->k[0]), sw(e->k[1])); return n < 2 ? 2 : n; }

static Z3_ast asBool0(Expr *e) {
  if ((e->op == X_EQ || e->op == X_SLT || e->op == X_SLE) && e->k[0]->w > 8) {
    unsigned n = cmpw(e);
    if (n < e->k[0]->w) {
      Z3_ast a = tzn(e->k[0], n), b = tzn(e->k[1], n);
      return e->op == X_EQ ? Z3_mk_eq(C, a, b) : e->op == X_SLT ? Z3_mk_bvslt(C, a, b) : Z3_mk_bvsle(C, a, b);
    }
  }
  if ((e->op == X_ULT || e->op == X_ULE) && e->k[0]->w > 8) {
    unsigned n = std::max(2u, std::max(uw(e->k[0]), uw(e->k[1])));
    if (n < e->k[0]->w) {
      Z3_ast a = tzn(e->k[0], n), b = tzn(e->k[1], n);
      return e->op == X_ULT ? Z3_mk_bvult(C, a, b) : Z3_mk_bvule(C, a, b);
    }
  }
  switch (e->op) {
  case X_EQ:
    if (e->k[0]->w == 1) return Z3_mk_iff(C, asBool(e->k[0]), asBool(e->k[1]));
    return Z3_mk_eq(C, tz(e->k[0]), tz(e->k[1]));
  case X_ULT: return Z3_mk_bvult(C, tz(e->k[0]), tz(e->k[1]));
  case X_ULE: return Z3_mk_bvule(C, tz(e->k[0]), tz(e->k[1]));
  case X_SLT: return Z3_mk_bvslt(C, tz(e->k[0]), tz(e->k[1]));
  case X_SLE: return Z3_mk_bvsle(C, tz(e->k[0]), tz(e->k[1]));
  case X_FEQ: return Z3_mk_fpa_eq(C, toF(e->k[0]), toF(e->k[1]));
  case X_FLT: return Z3_mk_fpa_lt(C, toF(e->k[0]), toF(e->k[1]));
  case X_FLE: return Z3_mk_fpa_leq(C, toF(e->k[0]), toF(e->k[1]));
  case X_FUNO: {
    Z3_ast a[2] = {Z3_mk_fpa_is_nan(C, toF(e->k[0])), Z3_mk_fpa_is_nan(C, toF(e->k[1]))};
    return Z3_mk_or(C, 2, a);
  }
  case X_AND: { Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])}; return Z3_mk_and(C, 2, a); }
  case X_OR: { Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])}; return Z3_mk_or(C, 2, a); }
  case X_XOR:
    if (isC(e->k[1]) && e->k[1]->c == 1) return Z3_mk_not(C, asBool(e->k[0]));
    return Z3_mk_xor(C, asBool(e->k[0]), asBool(e->k[1]));
  case X_ITE: return Z3_mk_ite(C, asBool(e->k[0]), asBool(e->k[1]), asBool(e->k[2]));
  case X_CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
  default: return Z3_mk_eq(C, tz(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
  }
}
static Z3_ast asBool(Expr *e) {
  auto it = boolCache.find(e);
  if (it != boolCache.end()) return it->second;
  Z3_ast r = asBool0(e);
  Z3_inc_ref(C, r);
  boolCache[e] = r;
  return r;
}

static Z3_ast tz0(Expr *e) {
  unsigned w = e->w;
  Z3_sort s = Z3_mk_bv_sort(C, w);
  Expr **k = e->k;
  if (w > 8 && (e->op == X_ADD || e->op == X_SUB || e->op == X_MUL || e->op == X_SDIV || e->op == X_SREM)) {
    unsigned n = std::max(sw(e), std::max(sw(k[0]), sw(k[1])));
    if (n + 2 <= w) return Z3_mk_sign_ext(C, w - n, tzn(e, n));
  }
  if (w > 8 && (e->op == X_UREM || e->op == X_UDIV)) {
    // a quotient by zero is never used: the division traps first
    unsigned n = std::max(1u, std::max(uw(k[0]), uw(k[1])));
    if (n + 2 <= w) return Z3_mk_zero_ext(C, w - n, tzn(e, n));
  }
  if (e->op == X_SI2F && sw(k[0]) + 2 <= k[0]->w)
    return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rne, tzn(k[0], sw(k[0])), fs(w)));
  switch (e->op) {
  case X_CONST: {
    if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)e->c, s);
    char buf[64]; int n = 0; u128 v = e->c; char t[64];
    if (!v) buf[n++] = '0';
    else { int m = 0; while (v) { t[m++] = '0' + (int)(v % 10); v /= 10; } while (m) buf[n++] = t[--m]; }
    buf[n] = 0;
    return Z3_mk_numeral(C, buf, s);
  }
  case X_SYM: {
    char nm[32]; snprintf(nm, 32, "s%u", e->aux);
    return Z3_mk_const(C, Z3_mk_string_symbol(C, nm), s);
  }
  case X_ADD: return Z3_mk_bvadd(C, tz(k[0]), tz(k[1]));
  case X_SUB: return Z3_mk_bvsub(C, tz(k[0]), tz(k[1]));
  case X_MUL: return Z3_mk_bvmul(C, tz(k[0]), tz(k[1]));
  case X_UDIV: return Z3_mk_bvudiv(C, tz(k[0]), tz(k[1]));
  case X_SDIV: return Z3_mk_bvsdiv(C, tz(k[0]), tz(k[1]));
  case X_UREM: return Z3_mk_bvurem(C, tz(k[0]), tz(k[1]));
  case X_SREM: return Z3_mk_bvsrem(C, tz(k[0]), tz(k[1]));
  case X_AND: if (w == 1) return b2bv(asBool(e)); return Z3_mk_bvand(C, tz(k[0]), tz(k[1]));
  case X_OR: if (w == 1) return b2bv(asBool(e)); return Z3_mk_bvor(C, tz(k[0]), tz(k[1]));
  case X_XOR: if (w == 1) return b2bv(asBool(e)); return Z3_mk_bvxor(C, tz(k[0]), tz(k[1]));
  case X_SHL: return Z3_mk_bvshl(C, tz(k[0]), tz(k[1]));
  case X_LSHR: return Z3_mk_bvlshr(C, tz(k[0]), tz(k[1]));
  case X_ASHR: return Z3_mk_bvashr(C, tz(k[0]), tz(k[1]));
  case X_CONCAT: return Z3_mk_concat(C, tz(k[0]), tz(k[1]));
  case X_EXTRACT: return Z3_mk_extract(C, e->aux + w - 1, e->aux, tz(k[0]));
  case X_ZEXT: return Z3_mk_zero_ext(C, w - k[0]->w, tz(k[0]));
  case X_SEXT: return Z3_mk_sign_ext(C, w - k[0]->w, tz(k[0]));
  case X_ITE: return Z3_mk_ite(C, asBool(k[0]), tz(k[1]), tz(k[2]));
  case X_EQ: case X_ULT: case X_ULE: case X_SLT: case X_SLE: case X_FEQ: case X_FLT: case X_FLE: case X_FUNO:
    return b2bv(asBool(e));
  case X_FADD: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, rne, toF(k[0]), toF(k[1])));
  case X_FSUB: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, rne, toF(k[0]), toF(k[1])));
  case X_FMUL: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, rne, toF(k[0]), toF(k[1])));
  case X_FDIV: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, rne, toF(k[0]), toF(k[1])));
  case X_FSQRT: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sqrt(C, rne, toF(k[0])));
  case X_SI2F: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rne, tz(k[0]), fs(w)));
  case X_UI2F: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, rne, tz(k[0]), fs(w)));
  case X_F2SI: {
    unsigned fw = k[0]->w;
    Z3_ast f = toF(k[0]);
    double lim = __builtin_ldexp(1.0, w - 1);
    Z3_ast hi = Z3_mk_fpa_lt(C, f, dconst(lim, fw));
    Z3_ast lo = (w >= 53) ? Z3_mk_fpa_geq(C, f, dconst(-lim, fw)) : Z3_mk_fpa_gt(C, f, dconst(-lim - 1.0, fw));
    Z3_ast c[2] = {hi, lo};
    Z3_ast bad = Z3_mk_numeral(C, std::to_string((u64)1 << (w - 1)).c_str(), s);
    return Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f, w), bad);
  }
  case X_F2UI: {
    unsigned fw = k[0]->w;
    Z3_ast f = toF(k[0]);
    Z3_ast c[2] = {Z3_mk_fpa_lt(C, f, dconst(__builtin_ldexp(1.0, w), fw)), Z3_mk_fpa_gt(C, f, dconst(-1.0, fw))};
    Z3_ast bad = Z3_mk_bvnot(C, Z3_mk_unsigned_int64(C, 0, s));
    return Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f, w), bad);
  }
  case X_FRND: {
    Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? Z3_mk_fpa_rtz(C) : e->aux == 3 ? rne : Z3_mk_fpa_rna(C);
    return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, rm, toF(k[0])));
  }
  case X_F32TO64: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, rne, toF(k[0]), fp64));
  case X_F64TO32: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, rne, toF(k[0]), fp32));
  default: fprintf(stderr, "tz: unsupported op %d\n", e->op); abort();
  }
}
static Z3_ast tz(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r = tz0(e);
  Z3_inc_ref(C, r);
  e->z = r;
  return r;
}

static void collectSyms(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Expr *> &syms) {
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back(); st.pop_back();
    if (x->op == X_CONST || !seen.insert(x).second) continue;
    if (x->op == X_SYM) syms.push_back(x);
    for (int i = 0; i < x->nk; i++) st.push_back(x->k[i]);
  }
}

struct CacheEnt { Res r; ModelP m; };
struct VecHash {
  size_t operator()(const std::vector<uint32_t> &v) const {
    u64 h = 1469598103934665603ull;
    for (uint32_t x : v) { h ^= x; h *= 1099511628211ull; }
    return h;
  }
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;
static std::deque<ModelP> recent;

static Res z3check(const std::vector<Expr *> &cs, ModelP &out, const ModelP &cur) {
  init();
  bool fp = false;
  for (Expr *e : cs) fp |= e->hasfp;
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s;
  if (fp) {
    static Z3_tactic t = nullptr;
    if (!t) { t = Z3_mk_tactic(C, "qffpbv"); Z3_tactic_inc_ref(C, t); }
    s = Z3_mk_solver_from_tactic(C, t);
  } else {
    s = nullptr;
  }
  Z3_lbool r;
  Z3_model mdl = nullptr;
  auto mkp = [&](Z3_solver so, unsigned ms) {
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, so, p);
    Z3_params_dec_ref(C, p);
  };
  if (!fp) {
    if (!S) {
      S = Z3_mk_simple_solver(C);
      Z3_solver_inc_ref(C, S);
    }
    // short incremental attempt
    mkp(S, 300);
    Z3_solver_push(C, S);
    for (Expr *e : cs) Z3_solver_assert(C, S, asBool(e));
    r = Z3_solver_check(C, S);
    if (r == Z3_L_TRUE) { mdl = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, mdl); }
    Z3_solver_pop(C, S, 1);
    if (r == Z3_L_UNDEF) {
      static Z3_tactic t = nullptr;
      if (!t) { t = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t); }
      s = Z3_mk_solver_from_tactic(C, t);
    }
  }
  if (s) {
    Z3_solver_inc_ref(C, s);
    mkp(s, g_queryTimeoutMs);
    for (Expr *e : cs) Z3_solver_assert(C, s, asBool(e));
    r = Z3_solver_check(C, s);
    if (r == Z3_L_TRUE) { mdl = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mdl); }
    Z3_solver_dec_ref(C, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt;
  if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  g_ss.z3calls++;
  if (getenv("SX_DUMPQ") && dt > (getenv("SX_DUMPS") ? atof(getenv("SX_DUMPS")) : 2.0)) {
    static int n = 0;
    char fn[256];
    snprintf(fn, 256, "%s/q%d_%d.smt2", getenv("SX_DUMPQ"), (int)getpid(), n++);
    FILE *f = fopen(fn, "w");
    std::vector<Z3_ast> as;
    for (Expr *e : cs) as.push_back(asBool(e));
    fprintf(f, "; %.1fs %d\n%s\n", dt, (int)r, Z3_benchmark_to_smtlib_string(C, "q", fp ? "QF_BVFP" : "QF_BV", "unknown", "", (unsigned)as.size() - 1, as.data(), as.back()));
    fclose(f);
  }
  if (r == Z3_L_FALSE) { g_ss.unsat++; return R_UNSAT; }
  if (r == Z3_L_UNDEF) { g_ss.unknown++; return R_UNKNOWN; }
  g_ss.sat++;
  out = std::make_shared<Model>();
  if (cur) out->v = cur->v;
  if (out->v.size() < g_symNames.size()) out->v.resize(g_symNames.size(), 0);
  std::unordered_set<Expr *> seen;
  std::vector<Expr *> syms;
  for (Expr *e : cs) collectSyms(e, seen, syms);
  for (Expr *e : syms) {
    Z3_ast v = nullptr;
    u128 val = 0;
    if (Z3_model_eval(C, mdl, tz(e), true, &v) && v) {
      Z3_inc_ref(C, v);
      if (Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST) {
        const char *st = Z3_get_numeral_string(C, v);
        for (const char *p = st; *p; p++) val = val * 10 + (*p - '0');
      }
      Z3_dec_ref(C, v);
    }
    out->v[e->aux] = val;
  }
  Z3_model_dec_ref(C, mdl);
  // sanity: the model must satisfy the constraints under our own semantics
  for (Expr *e : cs)
    if (!evalE(e, *out)) {
      if (!e->hasfp) { fprintf(stderr, "model mismatch on %s\n", exprStr(e, 12).c_str()); }
      g_ss.unknown++;
      return R_UNKNOWN;
    }
  return R_SAT;
}

Res solve(const std::vector<Expr *> &pc, Expr *q, const ModelP &cur, ModelP &out) {
  g_ss.queries++;
  if (isC(q)) {
    if (q->c) { out = cur; return R_SAT; }
    return R_UNSAT;
  }
  if (cur && evalE(q, *cur)) { out = cur; g_ss.modelHits++; return R_SAT; }
  // slice
  std::vector<Expr *> sl{q};
  u128 m = q->mask;
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!used[i] && (pc[i]->mask & m)) {
        used[i] = 1;
        sl.push_back(pc[i]);
        if ((m | pc[i]->mask) != m) { m |= pc[i]->mask; ch = true; }
      }
  }
  std::vector<uint32_t> key;
  for (Expr *e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto merge = [&](const ModelP &mm) {
    // take slice symbols from mm, the rest from cur
    auto r = std::make_shared<Model>();
    if (cur) r->v = cur->v;
    if (r->v.size() < g_symNames.size()) r->v.resize(g_symNames.size(), 0);
    std::unordered_set<Expr *> seen;
    std::vector<Expr *> syms;
    for (Expr *e : sl) collectSyms(e, seen, syms);
    for (Expr *e : syms) r->v[e->aux] = mm->get(e->aux);
    return r;
  };
  auto it = cache.find(key);
  if (it != cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == R_SAT) out = merge(it->second.m);
    return it->second.r;
  }
  for (auto &mm : recent) {
    bool ok = true;
    for (Expr *e : sl)
      if (!evalE(e, *mm)) { ok = false; break; }
    if (ok) {
      g_ss.modelHits++;
      out = merge(mm);
      cache[key] = {R_SAT, out};
      return R_SAT;
    }
  }
  Res r = z3check(sl, out, cur);
  cache[key] = {r, r == R_SAT ? out : nullptr};
  if (r == R_SAT) {
    recent.push_front(out);
    if (recent.size() > 12) recent.pop_back();
  }
  return r;
}
unsigned signedWidth(Expr *e) { return sw(e); }
unsigned unsignedWidth(Expr *e) { return uw(e); }
