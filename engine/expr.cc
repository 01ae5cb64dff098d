#include "expr.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>

std::vector<std::string> g_symNames;
std::vector<uint16_t> g_symWidth;

static std::vector<Expr *> g_tab(1 << 16, nullptr);
static size_t g_n = 0;
static uint32_t g_nextId = 1;
static char *g_arena = nullptr;
static size_t g_arenaLeft = 0;

static Expr *allocE() {
  if (g_arenaLeft < sizeof(Expr)) {
    g_arenaLeft = 1 << 20;
    g_arena = (char *)aligned_alloc(64, g_arenaLeft);
  }
  Expr *e = (Expr *)g_arena;
  size_t sz = (sizeof(Expr) + 15) & ~15ull;
  g_arena += sz;
  g_arenaLeft -= sz;
  return e;
}

static uint32_t hsh(Op op, unsigned w, unsigned aux, u128 c, Expr *a, Expr *b, Expr *d) {
  u64 h = op * 0x9E3779B97F4A7C15ull + w * 0x85ebca6bull + aux * 0xc2b2ae35ull;
  h ^= (u64)c * 0xff51afd7ed558ccdull + (u64)(c >> 64) * 0xc4ceb9fe1a85ec53ull;
  if (a) h = h * 31 + a->id * 0x9E3779B1ull;
  if (b) h = h * 31 + b->id * 0x85EBCA77ull;
  if (d) h = h * 31 + d->id * 0xC2B2AE3Dull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  return (uint32_t)h;
}

static Expr *intern(Op op, unsigned w, unsigned aux, u128 c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
  uint32_t h = hsh(op, w, aux, c, a, b, d);
  size_t m = g_tab.size() - 1;
  size_t i = h & m;
  while (Expr *e = g_tab[i]) {
    if (e->hash == h && e->op == op && e->w == w && e->aux == aux && e->c == c && e->k[0] == a && e->k[1] == b &&
        e->k[2] == d)
      return e;
    i = (i + 1) & m;
  }
  Expr *e = allocE();
  e->op = op;
  e->w = w;
  e->aux = aux;
  e->c = c;
  e->k[0] = a;
  e->k[1] = b;
  e->k[2] = d;
  e->nk = d ? 3 : b ? 2 : a ? 1 : 0;
  e->hash = h;
  e->id = g_nextId++;
  e->evEpoch = 0;
  e->z = nullptr;
  e->mask = 0;
  e->hasfp = op >= X_FADD;
  u64 cost = 1;
  for (int j = 0; j < e->nk; j++) {
    e->mask |= e->k[j]->mask;
    e->hasfp |= e->k[j]->hasfp;
    cost += e->k[j]->cost;
  }
  e->cost = cost > 1000000000 ? 1000000000 : cost;
  if (op == X_SYM) e->mask = (u128)1 << (aux & 127);
  g_tab[i] = e;
  if (++g_n * 2 > g_tab.size()) {
    std::vector<Expr *> nt(g_tab.size() * 2, nullptr);
    size_t nm = nt.size() - 1;
    for (Expr *x : g_tab)
      if (x) {
        size_t j = x->hash & nm;
        while (nt[j]) j = (j + 1) & nm;
        nt[j] = x;
      }
    g_tab.swap(nt);
  }
  return e;
}

Expr *mkConst(u128 v, unsigned w) { return intern(X_CONST, w, 0, v & maskw(w)); }
Expr *mkSym(const std::string &name, unsigned w) {
  unsigned id = g_symNames.size();
  g_symNames.push_back(name);
  g_symWidth.push_back(w);
  return intern(X_SYM, w, id, 0);
}

static double bd(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static u128 db(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static float bf(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

bool foldConst(Op op, unsigned w, u128 a, u128 b, unsigned wa, unsigned aux, u128 &o) {
  // w: result width; wa: operand width
  switch (op) {
  case X_ADD: o = a + b; break;
  case X_SUB: o = a - b; break;
  case X_MUL: o = a * b; break;
  case X_UDIV: o = b ? a / b : maskw(w); break;
  case X_UREM: o = b ? a % b : a; break;
  case X_SDIV: {
    s128 x = sx(a, w), y = sx(b, w);
    if (y == 0) o = x < 0 ? 1 : maskw(w);
    else if (y == -1) o = (u128)(-(u128)x);
    else o = (u128)(x / y);
    break;
  }
  case X_SREM: {
    s128 x = sx(a, w), y = sx(b, w);
    if (y == 0) o = a;
    else if (y == -1) o = 0;
    else o = (u128)(x % y);
    break;
  }
  case X_AND: o = a & b; break;
  case X_OR: o = a | b; break;
  case X_XOR: o = a ^ b; break;
  case X_SHL: o = b >= w ? 0 : a << (unsigned)b; break;
  case X_LSHR: o = b >= w ? 0 : a >> (unsigned)b; break;
  case X_ASHR: {
    s128 x = sx(a, w);
    o = (u128)(x >> (b >= w ? (w >= 128 ? 127 : w - 1 + 0) : (unsigned)b));
    if (b >= w) o = x < 0 ? maskw(w) : 0;
    break;
  }
  case X_CONCAT: o = (a << (w - wa)) | b; break;  // wa = width of hi
  case X_EXTRACT: o = a >> aux; break;
  case X_ZEXT: o = a; break;
  case X_SEXT: o = (u128)sx(a, wa); break;
  case X_EQ: o = a == b; break;
  case X_ULT: o = a < b; break;
  case X_ULE: o = a <= b; break;
  case X_SLT: o = sx(a, wa) < sx(b, wa); break;
  case X_SLE: o = sx(a, wa) <= sx(b, wa); break;
  case X_FADD: o = wa == 64 ? db(bd(a) + bd(b)) : fb(bf(a) + bf(b)); break;
  case X_FSUB: o = wa == 64 ? db(bd(a) - bd(b)) : fb(bf(a) - bf(b)); break;
  case X_FMUL: o = wa == 64 ? db(bd(a) * bd(b)) : fb(bf(a) * bf(b)); break;
  case X_FDIV: o = wa == 64 ? db(bd(a) / bd(b)) : fb(bf(a) / bf(b)); break;
  case X_FREM: o = wa == 64 ? db(fmod(bd(a), bd(b))) : fb(fmodf(bf(a), bf(b))); break;
  case X_FSQRT: o = wa == 64 ? db(sqrt(bd(a))) : fb(sqrtf(bf(a))); break;
  case X_FEQ: o = wa == 64 ? bd(a) == bd(b) : bf(a) == bf(b); break;
  case X_FLT: o = wa == 64 ? bd(a) < bd(b) : bf(a) < bf(b); break;
  case X_FLE: o = wa == 64 ? bd(a) <= bd(b) : bf(a) <= bf(b); break;
  case X_FUNO: o = wa == 64 ? (bd(a) != bd(a) || bd(b) != bd(b)) : (bf(a) != bf(a) || bf(b) != bf(b)); break;
  case X_SI2F: o = w == 64 ? db((double)(s64)sx(a, wa)) : fb((float)(s64)sx(a, wa)); break;
  case X_UI2F: o = w == 64 ? db((double)(u64)a) : fb((float)(u64)a); break;
  case X_F2SI: {
    double d = wa == 64 ? bd(a) : bf(a);
    double lim = ldexp(1.0, w - 1);
    if (!(d < lim && d > -lim - 1.0) && !(d == -lim)) o = (u128)1 << (w - 1);
    else o = (u128)(s128)(s64)d;
    break;
  }
  case X_F2UI: {
    double d = wa == 64 ? bd(a) : bf(a);
    double lim = ldexp(1.0, w);
    if (!(d < lim && d > -1.0)) o = maskw(w);
    else o = (u64)d;
    break;
  }
  case X_FRND: {
    double d = bd(a);
    switch (aux) {
    case 0: d = floor(d); break;
    case 1: d = ceil(d); break;
    case 2: d = trunc(d); break;
    case 3: d = rint(d); break;
    case 4: d = round(d); break;
    }
    o = db(d);
    break;
  }
  case X_F32TO64: o = db((double)bf(a)); break;
  case X_F64TO32: o = fb((float)bd(a)); break;
  default: return false;
  }
  o &= maskw(w);
  return true;
}

Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == X_XOR && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
  // push negation through comparisons
  if (a->op == X_ULT) return mkCmp(X_ULE, a->k[1], a->k[0]);
  if (a->op == X_ULE) return mkCmp(X_ULT, a->k[1], a->k[0]);
  if (a->op == X_SLT) return mkCmp(X_SLE, a->k[1], a->k[0]);
  if (a->op == X_SLE) return mkCmp(X_SLT, a->k[1], a->k[0]);
  return intern(X_XOR, 1, 0, 0, a, mkConst(1, 1));
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
  case X_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
  case X_CONCAT: {
    unsigned wl = a->k[1]->w;
    if (lo >= wl) return mkExtract(a->k[0], lo - wl, w);
    if (lo + w <= wl) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - wl), mkExtract(a->k[1], lo, wl - lo));
  }
  case X_ZEXT: {
    unsigned wi = a->k[0]->w;
    if (lo >= wi) return mkConst(0, w);
    if (lo + w <= wi) return mkExtract(a->k[0], lo, w);
    return mkZExt(mkExtract(a->k[0], lo, wi - lo), w);
  }
  case X_SEXT: {
    unsigned wi = a->k[0]->w;
    if (lo + w <= wi) return mkExtract(a->k[0], lo, w);
    if (lo == 0) return mkSExt(a->k[0], w);
    if (lo < wi) return mkSExt(mkExtract(a->k[0], lo, wi - lo), w);
    break;
  }
  case X_AND: case X_OR: case X_XOR:
    if (isC(a->k[1])) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    break;
  case X_ADD: case X_SUB: case X_MUL:
    if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case X_ITE:
    if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  default: break;
  }
  return intern(X_EXTRACT, w, lo, 0, a);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == X_EXTRACT && lo->op == X_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->k[0], lo->aux, w);
  if (hi->op == X_EXTRACT && hi->aux == lo->w &&
      mkExtract(hi->k[0], 0, lo->w) == lo)
    return mkExtract(hi->k[0], 0, w);
  if (hi->op == X_ITE && lo->op == X_ITE && hi->k[0] == lo->k[0] && (isC(hi->k[1]) || isC(hi->k[2])) && (isC(lo->k[1]) || isC(lo->k[2])))
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if ((hi->op == X_AND || hi->op == X_OR || hi->op == X_XOR) && hi->op == lo->op && isC(hi->k[1]) && isC(lo->k[1]))
    return mkBin(hi->op, mkConcat(hi->k[0], lo->k[0]), mkConst((hi->k[1]->c << lo->w) | lo->k[1]->c, w));
  if (lo->op == X_CONCAT && hi->op == X_EXTRACT && lo->k[0]->op == X_EXTRACT && lo->k[0]->k[0] == hi->k[0] &&
      hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  return intern(X_CONCAT, w, 0, 0, hi, lo);
}

Expr *mkZExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == X_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return intern(X_ZEXT, w, 0, 0, a);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
  if (a->op == X_SEXT) return mkSExt(a->k[0], w);
  if (a->op == X_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == X_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(X_SEXT, w, 0, 0, a);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == X_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(X_OR, c, b) : mkBin(X_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(X_OR, mkNot(c), a) : mkBin(X_AND, c, a);
  }
  if (a->op == X_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == X_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(X_ITE, a->w, 0, 0, c, a, b);
}

static bool commut(Op op) {
  return op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR || op == X_EQ;
}

// Canonical sums: every ADD/SUB/MUL-by-constant tree of at most LINMAX distinct
// atoms is rebuilt as a sorted linear combination, and every product as a sorted
// chain of factors, so equal polynomials written differently are one term.
static const int LINMAX = 10;
struct Lin { int n = 0; Expr *t[LINMAX]; u128 c[LINMAX]; u128 k = 0; };
static bool linAdd(Lin &L, Expr *e, u128 coef, int depth) {
  unsigned w = e->w;
  coef &= maskw(w);
  if (e->op == X_CONST) { L.k = (L.k + coef * e->c) & maskw(w); return true; }
  if (depth > 0) {
    if (e->op == X_ADD) return linAdd(L, e->k[0], coef, depth - 1) && linAdd(L, e->k[1], coef, depth - 1);
    if (e->op == X_SUB) return linAdd(L, e->k[0], coef, depth - 1) && linAdd(L, e->k[1], -coef, depth - 1);
    if (e->op == X_MUL && e->k[1]->op == X_CONST) return linAdd(L, e->k[0], coef * e->k[1]->c, depth - 1);
  }
  int i = 0;
  while (i < L.n && L.t[i]->id < e->id) i++;
  if (i < L.n && L.t[i] == e) {
    L.c[i] = (L.c[i] + coef) & maskw(w);
    return true;
  }
  if (L.n == LINMAX) return false;
  for (int j = L.n; j > i; j--) { L.t[j] = L.t[j - 1]; L.c[j] = L.c[j - 1]; }
  L.t[i] = e; L.c[i] = coef; L.n++;
  return true;
}
static Expr *linBuild(const Lin &L, unsigned w) {
  Expr *acc = nullptr;
  u128 m1 = maskw(w);
  for (int pass = 0; pass < 2; pass++)
    for (int i = 0; i < L.n; i++) {
      u128 c = L.c[i];
      if (c == 0) continue;
      bool neg = c == m1;
      if (neg != (pass == 1)) continue;
      if (neg) {
        acc = acc ? intern(X_SUB, w, 0, 0, acc, L.t[i]) : intern(X_SUB, w, 0, 0, mkConst(0, w), L.t[i]);
      } else {
        Expr *t = c == 1 ? L.t[i] : intern(X_MUL, w, 0, 0, L.t[i], mkConst(c, w));
        acc = acc ? intern(X_ADD, w, 0, 0, acc, t) : t;
      }
    }
  if (!acc) return mkConst(L.k, w);
  if (L.k) acc = intern(X_ADD, w, 0, 0, acc, mkConst(L.k, w));
  return acc;
}
static bool isLin(Expr *e) { return e->op == X_ADD || e->op == X_SUB || (e->op == X_MUL && e->k[1]->op == X_CONST); }
static Expr *mulChain(Expr *a, Expr *b, unsigned w) {
  Expr *f[12]; int n = 0;
  bool ok = true;
  auto put = [&](Expr *e, auto &&self) -> void {
    if (e->op == X_MUL && e->k[1]->op != X_CONST) { self(e->k[0], self); self(e->k[1], self); return; }
    if (n == 12) { ok = false; return; }
    int i = n++;
    while (i > 0 && f[i - 1]->id > e->id) { f[i] = f[i - 1]; i--; }
    f[i] = e;
  };
  put(a, put); put(b, put);
  if (!ok) return nullptr;
  Expr *acc = f[0];
  for (int i = 1; i < n; i++) acc = intern(X_MUL, w, 0, 0, acc, f[i]);
  return acc;
}
// conservative range of the value read as a signed integer; false when unknown
static bool srange(Expr *e, s128 &lo, s128 &hi, int d) {
  if (e->w > 64) return false;
  s128 a, b, c, f;
  s128 MX = ((s128)1 << (e->w - 1)) - 1, MN = -MX - 1;
  lo = MN; hi = MX;
  if (d <= 0) return true;
  switch (e->op) {
  case X_CONST: lo = hi = sx(e->c, e->w); return true;
  case X_ZEXT: {
    unsigned wi = e->k[0]->w;
    if (srange(e->k[0], a, b, d - 1) && a >= 0) { lo = a; hi = b; return true; }
    lo = 0; hi = (s128)maskw(wi);
    return true;
  }
  case X_SEXT: return srange(e->k[0], lo, hi, d - 1);
  case X_ADD: case X_SUB: case X_MUL: {
    if (!srange(e->k[0], a, b, d - 1) || !srange(e->k[1], c, f, d - 1)) return true;
    s128 l, h;
    if (e->op == X_ADD) { l = a + c; h = b + f; }
    else if (e->op == X_SUB) { l = a - f; h = b - c; }
    else {
      s128 lim = (s128)1 << 62;
      if (a < -lim || b > lim || c < -lim || f > lim) return true;
      s128 p[4] = {a * c, a * f, b * c, b * f};
      l = h = p[0];
      for (int i = 1; i < 4; i++) { if (p[i] < l) l = p[i]; if (p[i] > h) h = p[i]; }
    }
    if (l < MN || h > MX) return true;
    lo = l; hi = h;
    return true;
  }
  case X_UREM: case X_SREM:
    if (isC(e->k[1]) && sx(e->k[1]->c, e->w) > 0) {
      s128 m = sx(e->k[1]->c, e->w);
      if (!srange(e->k[0], a, b, d - 1)) return true;
      if (e->op == X_UREM) { lo = 0; hi = m - 1; if (a >= 0 && b < hi) hi = b; }
      else { lo = a >= 0 ? 0 : -(m - 1); hi = b <= 0 ? 0 : m - 1; }
    }
    return true;
  case X_ITE:
    if (srange(e->k[1], a, b, d - 1) && srange(e->k[2], c, f, d - 1)) { lo = a < c ? a : c; hi = b > f ? b : f; }
    return true;
  default: return true;
  }
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) {
    u128 o;
    foldConst(op, w, a->c, b->c, w, 0, o);
    return mkConst(o, w);
  }
  if (commut(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  u128 bc = isC(b) ? b->c : 0;
  bool cb = isC(b);
  switch (op) {
  case X_ADD:
    if (cb && bc == 0) return a;
    if (cb && a->op == X_ADD && isC(a->k[1])) return mkBin(X_ADD, a->k[0], mkConst(a->k[1]->c + bc, w));
    if (w == 1) return mkBin(X_XOR, a, b);
    if (!cb && a->op == X_SUB && a->k[1] == b) return a->k[0];
    if (!cb && b->op == X_SUB && b->k[1] == a) return b->k[0];
    if (a == b || isLin(a) || isLin(b)) {
      Lin L;
      if (linAdd(L, a, 1, 24) && linAdd(L, b, 1, 24)) return linBuild(L, w);
    }
    break;
  case X_SUB:
    if (a == b) return mkConst(0, w);
    if (cb) return mkBin(X_ADD, a, mkConst(-bc, w));
    if (w == 1) return mkBin(X_XOR, a, b);
    if (isLin(a) || isLin(b) || isC(a)) {
      Lin L;
      if (linAdd(L, a, 1, 24) && linAdd(L, b, ~(u128)0, 24)) return linBuild(L, w);
    }
    break;
  case X_MUL:
    if (cb && bc == 0) return b;
    if (cb && bc == 1) return a;
    if (w == 1) return mkBin(X_AND, a, b);
    if (cb) {
      if (isLin(a) || bc == maskw(w)) {
        Lin L;
        if (linAdd(L, a, bc, 24)) return linBuild(L, w);
      }
    } else {
      // pull constants out of factors
      u128 k = 1;
      if (a->op == X_MUL && isC(a->k[1])) { k *= a->k[1]->c; a = a->k[0]; }
      if (b->op == X_MUL && isC(b->k[1])) { k *= b->k[1]->c; b = b->k[0]; }
      Expr *m = mulChain(a, b, w);
      if (m) return k == 1 ? m : mkBin(X_MUL, m, mkConst(k, w));
    }
    break;
  case X_UDIV: case X_SDIV: case X_UREM: case X_SREM:
    if (cb && bc == 1 && w > 1) return op == X_UDIV || op == X_SDIV ? a : mkConst(0, w);
    if (cb && w <= 64 && w > 8 && sx(bc, w) > 0) {
      s128 lo, hi;
      if (srange(a, lo, hi, 12)) {
        if (lo >= 0) {
          unsigned n = 1;
          while (n < w && (((u128)hi >> n) || (bc >> n))) n++;
          if (n < w) return mkZExt(mkBin(op == X_UDIV || op == X_SDIV ? X_UDIV : X_UREM, mkExtract(a, 0, n), mkConst(bc, n)), w);
        } else if (op == X_SDIV || op == X_SREM) {
          unsigned n = 2;
          s128 m = hi > -lo ? hi : -lo;
          if ((s128)bc > m) m = (s128)bc;
          while (n < w && (m >> (n - 1))) n++;
          if (n < w) return mkSExt(mkBin(op, mkExtract(a, 0, n), mkConst(bc, n)), w);
        }
      }
    }
    break;
  case X_AND:
    if (a == b) return a;
    if (cb && bc == 0) return b;
    if (cb && bc == maskw(w)) return a;
    if (cb && a->op == X_AND && isC(a->k[1])) return mkBin(X_AND, a->k[0], mkConst(a->k[1]->c & bc, w));
    if (cb && a->op == X_ZEXT && (bc & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
    if (cb && bc != 0 && (bc & (bc + 1)) == 0) { // low mask
      unsigned n = 0; while ((bc >> n) & 1) n++;
      return mkZExt(mkExtract(a, 0, n), w);
    }
    if (w == 1 && (mkNot(a) == b || mkNot(b) == a)) return mkConst(0, 1);
    if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(X_AND, a->k[0], b->k[0]), w);
    break;
  case X_OR:
    if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(X_OR, a->k[0], b->k[0]), w);
    if (a == b) return a;
    if (cb && bc == 0) return a;
    if (cb && bc == maskw(w)) return b;
    if (w == 1 && (mkNot(a) == b || mkNot(b) == a)) return mkConst(1, 1);
    break;
  case X_XOR:
    if (a == b) return mkConst(0, w);
    if (cb && bc == 0) return a;
    if (w == 1 && cb) return mkNot(a);
    if (cb && a->op == X_XOR && isC(a->k[1])) return mkBin(X_XOR, a->k[0], mkConst(a->k[1]->c ^ bc, w));
    break;
  case X_SHL: case X_LSHR: case X_ASHR:
    if (cb && bc == 0) return a;
    if (cb && op != X_ASHR) {
      if (bc >= w) return mkConst(0, w);
      if (op == X_LSHR) return mkZExt(mkExtract(a, (unsigned)bc, w - (unsigned)bc), w);
      return mkConcat(mkExtract(a, 0, w - (unsigned)bc), mkConst(0, (unsigned)bc));
    }
    if (cb && op == X_ASHR && bc < w) return mkSExt(mkExtract(a, (unsigned)bc, w - (unsigned)bc), w);
    break;
  default: break;
  }
  return intern(op, w, 0, 0, a, b);
}

Expr *mkCmp(Op op, Expr *a, Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "mkCmp width mismatch %d %d\n", a->w, b->w); abort(); }
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    u128 o;
    foldConst(op, 1, a->c, b->c, w, 0, o);
    return mkConst(o, 1);
  }
  if (a == b) return mkConst(op == X_EQ || op == X_ULE || op == X_SLE, 1);
  if (op == X_EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w == 1) {
      if (isC(b)) return b->c ? a : mkNot(a);
    }
    if (isC(b)) {
      if (a->op == X_ZEXT) {
        unsigned wi = a->k[0]->w;
        if (b->c >> wi) return mkConst(0, 1);
        return mkCmp(X_EQ, a->k[0], mkConst(b->c, wi));
      }
      if (a->op == X_SEXT) {
        unsigned wi = a->k[0]->w;
        if ((((u128)sx(b->c & maskw(wi), wi)) & maskw(w)) != b->c) return mkConst(0, 1);
        return mkCmp(X_EQ, a->k[0], mkConst(b->c, wi));
      }
      if (a->op == X_ITE) {
        Expr *x = a->k[1], *y = a->k[2];
        if (isC(x) && isC(y)) {
          bool ex = x->c == b->c, ey = y->c == b->c;
          if (ex && ey) return mkConst(1, 1);
          if (ex) return a->k[0];
          if (ey) return mkNot(a->k[0]);
          return mkConst(0, 1);
        }
        if (isC(x)) return x->c == b->c ? mkBin(X_OR, a->k[0], mkCmp(X_EQ, y, b)) : mkBin(X_AND, mkNot(a->k[0]), mkCmp(X_EQ, y, b));
        if (isC(y)) return y->c == b->c ? mkBin(X_OR, mkNot(a->k[0]), mkCmp(X_EQ, x, b)) : mkBin(X_AND, a->k[0], mkCmp(X_EQ, x, b));
      }
      if (a->op == X_ADD && isC(a->k[1])) return mkCmp(X_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
      if (a->op == X_MUL && isC(a->k[1]) && w <= 64) {
        // x*k == c without overflow
        s128 lo, hi, k = sx(a->k[1]->c, w), c = sx(b->c, w);
        if (k > 1 && k < ((s128)1 << 40) && srange(a->k[0], lo, hi, 12) && hi <= (((s128)1 << (w - 1)) - 1) / k && lo >= -((((s128)1 << (w - 1)) - 1) / k)) {
          if (c % k) return mkConst(0, 1);
          return mkCmp(X_EQ, a->k[0], mkConst((u128)(c / k), w));
        }
      }
      if (a->op == X_XOR && isC(a->k[1])) return mkCmp(X_EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
      if (a->op == X_CONCAT) {
        unsigned wl = a->k[1]->w;
        return mkBin(X_AND, mkCmp(X_EQ, a->k[0], mkConst(b->c >> wl, w - wl)), mkCmp(X_EQ, a->k[1], mkConst(b->c, wl)));
      }
    } else {
      if (isLin(a) || isLin(b)) {
        Expr *d = mkBin(X_SUB, a, b);
        if (isC(d)) return mkConst(d->c == 0, 1);
      }
      if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(X_EQ, a->k[0], b->k[0]);
      if (a->op == X_SEXT && b->op == X_SEXT && a->k[0]->w == b->k[0]->w) return mkCmp(X_EQ, a->k[0], b->k[0]);
    }
  } else {
    // zext comparisons
    if (a->op == X_ZEXT && b->op == X_ZEXT && a->k[0]->w == b->k[0]->w) {
      Op o2 = op == X_SLT ? X_ULT : op == X_SLE ? X_ULE : op;
      return mkCmp(o2, a->k[0], b->k[0]);
    }
    if (a->op == X_SEXT && b->op == X_SEXT && a->k[0]->w == b->k[0]->w && (op == X_SLT || op == X_SLE))
      return mkCmp(op, a->k[0], b->k[0]);
    if (isC(b) && a->op == X_ZEXT) {
      unsigned wi = a->k[0]->w;
      bool sg = op == X_SLT || op == X_SLE;
      if (sg && (b->c >> (w - 1))) return mkConst(0, 1);      // nonneg < negative
      if (b->c >> wi) return mkConst(1, 1);                   // always below
      return mkCmp(sg ? (op == X_SLT ? X_ULT : X_ULE) : op, a->k[0], mkConst(b->c, wi));
    }
    if (isC(a) && b->op == X_ZEXT) {
      unsigned wi = b->k[0]->w;
      bool sg = op == X_SLT || op == X_SLE;
      if (sg && (a->c >> (w - 1))) return mkConst(1, 1);
      if (a->c >> wi) return mkConst(0, 1);
      return mkCmp(sg ? (op == X_SLT ? X_ULT : X_ULE) : op, mkConst(a->c, wi), b->k[0]);
    }
    if (isC(b)) {
      if (op == X_ULT && b->c == 0) return mkConst(0, 1);
      if (op == X_ULT && b->c == 1) return mkCmp(X_EQ, a, mkConst(0, w));
      if (op == X_ULE && b->c == maskw(w)) return mkConst(1, 1);
      if (op == X_ULE && b->c == 0) return mkCmp(X_EQ, a, b);
    }
    if (isC(a)) {
      if (op == X_ULE && a->c == 0) return mkConst(1, 1);
      if (op == X_ULT && a->c == maskw(w)) return mkConst(0, 1);
      if (op == X_ULT && a->c == 0) return mkNot(mkCmp(X_EQ, b, a));
    }
    if (isC(b) && a->op == X_SEXT && (op == X_SLT || op == X_SLE)) {
      unsigned wi = a->k[0]->w;
      s128 v = sx(b->c, w), lo = -((s128)1 << (wi - 1)), hi = ((s128)1 << (wi - 1)) - 1;
      if (v > hi) return mkConst(1, 1);
      if (v < lo) return mkConst(0, 1);
      return mkCmp(op, a->k[0], mkConst((u128)v, wi));
    }
    if (isC(a) && b->op == X_SEXT && (op == X_SLT || op == X_SLE)) {
      unsigned wi = b->k[0]->w;
      s128 v = sx(a->c, w), lo = -((s128)1 << (wi - 1)), hi = ((s128)1 << (wi - 1)) - 1;
      if (v > hi) return mkConst(0, 1);
      if (v < lo) return mkConst(1, 1);
      return mkCmp(op, mkConst((u128)v, wi), b->k[0]);
    }
    if (isC(b) && a->op == X_ITE && isC(a->k[1]) && isC(a->k[2]))
      return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
    if (isC(a) && b->op == X_ITE && isC(b->k[1]) && isC(b->k[2]))
      return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  }
  return intern(op, 1, 0, 0, a, b);
}

// the value is certainly not -0.0 (and x op identity is x itself; NaNs are
// canonical here, payloads are not tracked)
static bool notNegZero(Expr *e, int d) {
  if (e->w != 64) return false;
  if (e->op == X_CONST) return (u64)e->c != 0x8000000000000000ull;
  if (e->op == X_SI2F || e->op == X_UI2F) return true;
  if (d == 0) return false;
  if (e->op == X_FADD) return notNegZero(e->k[0], d - 1) || notNegZero(e->k[1], d - 1);
  return false;
}
// log2 bound on the magnitude of a double term that is certainly finite, or -1
static int magBound(Expr *e, int d) {
  if (e->w != 64) return -1;
  if (e->op == X_CONST) { double v = bd(e->c); return v != v || v > 1e100 || v < -1e100 ? -1 : 340; }
  if (e->op == X_SI2F || e->op == X_UI2F) return 65;
  if (d == 0) return -1;
  if (e->op == X_FADD || e->op == X_FSUB || e->op == X_FMUL) {
    int a = magBound(e->k[0], d - 1), b = magBound(e->k[1], d - 1);
    if (a < 0 || b < 0) return -1;
    int r = e->op == X_FMUL ? a + b : (a > b ? a : b) + 1;
    return r > 1000 ? -1 : r;
  }
  return -1;
}
Expr *mkFBin(Op op, Expr *a, Expr *b) {
  bool cmp = op == X_FEQ || op == X_FLT || op == X_FLE || op == X_FUNO;
  unsigned w = cmp ? 1 : a->w;
  if (isC(a) && isC(b)) {
    u128 o;
    foldConst(op, w, a->c, b->c, a->w, 0, o);
    return mkConst(o, w);
  }
  if ((op == X_FADD || op == X_FMUL || op == X_FEQ || op == X_FUNO) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (cmp && op != X_FUNO && a->w == 64 && (a->op == X_SI2F || isC(a)) && (b->op == X_SI2F || isC(b))) {
    // comparisons of converted integers below 2^53 in magnitude are integer comparisons
    auto small = [](Expr *e) {
      if (isC(e)) { double d = bd(e->c); return d > -9e15 && d < 9e15 && d == (double)(s64)d; }
      return (e->k[0]->op == X_SEXT && e->k[0]->k[0]->w <= 53) || (e->k[0]->op == X_ZEXT && e->k[0]->k[0]->w <= 52) || e->k[0]->w <= 32;
    };
    if (small(a) && small(b)) {
      auto ie = [](Expr *e) { return isC(e) ? mkConst((u128)(s128)(s64)bd(e->c), 64) : mkSExt(e->k[0], 64); };
      return mkCmp(op == X_FEQ ? X_EQ : op == X_FLT ? X_SLT : X_SLE, ie(a), ie(b));
    }
  }
  if (a == b && a->w == 64 && (op == X_FEQ || op == X_FLE) && magBound(a, 6) >= 0) return mkConst(1, 1);
  if (a == b && op == X_FLT) return mkConst(0, 1);
  if (w == 64 && isC(b)) {
    u64 bb = (u64)b->c;
    const u64 one = 0x3ff0000000000000ull, mzero = 0x8000000000000000ull;
    if (op == X_FADD && (bb == mzero || (bb == 0 && notNegZero(a, 8)))) return a;
    if (op == X_FSUB && (bb == 0 || (bb == mzero && notNegZero(a, 8)))) return a;
    if ((op == X_FMUL || op == X_FDIV) && bb == one) return a;
  }
  return intern(op, w, 0, 0, a, b);
}
Expr *mkFUn(Op op, Expr *a, unsigned w, unsigned aux) {
  if (isC(a)) {
    u128 o;
    foldConst(op, w, a->c, 0, a->w, aux, o);
    return mkConst(o, w);
  }
  return intern(op, w, aux, 0, a);
}

u128 evalE(Expr *e, const Model &m) {
  if (e->op == X_CONST) return e->c;
  if (e->evEpoch == m.epoch) return e->evVal;
  u128 r;
  if (e->op == X_SYM) r = m.get(e->aux) & maskw(e->w);
  else if (e->op == X_ITE) r = evalE(e->k[0], m) ? evalE(e->k[1], m) : evalE(e->k[2], m);
  else {
    u128 a = evalE(e->k[0], m);
    u128 b = e->nk > 1 ? evalE(e->k[1], m) : 0;
    foldConst(e->op, e->w, a, b, e->k[0]->w, e->aux, r);
  }
  e->evEpoch = m.epoch;
  e->evVal = r;
  return r;
}

static const char *opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fsqrt","feq","flt","fle","funo","si2f","ui2f","f2si","f2ui","frnd","f32to64","f64to32"};
std::string exprStr(Expr *e, int depth) {
  char buf[64];
  if (e->op == X_CONST) { snprintf(buf, 64, "%lld:%d", (long long)(s64)sx(e->c, e->w), e->w); return buf; }
  if (e->op == X_SYM) return g_symNames[e->aux];
  if (depth <= 0) return "...";
  std::string s = "(";
  s += opn[e->op];
  if (e->op == X_EXTRACT) { snprintf(buf, 64, "[%u+%u]", e->aux, e->w); s += buf; }
  if (e->op == X_ZEXT || e->op == X_SEXT) { snprintf(buf, 64, "%u", e->w); s += buf; }
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
