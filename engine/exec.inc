// Execution core (included by main.cc).
static double g_t0 = 0;
static bool g_stop = false;
static std::string g_stopReason;

static std::string dem(const std::string &n) {
  // cheap demangle: _Z<len>name... or _ZN..; keep it readable and stable
  if (n.compare(0, 2, "_Z") == 0) {
    const char *p = n.c_str() + 2;
    if (*p == 'L') p++;
    int l = 0;
    while (*p >= '0' && *p <= '9') l = l * 10 + (*p++ - '0');
    if (l > 0 && (int)strlen(p) >= l) return std::string(p, l);
  }
  return n;
}

static std::string lineOf(Frame *f) {
  if (f->pc < f->f->insts.size()) {
    const Instruction *I = f->f->insts[f->pc].I;
    if (I && I->getDebugLoc()) return std::to_string(I->getDebugLoc().getLine());
  }
  return "?";
}
static std::string whereOf(State &S, std::string *trace = nullptr) {
  std::string w;
  for (size_t i = S.frames.size(); i-- > 0;) {
    Frame *f = S.frames[i].p;
    if (trace && trace->size() < 3000) {
      std::string base = f->f->file;
      auto q = base.rfind('/');
      if (q != std::string::npos) base = base.substr(q + 1);
      *trace += dem(f->f->name) + " (" + base + ":" + lineOf(f) + ")\n";
    }
    if (w.empty() && f->f->isRepo) w = dem(f->f->name);
  }
  if (w.empty()) w = "harness";
  return w;
}

static std::string hexv(u128 v, unsigned w) {
  char b[40];
  if (w > 64) snprintf(b, 40, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, 40, "%llx", (unsigned long long)v);
  return b;
}

static void record(State &S, const std::string &kind, const std::string &label, const std::string &detail, const ModelP &m) {
  std::string tr;
  std::string w = whereOf(S, &tr);
  std::string sig = kind + "|" + label + "|" + (kind == "assert-violated" ? "" : w);
  g_errCount[sig]++;
  auto &v = g_errs[sig];
  if (v.size() >= o_maxErrs) return;
  ErrRec r;
  r.kind = kind;
  r.label = label;
  r.where = w;
  r.detail = detail;
  r.trace = tr;
  for (size_t i = 0; i < S.syms.size(); i++)
    r.inputs.push_back({S.symNames[i], hexv(m->get(S.syms[i]) & maskw(g_symWidth[S.syms[i]]), g_symWidth[S.syms[i]])});
  v.push_back(r);
}

static Expr *rebuildOp(Expr *e, Expr *a, Expr *b, Expr *c) {
  switch (e->op) {
  case X_CONCAT: return mkConcat(a, b);
  case X_EXTRACT: return mkExtract(a, e->aux, e->w);
  case X_ZEXT: return mkZExt(a, e->w);
  case X_SEXT: return mkSExt(a, e->w);
  case X_ITE: return mkIte(a, b, c);
  case X_EQ: case X_ULT: case X_ULE: case X_SLT: case X_SLE: return mkCmp(e->op, a, b);
  case X_FADD: case X_FSUB: case X_FMUL: case X_FDIV: case X_FREM: case X_FEQ: case X_FLT: case X_FLE: case X_FUNO:
    return mkFBin(e->op, a, b);
  case X_FSQRT: case X_SI2F: case X_UI2F: case X_F2SI: case X_F2UI: case X_FRND: case X_F32TO64: case X_F64TO32:
    return mkFUn(e->op, a, e->w, e->aux);
  default: return mkBin(e->op, a, b);
  }
}
struct Simp {
  State &S;
  std::unordered_map<Expr *, Expr *> memo;
  std::unordered_map<Expr *, u64> kn;
  Simp(State &s) : S(s) { for (auto &p : S.known) kn[p.first] = p.second; }
  Expr *go(Expr *e) {
    if (!(e->mask & S.knownMask) || isC(e)) return e;
    auto k = kn.find(e);
    if (k != kn.end()) return mkConst(k->second, e->w);
    if (!e->nk) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr *a = go(e->k[0]), *b = e->nk > 1 ? go(e->k[1]) : nullptr, *c = e->nk > 2 ? go(e->k[2]) : nullptr;
    Expr *r = (a == e->k[0] && b == e->k[1] && c == e->k[2]) ? e : rebuildOp(e, a, b, c);
    memo[e] = r;
    return r;
  }
};
static Expr *simp(State &S, Expr *e) {
  if (isC(e) || !(e->mask & S.knownMask)) return e;
  if (e->cost > 4000) {
    for (auto &p : S.known) if (p.first == e) return mkConst(p.second, e->w);
    return e;
  }
  Simp s(S);
  Expr *r = s.go(e);
  if (!isC(r) && r != e) { auto k = s.kn.find(r); if (k != s.kn.end()) return mkConst(k->second, r->w); }
  return r;
}

static void learn(State &S, Expr *e, u64 v) {
  for (auto &p : S.known) if (p.first == e) return;
  S.known.push_back({e, v});
  S.knownMask |= e->mask;
}
static void addC(State &S, Expr *e) {
  if (isC(e)) return;
  if (e->op == X_AND && e->w == 1) { addC(S, e->k[0]); addC(S, e->k[1]); return; }
  for (Expr *x : S.pc) if (x == e) return;
  S.pc.push_back(e);
  learn(S, e, 1);
  if (e->op == X_XOR && isC(e->k[1])) learn(S, e->k[0], 0);
  else { Expr *ne = mkNot(e); if (!isC(ne)) learn(S, ne, 0); }
  if (e->op == X_EQ && isC(e->k[1]) && e->k[1]->w <= 64) learn(S, e->k[0], (u64)e->k[1]->c);
}

// 0 false only, 1 true only, 2 both (mo = model for the side the current model does not take)
static int decide(State &S, Expr *c, ModelP &mo) {
  if (isC(c)) return c->c ? 1 : 0;
  bool mv = evalE(c, *S.model) != 0;
  Expr *q = mv ? mkNot(c) : c;
  g_branchSym++;
  Res r = solve(S.pc, q, S.model, mo);
  if (r == R_UNSAT) return mv ? 1 : 0;
  if (r == R_UNKNOWN) {
    g_killed["solver-unknown"]++;
    addC(S, mv ? c : mkNot(c));
    return mv ? 1 : 0;
  }
  return 2;
}

static bool g_pathEnded;

// e rewritten as a zero extension of its low bits when the path shows it is not negative
static Expr *nonNegative(State &S, Expr *e) {
  unsigned w = e->w, n = signedWidth(e);
  if (isC(e) || w < 32 || n + 8 > w || unsignedWidth(e) < w) return e;
  ModelP mo;
  Expr *neg = simp(S, mkCmp(X_SLT, e, mkConst(0, w)));
  if (isC(neg) ? neg->c != 0 : (evalE(neg, *S.model) || solve(S.pc, neg, S.model, mo) != R_UNSAT)) return e;
  return mkZExt(mkExtract(e, 0, n < 2 ? 1 : n - 1), w);
}

// Report kind if `bad` is feasible; continue with !bad.  false: path ended.
static bool guard(State &S, Expr *bad, const char *kind, const char *detail) {
  bad = simp(S, bad);
  if (isC(bad) && !bad->c) return true;
  ModelP mo;
  int d = decide(S, bad, mo);
  if (d == 0) return true;
  bool mv = evalE(bad, *S.model) != 0;
  ModelP bm = mv ? S.model : mo;
  record(S, kind, "", detail, bm);
  if (d == 1) return false;
  addC(S, mkNot(bad));
  if (mv) S.model = mo;
  return true;
}

static bool killPath(State &S, const std::string &why) {
  g_killed[why]++;
  if (o_trace) { std::string t; whereOf(S, &t); fprintf(stderr, "[kill %s]\n%s", why.c_str(), t.c_str()); }
  return false;
}

// Make v concrete by forking over every feasible value.
static bool concretize(State &S, Val &v, unsigned w, const char *what) {
  if (!v.e) return true;
  Expr *e = simp(S, v.e);
  if (isC(e)) { v.e = nullptr; v.c = (u64)e->c; return true; }
  u64 val = (u64)evalE(e, *S.model);
  unsigned neq = 0;
  for (Expr *x : S.pc)
    if (x->op == X_XOR && x->k[0]->op == X_EQ && x->k[0]->k[0] == e && isC(x->k[0]->k[1])) neq++;
  Expr *eq = mkCmp(X_EQ, e, mkConst(val, e->w));
  ModelP mo;
  int d = decide(S, eq, mo);
  if (d == 2) {
    if (neq >= o_maxEnum) {
      g_killed[std::string("enum-cap:") + what]++;
    } else {
      State *n = new State(S);
      n->model = mo;
      addC(*n, mkNot(eq));
      work.push_back(n);
      g_forks++;
    }
  }
  addC(S, eq);
  learn(S, e, val);
  if (v.e != e && v.e->w <= 64) learn(S, v.e, val);
  v.e = nullptr;
  v.c = val;
  return true;
}

// does c hold here?  (forks when both outcomes are possible)
static bool branchOn(State &S, Expr *c) {
  c = simp(S, c);
  if (isC(c)) return c->c != 0;
  ModelP mo;
  bool mv = evalE(c, *S.model) != 0;
  int d = decide(S, c, mo);
  if (d == 2) {
    State *x = new State(S);
    x->model = mo;
    addC(*x, mv ? mkNot(c) : c);
    work.push_back(x);
    g_forks++;
  }
  addC(S, mv ? c : mkNot(c));
  return mv;
}

static bool failPath(State &S, const std::string &kind, const std::string &detail, const std::string &label = "") {
  record(S, kind, label, detail, S.model);
  return false;
}

static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

static bool badAccess(State &S, u64 a, u64 n, bool store) {
  uint8_t st = V_NONE;
  for (u64 i = 0; i < n; i++) {
    st = S.mem->stateAt(a + i);
    if (st == V_OK || (st == V_RO && !store) || (st == V_RZ && !store && n >= 4)) continue;
    std::string d = hexs(a) + "+" + std::to_string(n) + (store ? " (write)" : " (read)");
    if (a < 4096) return failPath(S, "null-deref", d);
    if (st == V_FREED) return failPath(S, "use-after-free", d);
    if (st == V_RO) return failPath(S, "write-to-constant", d);
    if (st == V_RZ) return failPath(S, "stack-buffer-overflow", d);
    return failPath(S, "invalid-access", d);
  }
  return true;
}

static inline bool stOK(Page *p, u64 o, u64 n, bool store) {
  const uint8_t *s = p->st + o;
  switch (n) {
  case 8: { u64 x; memcpy(&x, s, 8); if (x == 0x0101010101010101ull) return true; break; }
  case 4: { u32 x; memcpy(&x, s, 4); if (x == 0x01010101u) return true; break; }
  case 1: if (*s == V_OK) return true; break;
  }
  for (u64 i = 0; i < n; i++)
    if (!(s[i] == V_OK || (s[i] == V_RO && !store) || (s[i] == V_RZ && !store && n >= 4))) return false;
  return true;
}

// resolve a symbolic address
static bool resolveAddr(State &S, Val &a, u64 n, bool store) {
  if (!a.e) return true;
  Expr *e = simp(S, a.e);
  if (isC(e)) { a.e = nullptr; a.c = (u64)e->c; return true; }
  u64 cur = (u64)evalE(e, *S.model);
  if (S.mem->stateAt(cur) == V_OK || S.mem->stateAt(cur) == V_RO) {
    u64 lo = cur, hi = cur + 1;
    auto ok = [&](u64 x) { uint8_t s = S.mem->stateAt(x); return s == V_OK || s == V_RO; };
    while (cur - lo < 65536 && ok(lo - 1)) lo--;
    while (hi - cur < 65536 && ok(hi)) hi++;
    // outside [lo, hi-n] ?
    Expr *out = mkCmp(X_ULT, mkConst(hi - lo >= n ? hi - lo - n : 0, 64), mkBin(X_SUB, e, mkConst(lo, 64)));
    out = simp(S, out);
    if (!isC(out)) {
      ModelP mo;
      bool mv = evalE(out, *S.model) != 0;
      int d = decide(S, out, mo);
      if (d == 2) {
        State *x = new State(S);
        x->model = mo;
        addC(*x, mv ? mkNot(out) : out);
        work.push_back(x);
        g_forks++;
        addC(S, mv ? out : mkNot(out));
      }
    }
  }
  return concretize(S, a, 64, "address");
}

static bool readScalar(State &S, u64 a, unsigned w, Val &out) {
  u64 n = (w + 7) / 8;
  Page *p = S.mem->rd(a);
  u64 o = a % PGSZ;
  if (p && o + n <= PGSZ) {
    if (!stOK(p, o, n, false)) return badAccess(S, a, n, false);
    if (!p->sym && n <= 8) {
      u64 v = 0;
      memcpy(&v, p->data + o, n);
      out.e = nullptr;
      out.c = w == 64 ? v : v & (u64)maskw(w);
      return true;
    }
  } else if (!badAccess(S, a, n, false)) return false;
  bool any = false;
  uint8_t b[16];
  Expr *x[16];
  for (u64 i = 0; i < n; i++) {
    S.mem->rawByte(a + i, b[i], x[i]);
    if (x[i]) any = true;
  }
  if (!any && n <= 8) {
    u64 v = 0;
    memcpy(&v, b, n);
    out.e = nullptr;
    out.c = w == 64 ? v : v & (u64)maskw(w);
    return true;
  }
  Expr *r = nullptr;
  for (u64 i = 0; i < n; i++) {
    Expr *y = x[i] ? x[i] : mkConst(b[i], 8);
    r = r ? mkConcat(y, r) : y;
  }
  if (r->w != w) r = mkExtract(r, 0, w);
  out = fromE(r);
  return true;
}

static bool writeScalar(State &S, u64 a, unsigned w, const Val &v) {
  u64 n = (w + 7) / 8;
  Page *p = S.mem->rd(a);
  u64 o = a % PGSZ;
  if (p && o + n <= PGSZ) {
    if (!stOK(p, o, n, true)) return badAccess(S, a, n, true);
    if (!v.e && n <= 8) {
      p = S.mem->wr(a);
      memcpy(p->data + o, &v.c, n);
      if (p->sym) memset(p->sym + o, 0, n * sizeof(Expr *));
      return true;
    }
  } else if (!badAccess(S, a, n, true)) return false;
  if (!v.e) {
    for (u64 i = 0; i < n; i++) S.mem->putByte(a + i, (uint8_t)(v.c >> (8 * i)), nullptr);
    return true;
  }
  Expr *e = v.e;
  if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (u64 i = 0; i < n; i++) S.mem->putByte(a + i, 0, mkExtract(e, 8 * i, 8));
  return true;
}

static bool inStack(u64 a) { return a >= STACK_LIMIT && a < STACK_TOP; }

// does [a, a+n) span the boundary between two live activation records?
static bool spansFrames(State &S, u64 a, u64 n) {
  if (!inStack(a)) return false;
  for (size_t i = S.frames.size(); i-- > 0;) {
    u64 b = S.frames[i].p->spBase;
    if (b > a && b < a + n) return true;
    if (b >= a + n) break;
  }
  return false;
}
static bool copyBytes(State &S, u64 dst, u64 src, u64 n) {
  if (!n || dst == src) return true;
  if (n > (1u << 27)) return failPath(S, "invalid-access", "huge memcpy");
  bool dspan = n >= 64 && spansFrames(S, dst, n), exempt = dspan || (n >= 64 && spansFrames(S, src, n));
  if (!exempt) {
    for (u64 i = 0; i < n; i++) {
      uint8_t s1 = S.mem->stateAt(src + i);
      if (!(s1 == V_OK || s1 == V_RO)) return badAccess(S, src + i, 1, false);
      if (S.mem->stateAt(dst + i) != V_OK) return badAccess(S, dst + i, 1, true);
    }
  } else {
    for (u64 i = 0; i < n; i += 8) {
      if (!inStack(src)) { uint8_t s1 = S.mem->stateAt(src + i); if (s1 != V_OK && s1 != V_RO) return badAccess(S, src + i, 1, false); }
      if (!inStack(dst)) { if (S.mem->stateAt(dst + i) != V_OK) return badAccess(S, dst + i, 1, true); }
    }
    if (dspan) { S.stackRestoreLo = dst; S.stackRestoreHi = dst + n; }
  }
  std::vector<uint8_t> b(n);
  std::vector<Expr *> x;
  bool any = false;
  for (u64 i = 0; i < n;) {
    Page *p = S.mem->rd(src + i);
    u64 o = (src + i) % PGSZ, k = std::min(PGSZ - o, n - i);
    if (!p) { memset(&b[i], 0, k); i += k; continue; }
    memcpy(&b[i], p->data + o, k);
    if (p->sym)
      for (u64 j = 0; j < k; j++)
        if (p->sym[o + j]) {
          if (!any) { x.assign(n, nullptr); any = true; }
          x[i + j] = p->sym[o + j];
        }
    i += k;
  }
  for (u64 i = 0; i < n;) {
    Page *p = S.mem->wr(dst + i, true);
    u64 o = (dst + i) % PGSZ, k = std::min(PGSZ - o, n - i);
    memcpy(p->data + o, &b[i], k);
    if (any) {
      bool some = false;
      for (u64 j = 0; j < k; j++) if (x[i + j]) some = true;
      if (some && !p->sym) p->sym = (Expr **)calloc(PGSZ, sizeof(Expr *));
      if (p->sym) memcpy(p->sym + o, &x[i], k * sizeof(Expr *));
    } else if (p->sym) memset(p->sym + o, 0, k * sizeof(Expr *));
    i += k;
  }
  return true;
}

static u64 doMalloc(State &S, u64 n, uint8_t fill) {
  if (n > (64u << 20)) return 0;
  u64 base = (S.heapTop + 15) / 16 * 16 + 32;
  u64 end = base + n;
  if (end + 64 >= MMAP_BASE) return 0;
  S.heapTop = end + 32;
  S.mem->setState(base, n ? n : 1, n ? V_OK : V_NONE);
  if (n) S.mem->fill(base, n, fill);
  S.mem->wr(base - 16, true);
  S.mem->wr(base - 1, true);
  for (int i = 0; i < 8; i++) S.mem->putByte(base - 16 + i, (uint8_t)(n >> (8 * i)), nullptr);
  for (int i = 0; i < 8; i++) S.mem->putByte(base - 8 + i, (uint8_t)(0x5AFEC0DE5AFEC0DEull >> (8 * i)), nullptr);
  return base;
}
static bool chunkSize(State &S, u64 p, u64 &n) {
  u64 mg = 0;
  n = 0;
  if (p < HEAP_BASE || p >= S.heapTop) return false;
  for (int i = 0; i < 8; i++) {
    uint8_t b; Expr *e;
    if (!S.mem->rawByte(p - 8 + i, b, e)) return false;
    mg |= (u64)b << (8 * i);
    S.mem->rawByte(p - 16 + i, b, e);
    n |= (u64)b << (8 * i);
  }
  return mg == 0x5AFEC0DE5AFEC0DEull;
}
static bool doFree(State &S, u64 p) {
  if (!p) return true;
  u64 n;
  if (!chunkSize(S, p, n)) return failPath(S, "bad-free", hexs(p));
  uint8_t st = S.mem->stateAt(p);
  if (st == V_FREED) return failPath(S, "double-free", hexs(p));
  S.mem->setState(p, n ? n : 1, V_FREED);
  return true;
}

static bool cstrAt(State &S, u64 a, std::string &out) {
  for (int i = 0; i < 100000; i++) {
    uint8_t b; Expr *e;
    uint8_t st = S.mem->stateAt(a + i);
    if (!(st == V_OK || st == V_RO)) return false;
    S.mem->rawByte(a + i, b, e);
    if (e) b = (uint8_t)evalE(e, *S.model);
    if (!b) return true;
    out += (char)b;
  }
  return false;
}

static bool pushCall(State &S, KFunction *k, const std::vector<Val> &args, const KInst *ci) {
  if (!k->compiled) compileF(k);
  Frame *f = new Frame();
  f->f = k;
  f->regs.resize(k->nregs);
  f->spBase = S.sp;
  f->id = S.nextFrameId++;
  if (k->F->isVarArg() || k->hasByval) S.mem->setState(S.sp - 2048, 2048, V_RZ);
  S.sp -= 16 + 8 * 32;
  f->spill = S.sp + 16;
  S.mem->setState(S.sp, 16 + 8 * 32, V_OK);
  S.mem->fill(S.sp, 16 + 8 * 32, 0);
  f->allocas.push_back({S.sp, 16 + 8 * 32});
  if (S.sp < STACK_LIMIT + 65536) { delete f; return failPath(S, "stack-overflow", "call depth"); }
  unsigned np = k->argRegs.size();
  for (unsigned i = 0; i < np && i < args.size(); i++) {
    f->regs[k->argRegs[i]] = args[i];
    if (ci && ci->call->byval[i]) {
      u64 sz = ci->call->byval[i];
      S.sp = (S.sp - sz) & ~15ull;
      S.mem->setState(S.sp, sz, V_OK);
      S.mem->setState(S.sp - 16, 16, V_RZ);
      u64 d = S.sp;
      S.sp -= 16;
      f->allocas.push_back({d, (u32)sz});
      if (args[i].e || !copyBytes(S, d, args[i].c, sz)) { delete f; return killPath(S, "byval"); }
      f->regs[k->argRegs[i]].c = d;
    }
  }
  if (k->F->isVarArg() && args.size() > np) {
    u64 cnt = args.size() - np;
    S.sp = (S.sp - 8 * cnt - 16) & ~15ull;
    f->varargs = S.sp;
    S.mem->setState(S.sp, 8 * cnt, V_OK);
    S.mem->fill(S.sp, 8 * cnt, 0);
    f->allocas.push_back({S.sp, (u32)(8 * cnt)});
    for (u64 i = 0; i < cnt; i++) {
      unsigned w = ci->call->widths[np + i];
      if (w > 64) { delete f; return killPath(S, "wide vararg"); }
      writeScalar(S, f->varargs + 8 * i, w, args[np + i]);
    }
    S.sp -= 16;
  } else if (k->F->isVarArg()) f->varargs = S.sp;
  S.frames.push_back(FrameP(f));
  if (S.frames.size() > g_maxDepth) g_maxDepth = S.frames.size();
  if (S.frames.size() > 20000) return failPath(S, "stack-overflow", "call depth");
  if (g_symPhase) k->execCount++;
  return true;
}

static void takeEdge(State &S, Frame *f, int e) {
  Edge &E = f->f->edges[e];
  if (!E.moves.empty()) {
    if (E.moves.size() == 1) {
      int s = E.moves[0].second;
      f->regs[E.moves[0].first] = s >= 0 ? f->regs[s] : f->f->consts[-s - 1];
    } else {
      Val tmp[64];
      std::vector<Val> big;
      Val *t = tmp;
      if (E.moves.size() > 64) { big.resize(E.moves.size()); t = big.data(); }
      for (size_t i = 0; i < E.moves.size(); i++) {
        int s = E.moves[i].second;
        t[i] = s >= 0 ? f->regs[s] : f->f->consts[-s - 1];
      }
      for (size_t i = 0; i < E.moves.size(); i++) f->regs[E.moves[i].first] = t[i];
    }
  }
  f->pc = E.target;
}

static Expr *castE(unsigned opc, Expr *e, unsigned w) {
  switch (opc) {
  case Instruction::Trunc: return mkExtract(e, 0, w);
  case Instruction::ZExt: return mkZExt(e, w);
  case Instruction::SExt: return mkSExt(e, w);
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    return e->w == w ? e : e->w > w ? mkExtract(e, 0, w) : mkZExt(e, w);
  case Instruction::FPToSI: return mkFUn(X_F2SI, e, w, 0);
  case Instruction::FPToUI: return mkFUn(X_F2UI, e, w, 0);
  case Instruction::SIToFP: return mkFUn(X_SI2F, e, w, 0);
  case Instruction::UIToFP: return mkFUn(X_UI2F, e, w, 0);
  case Instruction::FPExt: return mkFUn(X_F32TO64, e, w, 0);
  case Instruction::FPTrunc: return mkFUn(X_F64TO32, e, w, 0);
  }
  return e;
}

static void finishPath(State &S, const char *how);
static void addObs(State &S, const std::string &label, int kind, std::vector<Val> v, unsigned w) {
  Obs o;
  o.label = label;
  o.kind = kind;
  o.v = std::move(v);
  o.w = w;
  S.obs.push_back(std::move(o));
}

static int selectHarness(State &S, u64 table, u64 n);

static bool spillAll(State &S) {
  // make SSA values that are live across the pending calls visible in memory
  for (auto &fp : S.frames) {
    Frame *f = fp.p;
    if (f->pc >= f->f->insts.size() || f->f->insts[f->pc].op != K_CALL) continue;
    const std::vector<int> &lv = liveAt(f->f, f->pc);
    u64 a = f->spill;
    int cnt = 0;
    for (int r : lv) {
      if (cnt >= 32) break;
      Val v = f->regs[r];
      for (int i = 0; i < 8; i++) {
        if (v.e) S.mem->putByte(a + i, 0, mkExtract(v.e, 8 * i, 8));
        else S.mem->putByte(a + i, (uint8_t)(v.c >> (8 * i)), nullptr);
      }
      a += 8;
      cnt++;
    }
    for (; cnt < 32; cnt++, a += 8) S.mem->fill(a, 8, 0);
  }
  return true;
}

static KFunction *slowFn(const char *n) {
  static std::map<std::string, KFunction *> c;
  auto it = c.find(n);
  if (it != c.end()) return it->second;
  KFunction *r = nullptr;
  for (auto *k : g_funcs) if (k->name == n) r = k;
  return c[n] = r;
}

// builtin result: 0 = path ended, 1 = done (value in ret), 2 = control transferred (frame pushed or jumped)
static int builtin(State &S, Frame *f, const KInst &k, KFunction *fn, std::vector<Val> &a, Val &ret) {
  int b = fn->builtin;
  auto conc = [&](int i, const char *w) { return concretize(S, a[i], 64, w); };
  ret = Val();
  const u64 HUGE_ = 1ull << 40;
  // a symbolic size: beyond 1 TB (the allocation fails), up to 64 KB (every value), or neither (outside the bounds)
  // returns 0 = path ended, 1 = concrete, 2 = huge
  auto allocSize = [&](int i) -> int {
    if (!a[i].e) return a[i].c > HUGE_ ? 2 : 1;
    Expr *e = a[i].e;
    if (branchOn(S, mkCmp(X_ULT, mkConst(HUGE_, 64), e))) return 2;
    if (branchOn(S, mkCmp(X_ULT, mkConst(65536, 64), e))) { killPath(S, "alloc-64K-1T"); return 0; }
    return conc(i, "alloc-size") ? 1 : 0;
  };
  switch (b) {
  case B_MALLOC: case B_NEW: {
    int z = allocSize(0);
    if (!z) return 0;
    if (z == 2) {
      if (b == B_NEW) return failPath(S, "uncaught-exception", "operator new: bad_alloc");
      ret.c = 0; return 1;
    }
    ret.c = doMalloc(S, a[0].c, 0xBE);
    if (!ret.c && b == B_NEW) return killPath(S, "alloc-too-large");
    if (!ret.c) return killPath(S, "alloc-too-large");
    return 1;
  }
  case B_CALLOC: {
    int z = allocSize(0);
    if (!z) return 0;
    int y = allocSize(1);
    if (!y) return 0;
    if (z == 2 || y == 2) { ret.c = 0; return 1; }
    if ((u128)a[0].c * a[1].c > (64u << 20)) { ret.c = 0; if ((u128)a[0].c * a[1].c < ((u128)1 << 40)) return killPath(S, "alloc-too-large"); return 1; }
    ret.c = doMalloc(S, a[0].c * a[1].c, 0);
    return 1;
  }
  case B_REALLOC: {
    if (!conc(0, "ptr")) return 0;
    int z = allocSize(1);
    if (!z) return 0;
    if (z == 2) { ret.c = 0; return 1; }
    if (!a[0].c) { ret.c = doMalloc(S, a[1].c, 0xBE); return 1; }
    u64 n;
    if (!chunkSize(S, a[0].c, n) || S.mem->stateAt(a[0].c) == V_FREED) return failPath(S, "bad-free", "realloc");
    u64 p = doMalloc(S, a[1].c, 0xBE);
    if (!p) return killPath(S, "alloc-too-large");
    if (!copyBytes(S, p, a[0].c, std::min(n, a[1].c))) return 0;
    if (!doFree(S, a[0].c)) return 0;
    ret.c = p;
    return 1;
  }
  case B_FREE:
    if (!conc(0, "ptr")) return 0;
    return doFree(S, a[0].c);
  case B_MEMCPY:
    if (!resolveAddr(S, a[0], 1, true) || !resolveAddr(S, a[1], 1, false) || !conc(2, "memcpy-size")) return 0;
    if (!copyBytes(S, a[0].c, a[1].c, a[2].c)) return 0;
    ret = a[0];
    return 1;
  case B_MEMSET: {
    if (!resolveAddr(S, a[0], 1, true) || !conc(2, "memset-size")) return 0;
    u64 n = a[2].c;
    if (n > (1u << 27)) return failPath(S, "invalid-access", "huge memset");
    for (u64 i = 0; i < n; i++) {
      Page *p = S.mem->rd(a[0].c + i);
      u64 o = (a[0].c + i) % PGSZ;
      if (!p || p->st[o] != V_OK) return badAccess(S, a[0].c + i, 1, true);
    }
    if (a[1].e) {
      Expr *e = mkExtract(a[1].e, 0, 8);
      for (u64 i = 0; i < n; i++) S.mem->putByte(a[0].c + i, 0, e);
    } else S.mem->fill(a[0].c, n, (uint8_t)a[1].c);
    ret = a[0];
    return 1;
  }
  case B_MEMCMP: case B_STRLEN: case B_STRCMP: case B_STRNCMP: case B_STRCHR: {
    bool slow = false;
    for (auto &v : a) if (v.e) slow = true;
    if (!slow) {
      auto get = [&](u64 p, uint8_t &v) -> int {  // 1 ok, 0 slow, -1 invalid
        Page *pg = S.mem->rd(p);
        if (!pg) return -1;
        u64 o = p % PGSZ;
        uint8_t st = pg->st[o];
        if (st != V_OK && st != V_RO) return -1;
        if (pg->sym && pg->sym[o]) return 0;
        v = pg->data[o];
        return 1;
      };
      uint8_t x, y;
      if (b == B_STRLEN) {
        for (u64 i = 0;; i++) {
          int r = get(a[0].c + i, x);
          if (r < 0) return badAccess(S, a[0].c + i, 1, false);
          if (!r) { slow = true; break; }
          if (!x) { ret.c = i; return 1; }
        }
      } else if (b == B_STRCHR) {
        for (u64 i = 0;; i++) {
          int r = get(a[0].c + i, x);
          if (r < 0) return badAccess(S, a[0].c + i, 1, false);
          if (!r) { slow = true; break; }
          if (x == (uint8_t)a[1].c) { ret.c = a[0].c + i; return 1; }
          if (!x) { ret.c = 0; return 1; }
        }
      } else {
        u64 lim = b == B_STRCMP ? ~0ull : a[2].c;
        u64 i = 0;
        for (; i < lim; i++) {
          int r = get(a[0].c + i, x);
          if (r < 0) return badAccess(S, a[0].c + i, 1, false);
          int q = get(a[1].c + i, y);
          if (q < 0) return badAccess(S, a[1].c + i, 1, false);
          if (!r || !q) { slow = true; break; }
          if (x != y) { ret.c = (u32)((int)x - (int)y); return 1; }
          if (b != B_MEMCMP && !x) { ret.c = 0; return 1; }
        }
        if (!slow) { ret.c = 0; return 1; }
      }
    }
    const char *nm = b == B_MEMCMP ? "sx_slow_memcmp" : b == B_STRLEN ? "sx_slow_strlen" : b == B_STRCMP ? "sx_slow_strcmp" : b == B_STRNCMP ? "sx_slow_strncmp" : "sx_slow_strchr";
    KFunction *sf = slowFn(nm);
    if (!sf) return killPath(S, std::string("no ") + nm);
    return pushCall(S, sf, a, nullptr) ? 2 : 0;
  }
  case B_SETJMP: {
    if (!conc(0, "ptr")) return 0;
    spillAll(S);
    auto js = std::make_shared<JmpSnap>();
    js->frames = S.frames;
    js->sp = S.sp;
    js->frameId = S.frames.back().p->id;
    u64 id = S.nextJmp++;
    S.jmps[id] = js;
    Val v;
    v.c = id;
    if (!writeScalar(S, a[0].c, 64, v)) return 0;
    v.c = 0x4A4D50u;
    if (!writeScalar(S, a[0].c + 8, 64, v)) return 0;
    ret.c = 0;
    // setjmp buffers accumulate; drop snapshots whose frame is gone is unsafe for continuations, so keep
    return 1;
  }
  case B_LONGJMP: {
    if (!conc(0, "ptr")) return 0;
    Val id, mg;
    if (!readScalar(S, a[0].c, 64, id) || !readScalar(S, a[0].c + 8, 64, mg)) return 0;
    if (id.e || mg.c != 0x4A4D50u || !S.jmps.count(id.c)) return failPath(S, "bad-longjmp", "jump buffer not set by setjmp");
    auto js = S.jmps[id.c];
    bool prefix = js->frames.size() <= S.frames.size();
    if (prefix)
      for (size_t i = 0; i < js->frames.size(); i++)
        if (js->frames[i].p->id != S.frames[i].p->id) { prefix = false; break; }
    bool restored = S.stackRestoreLo <= js->sp + 4096 && S.stackRestoreHi > js->sp;
    if (restored) {
      // activations inside the restored byte range get their captured registers,
      // activations above it are whatever is on the stack now
      std::vector<FrameP> nf = js->frames;
      for (size_t i = 0; i < nf.size(); i++) {
        u64 low = i + 1 < nf.size() ? nf[i + 1].p->spBase : js->sp;
        if (low >= S.stackRestoreHi && i < S.frames.size() && S.frames[i].p->f == nf[i].p->f) nf[i] = S.frames[i];
      }
      S.frames = nf;
      S.mem->setState(js->sp, STACK_TOP - 4096 - js->sp, V_RZ);
      for (auto &fp : S.frames) for (auto &al : fp.p->allocas) S.mem->setState(al.first, al.second, V_OK);
      S.stackRestoreLo = ~0ull; S.stackRestoreHi = 0;
    } else if (prefix) {
      // same activations: callers keep their current registers; the setjmp frame goes back to the call
      std::vector<FrameP> nf(S.frames.begin(), S.frames.begin() + js->frames.size());
      nf.back() = js->frames.back();
      S.frames = nf;
    } else return failPath(S, "dead-longjmp", "longjmp into a frame that has returned");
    S.sp = js->sp;
    // resume after the setjmp call with the value
    Frame *t = S.top();
    KInst &ck = t->f->insts[t->pc];
    Val v = a[1];
    if (!v.e && (u32)v.c == 0) v.c = 1;
    v.c = (u32)v.c;
    if (ck.dst >= 0) t->regs[ck.dst] = v;
    if (ck.call && ck.call->edge >= 0) takeEdge(S, t, ck.call->edge);
    else t->pc++;
    return 2;
  }
  case B_ABORT: return failPath(S, "abort", "abort() called");
  case B_ASSERTFAIL: {
    std::string s;
    cstrAt(S, a[0].c, s);
    return failPath(S, "assert-abort", s, s);
  }
  case B_THROW: return failPath(S, "cxx-throw", fn->name);
  case B_EXIT: {
    if (S.hasExpectExit) {
      Expr *bad = mkNot(mkCmp(X_EQ, mkExtract(toE(a[0], 32), 0, 8), mkExtract(toE(S.expectExitV, 32), 0, 8)));
      if (!guard(S, bad, "wrong-exit-code", "exit status differs from the expected one")) return 0;
      addObs(S, "exit", 0, {a[0]}, 32);
      finishPath(S, "exit");
      return 0;
    }
    return failPath(S, "exit", "process exit called");
  }
  case B_MMAP: {
    if (!conc(1, "mmap-size")) return 0;
    u64 n = (a[1].c + 65535) & ~65535ull;
    if (S.mem->mmapTop + n > 0xE0000000ull) { ret.c = ~0ull; return 1; }
    ret.c = S.mem->mmapTop;
    S.mem->mmapTop += n + 65536;
    return 1;
  }
  case B_MUNMAP: ret.c = 0; return 1;
  case B_SYSCONF: ret.c = 4096; return 1;
  case B_ZERO: ret.c = 0; return 1;
  case B_MATH1: {
    const std::string &nm = fn->name;
    if (a[0].e) {
      Expr *e = simp(S, a[0].e);
      static const std::map<std::string, int> rm = {{"floor", 0}, {"ceil", 1}, {"trunc", 2}, {"rint", 3}, {"nearbyint", 3}, {"round", 4}};
      if (nm == "sqrt") { ret = fromE(mkFUn(X_FSQRT, e, 64, 0)); return 1; }
      if (nm == "fabs") { ret = fromE(mkBin(X_AND, e, mkConst(0x7fffffffffffffffull, 64))); return 1; }
      auto it = rm.find(nm);
      if (it != rm.end()) { ret = fromE(mkFUn(X_FRND, e, 64, it->second)); return 1; }
      a[0].e = nullptr;
      a[0].c = (u64)evalE(e, *S.model);
      addC(S, mkCmp(X_EQ, e, mkConst(a[0].c, 64)));
      S.concretized = true;
      g_killed["concretized:" + nm]++;
    }
    double d, r = 0;
    memcpy(&d, &a[0].c, 8);
    if (nm == "sqrt") r = sqrt(d); else if (nm == "floor") r = floor(d); else if (nm == "ceil") r = ceil(d);
    else if (nm == "trunc") r = trunc(d); else if (nm == "round") r = round(d); else if (nm == "rint" || nm == "nearbyint") r = rint(d);
    else if (nm == "fabs") r = fabs(d); else if (nm == "exp") r = exp(d); else if (nm == "log") r = log(d);
    else if (nm == "sin") r = sin(d); else if (nm == "cos") r = cos(d); else if (nm == "tan") r = tan(d);
    else if (nm == "asin") r = asin(d); else if (nm == "acos") r = acos(d); else if (nm == "atan") r = atan(d);
    else if (nm == "log2") r = log2(d); else if (nm == "log10") r = log10(d); else if (nm == "exp2") r = exp2(d); else r = cbrt(d);
    memcpy(&ret.c, &r, 8);
    return 1;
  }
  case B_MATH2: {
    for (int i = 0; i < 2; i++)
      if (a[i].e) {
        Expr *e = simp(S, a[i].e);
        a[i].e = nullptr;
        a[i].c = (u64)evalE(e, *S.model);
        if (!isC(e)) { addC(S, mkCmp(X_EQ, e, mkConst(a[i].c, 64))); S.concretized = true; g_killed["concretized:" + fn->name]++; }
      }
    double x, y, r = 0;
    memcpy(&x, &a[0].c, 8);
    memcpy(&y, &a[1].c, 8);
    const std::string &nm = fn->name;
    if (nm == "pow") r = pow(x, y); else if (nm == "fmod") r = fmod(x, y); else if (nm == "atan2") r = atan2(x, y);
    else if (nm == "fmin") r = fmin(x, y); else if (nm == "fmax") r = fmax(x, y); else r = hypot(x, y);
    memcpy(&ret.c, &r, 8);
    return 1;
  }
  case B_SX_SYM: {
    std::string nm;
    cstrAt(S, a[2].c, nm);
    u64 n = a[1].c;
    if (n <= 8) {
      Expr *s = mkSym(nm, n * 8);
      S.syms.push_back(s->aux);
      S.symNames.push_back(nm);
      Val v;
      v.e = s;
      return writeScalar(S, a[0].c, n * 8, v);
    }
    for (u64 i = 0; i < n; i++) {
      Expr *s = mkSym(nm + "[" + std::to_string(i) + "]", 8);
      S.syms.push_back(s->aux);
      S.symNames.push_back(nm + "[" + std::to_string(i) + "]");
      Val v;
      v.e = s;
      if (!writeScalar(S, a[0].c + i, 8, v)) return 0;
    }
    return 1;
  }
  case B_SX_CHOOSE: {
    std::string nm;
    cstrAt(S, a[1].c, nm);
    Expr *s = mkSym(nm, 32);
    S.syms.push_back(s->aux);
    S.symNames.push_back(nm);
    addC(S, mkCmp(X_ULT, s, mkConst((u32)a[0].c, 32)));
    // every value is feasible: fork directly
    u64 n = (u32)a[0].c;
    std::vector<State *> kids;
    for (u64 v = n; v-- > 1;) {
      State *x = new State(S);
      auto m = std::make_shared<Model>();
      m->v = S.model->v;
      if (m->v.size() <= s->aux) m->v.resize(s->aux + 1, 0);
      m->v[s->aux] = v;
      x->model = m;
      addC(*x, mkCmp(X_EQ, s, mkConst(v, 32)));
      Frame *xf = x->top();
      if (k.dst >= 0) { xf->regs[k.dst] = Val(); xf->regs[k.dst].c = v; }
      xf->pc++;
      work.push_back(x);
      g_forks++;
    }
    addC(S, mkCmp(X_EQ, s, mkConst(0, 32)));
    {
      auto m = std::make_shared<Model>();
      m->v = S.model->v;
      if (m->v.size() <= s->aux) m->v.resize(s->aux + 1, 0);
      m->v[s->aux] = 0;
      S.model = m;
    }
    ret.c = 0;
    return 1;
  }
  case B_SX_ASSUME: {
    Expr *c = toE(a[0], 64);
    c = simp(S, mkNot(mkCmp(X_EQ, c, mkConst(0, 64))));
    if (isC(c)) { if (!c->c) g_assumeFail++; return c->c ? 1 : 0; }
    if (evalE(c, *S.model)) { addC(S, c); return 1; }
    ModelP m;
    Res r = solve(S.pc, c, S.model, m);
    if (r == R_UNSAT) { g_assumeFail++; return 0; }
    if (r == R_UNKNOWN) return killPath(S, "solver-unknown-assume");
    S.model = m;
    addC(S, c);
    return 1;
  }
  case B_SX_ASSERT: {
    std::string lab;
    cstrAt(S, a[1].c, lab);
    auto &st = g_asserts[lab];
    st.checks++;
    Expr *c = toE(a[0], 64);
    c = simp(S, mkNot(mkCmp(X_EQ, c, mkConst(0, 64))));
    if (isC(c)) {
      if (c->c) { st.trivial++; return 1; }
      st.violated++;
      record(S, "assert-violated", lab, "holds for every value on this path", S.model);
      return 0;
    }
    Expr *nc = mkNot(c);
    ModelP m;
    Res r = evalE(nc, *S.model) ? (m = S.model, R_SAT) : solve(S.pc, nc, S.model, m);
    if (r == R_UNSAT) { st.proved++; return 1; }
    if (r == R_UNKNOWN) { if (getenv("SX_DEBUGQ")) fprintf(stderr, "UNKNOWN %s: %s\n", lab.c_str(), exprStr(c, 12).c_str()); st.unknown++; g_killed["assert-unknown:" + lab]++; addC(S, c); return 1; }
    st.violated++;
    record(S, "assert-violated", lab, exprStr(c, 5), m);
    // continue with the assertion assumed
    if (!evalE(c, *S.model)) {
      ModelP m2;
      if (solve(S.pc, c, S.model, m2) != R_SAT) return 0;
      S.model = m2;
    }
    addC(S, c);
    return 1;
  }
  case B_SX_REACH: {
    std::string lab;
    cstrAt(S, a[0].c, lab);
    g_reach[lab]++;
    S.reach.push_back(lab);
    return 1;
  }
  case B_SX_SELECT: {
    int idx = selectHarness(S, a[0].c, a[1].c);
    ret.c = (u64)idx;
    return 1;
  }
  case B_SX_CONC:
    if (!conc(0, "sx_conc")) return 0;
    ret = a[0];
    return 1;
  case B_SX_OBS: {
    std::string lab;
    cstrAt(S, a[0].c, lab);
    addObs(S, lab, 0, {a[1]}, 64);
    return 1;
  }
  case B_SX_OBSB: {
    std::string lab;
    cstrAt(S, a[0].c, lab);
    if (!conc(2, "obs-size")) return 0;
    std::vector<Val> v;
    for (u64 i = 0; i < a[2].c; i++) {
      Val x;
      if (!readScalar(S, a[1].c + i, 8, x)) return 0;
      v.push_back(x);
    }
    addObs(S, lab, 1, v, 8);
    return 1;
  }
  case B_FMTDBL: {  // (buf, cap, fmt, bits) -> length
    Val v = a[3];
    if (v.e) {
      Expr *e = simp(S, v.e);
      v.c = (u64)evalE(e, *S.model);
      v.e = nullptr;
      if (!isC(e)) { addC(S, mkCmp(X_EQ, e, mkConst(v.c, 64))); S.concretized = true; g_killed["concretized:printf-double"]++; }
    }
    std::string fmt;
    cstrAt(S, a[2].c, fmt);
    double d;
    memcpy(&d, &v.c, 8);
    char tmp[512];
    int n = snprintf(tmp, sizeof tmp, fmt.c_str(), d);
    for (int i = 0; i <= n; i++) { Val x; x.c = (uint8_t)tmp[i]; if (!writeScalar(S, a[0].c + i, 8, x)) return 0; }
    ret.c = (u32)n;
    return 1;
  }
  case B_SX_STRTOD: {
    std::string s;
    for (int i = 0; i < 400; i++) {
      Val x;
      if (!readScalar(S, a[0].c + i, 8, x)) return 0;
      if (x.e && !concretize(S, x, 8, "strtod")) return 0;
      if (!x.c) break;
      s += (char)x.c;
    }
    char *end;
    double d = strtod(s.c_str(), &end);
    memcpy(&ret.c, &d, 8);
    Val x;
    x.c = a[0].c + (end - s.c_str());
    if (a[1].c && !writeScalar(S, a[1].c, 64, x)) return 0;
    return 1;
  }
  case B_SX_EXPEXIT: S.hasExpectExit = true; S.expectExitV = a[0]; return 1;
  case B_SX_PARAM: {
    std::string s;
    cstrAt(S, a[0].c, s);
    auto it = o_params.find(s);
    ret.c = it == o_params.end() ? a[1].c : (u64)it->second;
    return 1;
  }
  case B_SX_ISSYM: ret.c = a[0].e ? 1 : 0; return 1;
  case B_SX_ANYSYM: {
    ret.c = 0;
    for (u64 i = 0; i < a[1].c; i++) { uint8_t bb; Expr *e; if (S.mem->rawByte(a[0].c + i, bb, e) && e) ret.c = 1; }
    return 1;
  }
  case B_SX_KILL: { std::string s; cstrAt(S, a[0].c, s); return killPath(S, "harness:" + s); }
  case B_SX_HREAD: {  // engine self-test only
    std::ifstream hf(o_hostfile, std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(hf)), std::istreambuf_iterator<char>());
    for (size_t i = 0; i < d.size() && i < a[1].c; i++) { Val x; x.c = (uint8_t)d[i]; if (!writeScalar(S, a[0].c + i, 8, x)) return 0; }
    ret.c = d.size();
    return 1;
  }
  case B_SX_HWRITE: {
    for (u64 i = 0; i < a[1].c; i++) { Val x; if (!readScalar(S, a[0].c + i, 8, x)) return 0; fputc((int)x.c, stdout); }
    fflush(stdout);
    return 1;
  }
  case B_SX_LABEL: { std::string s; cstrAt(S, a[0].c, s); S.curLabel = s; return 1; }
  case B_SX_PRINT: {
    std::string s;
    cstrAt(S, a[0].c, s);
    if (o_trace || getenv("SXE_PRINT")) fprintf(stderr, "[p] %s %s\n", s.c_str(), a[1].e ? exprStr(a[1].e).c_str() : std::to_string((s64)a[1].c).c_str());
    return 1;
  }
  default: break;
  }
  if (b >= B_INTRIN_FIRST) {
    unsigned id = b - B_INTRIN_FIRST;
    unsigned w = k.call->widths.empty() ? 0 : k.call->widths[0];
    bool sym = false;
    for (auto &v : a) if (v.e) sym = true;
    Expr *x = nullptr, *y = nullptr;
    if (a.size() > 0 && w) x = toE(a[0], w);
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      if (!resolveAddr(S, a[0], 1, true) || !resolveAddr(S, a[1], 1, false) || !conc(2, "memcpy-size")) return 0;
      return copyBytes(S, a[0].c, a[1].c, a[2].c);
    }
    case Intrinsic::memset: {
      KFunction t = *fn;
      t.builtin = B_MEMSET;
      return builtin(S, f, k, &t, a, ret);
    }
    case Intrinsic::vastart: {
      if (!conc(0, "va")) return 0;
      Val v;
      v.c = 48;
      if (!writeScalar(S, a[0].c, 32, v)) return 0;
      v.c = 304;
      if (!writeScalar(S, a[0].c + 4, 32, v)) return 0;
      v.c = f->varargs;
      if (!writeScalar(S, a[0].c + 8, 64, v)) return 0;
      v.c = 0;
      return writeScalar(S, a[0].c + 16, 64, v);
    }
    case Intrinsic::vacopy: return copyBytes(S, a[0].c, a[1].c, 24);
    case Intrinsic::vaend: return 1;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return failPath(S, "trap", "trap instruction");
    case Intrinsic::expect: case Intrinsic::expect_with_probability: ret = a[0]; return 1;
    case Intrinsic::is_constant: ret.c = 0; return 1;
    case Intrinsic::objectsize: ret.c = ~0ull; return 1;
    case Intrinsic::stacksave: ret.c = S.sp; return 1;
    case Intrinsic::stackrestore: return 1;
    case Intrinsic::frameaddress: ret.c = f->spill; return 1;
    case Intrinsic::returnaddress: ret.c = 0; return 1;
    case Intrinsic::eh_typeid_for: ret.c = 1; return 1;
    case Intrinsic::fabs: ret = fromE(mkBin(X_AND, x, mkConst(w == 64 ? 0x7fffffffffffffffull : 0x7fffffffu, w))); return 1;
    case Intrinsic::sqrt: ret = fromE(mkFUn(X_FSQRT, x, w, 0)); return 1;
    case Intrinsic::floor: ret = fromE(mkFUn(X_FRND, x, w, 0)); return 1;
    case Intrinsic::ceil: ret = fromE(mkFUn(X_FRND, x, w, 1)); return 1;
    case Intrinsic::trunc: ret = fromE(mkFUn(X_FRND, x, w, 2)); return 1;
    case Intrinsic::rint: case Intrinsic::nearbyint: ret = fromE(mkFUn(X_FRND, x, w, 3)); return 1;
    case Intrinsic::round: ret = fromE(mkFUn(X_FRND, x, w, 4)); return 1;
    case Intrinsic::fmuladd: case Intrinsic::fma: ret = fromE(mkFBin(X_FADD, mkFBin(X_FMUL, x, toE(a[1], w)), toE(a[2], w))); return 1;
    case Intrinsic::copysign: {
      u128 sb = (u128)1 << (w - 1);
      ret = fromE(mkBin(X_OR, mkBin(X_AND, x, mkConst(sb - 1, w)), mkBin(X_AND, toE(a[1], w), mkConst(sb, w))));
      return 1;
    }
    case Intrinsic::abs: y = mkBin(X_SUB, mkConst(0, w), x); ret = fromE(mkIte(mkCmp(X_SLT, x, mkConst(0, w)), y, x)); return 1;
    case Intrinsic::smax: y = toE(a[1], w); ret = fromE(mkIte(mkCmp(X_SLT, x, y), y, x)); return 1;
    case Intrinsic::smin: y = toE(a[1], w); ret = fromE(mkIte(mkCmp(X_SLT, x, y), x, y)); return 1;
    case Intrinsic::umax: y = toE(a[1], w); ret = fromE(mkIte(mkCmp(X_ULT, x, y), y, x)); return 1;
    case Intrinsic::umin: y = toE(a[1], w); ret = fromE(mkIte(mkCmp(X_ULT, x, y), x, y)); return 1;
    case Intrinsic::bswap: {
      Expr *r = mkExtract(x, 0, 8);
      for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
      ret = fromE(r);
      return 1;
    }
    case Intrinsic::ctpop: {
      Expr *r = mkConst(0, w);
      for (unsigned i = 0; i < w; i++) r = mkBin(X_ADD, r, mkZExt(mkExtract(x, i, 1), w));
      ret = fromE(r);
      return 1;
    }
    case Intrinsic::ctlz: {
      Expr *r = mkConst(w, w);
      for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r);
      ret = fromE(r);
      return 1;
    }
    case Intrinsic::cttz: {
      Expr *r = mkConst(w, w);
      for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r);
      ret = fromE(r);
      return 1;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      y = toE(a[1], w);
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow;
      Op op = mul ? X_MUL : (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? X_ADD : X_SUB;
      unsigned W = mul ? 2 * w : w + 2;
      if (W > 128) return killPath(S, "wide overflow intrinsic");
      Expr *r = mkBin(op, x, y);
      Expr *X = sg ? mkSExt(x, W) : mkZExt(x, W), *Y = sg ? mkSExt(y, W) : mkZExt(y, W);
      Expr *R = mkBin(op, X, Y);
      Expr *ov = mkNot(mkCmp(X_EQ, R, sg ? mkSExt(r, W) : mkZExt(r, W)));
      Frame *t = S.top();
      t->regs[k.dst] = fromE(r);
      t->regs[k.dst + 1] = fromE(ov);
      t->pc++;
      return 2;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      y = toE(a[1], w);
      Expr *sh = mkBin(X_UREM, toE(a[2], w), mkConst(w, w));
      Expr *wide = mkConcat(x, y);
      Expr *s2 = mkZExt(sh, 2 * w);
      ret = id == Intrinsic::fshl ? fromE(mkExtract(mkBin(X_SHL, wide, s2), w, w)) : fromE(mkExtract(mkBin(X_LSHR, wide, s2), 0, w));
      return 1;
    }
    default: break;
    }
    (void)sym;
    return killPath(S, "intrinsic:" + fn->name);
  }
  return killPath(S, "external:" + fn->name);
}

#define OPV(x) ((x) >= 0 ? regs[x] : F->consts[-(x)-1])

// Execute until the path ends.  The state is owned by the caller.
static void runState(State *Sp) {
  State &S = *Sp;
  Frame *f = S.top();
  KFunction *F = f->f;
  Val *regs = f->regs.data();
  u64 tick = 0;
#define REFRESH() do { f = S.top(); F = f->f; regs = f->regs.data(); } while (0)
  for (;;) {
    KInst &k = F->insts[f->pc];
    S.instrs++;
    if ((++tick & 0xfffff) == 0) {
      if (g_symPhase) {
        if (now() - g_t0 > o_timeout) { g_stop = true; g_stopReason = "time"; g_killed["time-budget"]++; return; }
        if (g_pagesAlive * sizeof(Page) > o_memMB * 1000000ull) { g_stop = true; g_stopReason = "memory"; g_killed["memory-budget"]++; return; }
      }
    }
    if (g_symPhase && S.instrs > o_maxInstr) { failPath(S, "step-limit", "instruction budget exhausted (possible non-termination)"); return; }
    switch (k.op) {
    case K_BIN: {
      const Val &a = OPV(k.a), &b = OPV(k.b);
      if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, r = 0;
        unsigned w = k.w;
        switch (k.sub) {
        case X_ADD: r = x + y; break;
        case X_SUB: r = x - y; break;
        case X_MUL: r = x * y; break;
        case X_AND: r = x & y; break;
        case X_OR: r = x | y; break;
        case X_XOR: r = x ^ y; break;
        case X_SHL: y &= (w == 64 ? 63 : 31); r = y >= w ? 0 : x << y; break;
        case X_LSHR: y &= (w == 64 ? 63 : 31); r = y >= w ? 0 : x >> y; break;
        case X_ASHR: { y &= (w == 64 ? 63 : 31); s64 sv = (s64)sx(x, w); r = (u64)(sv >> (y > 63 ? 63 : y)); break; }
        default: {
          if (y == 0) { failPath(S, "div-by-zero", "integer division by zero"); return; }
          if (k.sub == X_UDIV) r = x / y;
          else if (k.sub == X_UREM) r = x % y;
          else {
            s64 sa = (s64)sx(x, w), sb = (s64)sx(y, w);
            if (sb == -1) {
              if (sa == (s64)sx((u64)1 << (w - 1), w) && w >= 32) { failPath(S, "div-overflow", "signed division overflow"); return; }
              r = k.sub == X_SDIV ? (u64)-sa : 0;
            } else r = k.sub == X_SDIV ? (u64)(sa / sb) : (u64)(sa % sb);
          }
        }
        }
        regs[k.dst].e = nullptr;
        regs[k.dst].c = w == 64 ? r : r & (u64)maskw(w);
      } else {
        Expr *x = toE(a, k.w), *y = toE(b, k.w);
        if (k.sub >= X_UDIV && k.sub <= X_SREM) {
          if (!guard(S, mkCmp(X_EQ, y, mkConst(0, k.w)), "div-by-zero", "integer division by zero")) return;
          if (k.sub == X_UDIV || k.sub == X_UREM) { x = nonNegative(S, x); y = nonNegative(S, y); }
          if ((k.sub == X_SDIV || k.sub == X_SREM) && k.w >= 32 && k.w <= 64)
            if (!guard(S, mkBin(X_AND, mkCmp(X_EQ, y, mkConst(maskw(k.w), k.w)), mkCmp(X_EQ, x, mkConst((u128)1 << (k.w - 1), k.w))), "div-overflow", "signed division overflow")) return;
        }
        if (k.sub >= X_SHL && k.sub <= X_ASHR && !isC(y) && (k.w == 64 || k.w == 32)) y = mkBin(X_AND, y, mkConst(k.w - 1, k.w));
        regs[k.dst] = fromE(mkBin((Op)k.sub, x, y));
      }
      f->pc++;
      break;
    }
    case K_FBIN: {
      Expr *r = mkFBin((Op)k.sub, toE(OPV(k.a), k.w), toE(OPV(k.b), k.w));
      if (r->op == X_FREM) { killPath(S, "symbolic-frem"); return; }
      regs[k.dst] = fromE(r);
      f->pc++;
      break;
    }
    case K_FNEG:
      regs[k.dst] = fromE(mkBin(X_XOR, toE(OPV(k.a), k.w), mkConst((u128)1 << (k.w - 1), k.w)));
      f->pc++;
      break;
    case K_ICMP: {
      const Val &a = OPV(k.a), &b = OPV(k.b);
      if (!a.e && !b.e) {
        bool r = false;
        u64 x = a.c, y = b.c;
        switch (k.sub) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = (s64)sx(x, k.w2) > (s64)sx(y, k.w2); break;
        case CmpInst::ICMP_SGE: r = (s64)sx(x, k.w2) >= (s64)sx(y, k.w2); break;
        case CmpInst::ICMP_SLT: r = (s64)sx(x, k.w2) < (s64)sx(y, k.w2); break;
        case CmpInst::ICMP_SLE: r = (s64)sx(x, k.w2) <= (s64)sx(y, k.w2); break;
        }
        regs[k.dst].e = nullptr;
        regs[k.dst].c = r;
      } else {
        Expr *x = toE(a, k.w2), *y = toE(b, k.w2), *r = nullptr;
        switch (k.sub) {
        case CmpInst::ICMP_EQ: r = mkCmp(X_EQ, x, y); break;
        case CmpInst::ICMP_NE: r = mkNot(mkCmp(X_EQ, x, y)); break;
        case CmpInst::ICMP_UGT: r = mkCmp(X_ULT, y, x); break;
        case CmpInst::ICMP_UGE: r = mkCmp(X_ULE, y, x); break;
        case CmpInst::ICMP_ULT: r = mkCmp(X_ULT, x, y); break;
        case CmpInst::ICMP_ULE: r = mkCmp(X_ULE, x, y); break;
        case CmpInst::ICMP_SGT: r = mkCmp(X_SLT, y, x); break;
        case CmpInst::ICMP_SGE: r = mkCmp(X_SLE, y, x); break;
        case CmpInst::ICMP_SLT: r = mkCmp(X_SLT, x, y); break;
        case CmpInst::ICMP_SLE: r = mkCmp(X_SLE, x, y); break;
        }
        regs[k.dst] = fromE(r);
      }
      f->pc++;
      break;
    }
    case K_FCMP: {
      Expr *x = toE(OPV(k.a), k.w2), *y = toE(OPV(k.b), k.w2);
      Expr *r = nullptr;
      switch (k.sub) {
      case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break;
      case CmpInst::FCMP_OEQ: r = mkFBin(X_FEQ, x, y); break;
      case CmpInst::FCMP_OGT: r = mkFBin(X_FLT, y, x); break;
      case CmpInst::FCMP_OGE: r = mkFBin(X_FLE, y, x); break;
      case CmpInst::FCMP_OLT: r = mkFBin(X_FLT, x, y); break;
      case CmpInst::FCMP_OLE: r = mkFBin(X_FLE, x, y); break;
      case CmpInst::FCMP_ONE: r = mkBin(X_AND, mkNot(mkFBin(X_FEQ, x, y)), mkNot(mkFBin(X_FUNO, x, y))); break;
      case CmpInst::FCMP_ORD: r = mkNot(mkFBin(X_FUNO, x, y)); break;
      case CmpInst::FCMP_UNO: r = mkFBin(X_FUNO, x, y); break;
      case CmpInst::FCMP_UEQ: r = mkBin(X_OR, mkFBin(X_FEQ, x, y), mkFBin(X_FUNO, x, y)); break;
      case CmpInst::FCMP_UGT: r = mkNot(mkFBin(X_FLE, x, y)); break;
      case CmpInst::FCMP_UGE: r = mkNot(mkFBin(X_FLT, x, y)); break;
      case CmpInst::FCMP_ULT: r = mkNot(mkFBin(X_FLE, y, x)); break;
      case CmpInst::FCMP_ULE: r = mkNot(mkFBin(X_FLT, y, x)); break;
      case CmpInst::FCMP_UNE: r = mkNot(mkFBin(X_FEQ, x, y)); break;
      default: r = mkConst(1, 1);
      }
      regs[k.dst] = fromE(r);
      f->pc++;
      break;
    }
    case K_CAST: {
      const Val &a = OPV(k.a);
      if (!a.e && k.w <= 64) {
        u64 r = a.c;
        switch (k.sub) {
        case Instruction::Trunc: r &= (u64)maskw(k.w); break;
        case Instruction::SExt: r = (u64)(s64)sx(r, k.w2) & (u64)maskw(k.w); break;
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
        case Instruction::FPExt: case Instruction::FPTrunc:
          r = (u64)castE(k.sub, mkConst(r, k.w2), k.w)->c;
          break;
        default: break;
        }
        regs[k.dst].e = nullptr;
        regs[k.dst].c = r;
      } else regs[k.dst] = fromE(castE(k.sub, toE(a, k.w2), k.w));
      f->pc++;
      break;
    }
    case K_SELECT: {
      const Val &c = OPV(k.a);
      if (!c.e) regs[k.dst] = c.c ? OPV(k.b) : OPV(k.c);
      else {
        if (!k.w) { killPath(S, "select-agg"); return; }
        Expr *ce = simp(S, c.e);
        regs[k.dst] = fromE(mkIte(ce, toE(OPV(k.b), k.w), toE(OPV(k.c), k.w)));
      }
      f->pc++;
      break;
    }
    case K_MOVE: regs[k.dst] = OPV(k.a); f->pc++; break;
    case K_LOAD: {
      Val a = OPV(k.a);
      if (a.e) {
        if (!resolveAddr(S, a, k.w ? (k.w + 7) / 8 : 1, false)) return;
        REFRESH();
        if (k.a >= 0) regs[k.a] = a;
      }
      if (k.agg) {
        for (size_t i = 0; i < k.agg->size(); i++)
          if (!readScalar(S, a.c + (*k.agg)[i].second, (*k.agg)[i].first, regs[k.dst + i])) return;
      } else if (!readScalar(S, a.c, k.w, regs[k.dst])) return;
      f->pc++;
      break;
    }
    case K_STORE: {
      Val a = OPV(k.a);
      if (a.e) {
        if (!resolveAddr(S, a, k.w ? (k.w + 7) / 8 : 1, true)) return;
        REFRESH();
        if (k.a >= 0) regs[k.a] = a;
      }
      if (k.agg) {
        for (size_t i = 0; i < k.agg->size(); i++) {
          int o = Compiler::slot(k.b, i);
          if (!writeScalar(S, a.c + (*k.agg)[i].second, (*k.agg)[i].first, OPV(o))) return;
        }
      } else if (!writeScalar(S, a.c, k.w, OPV(k.b))) return;
      f->pc++;
      break;
    }
    case K_ALLOCA: {
      Val n = OPV(k.a);
      if (n.e) { if (!concretize(S, n, k.w2, "alloca")) return; REFRESH(); }
      u64 sz = k.imm * n.c;
      u64 al = std::max<u64>(16, k.b);
      u64 a = (S.sp - 16 - sz) / al * al;
      if (a < STACK_LIMIT + 65536) { failPath(S, "stack-overflow", "alloca"); return; }
      S.mem->setState(a, S.sp - a, V_RZ);
      S.mem->setState(a, sz, V_OK);
      S.mem->fill(a, sz, 0xAA);
      S.mem->setState(a - 16, 16, V_RZ);
      S.sp = a - 16;
      f->allocas.push_back({a, (u32)sz});
      regs[k.dst].e = nullptr;
      regs[k.dst].c = a;
      f->pc++;
      break;
    }
    case K_GEP: {
      const Val &b = OPV(k.a);
      bool sym = b.e != nullptr;
      u64 r = b.c + k.imm;
      if (!sym)
        for (auto &g : *k.gep) {
          const Val &ix = OPV(g.op);
          if (ix.e) { sym = true; break; }
          r += (u64)((s64)sx(ix.c, g.w) * g.scale);
        }
      if (!sym) {
        regs[k.dst].e = nullptr;
        regs[k.dst].c = r;
      } else {
        Expr *e = mkBin(X_ADD, toE(b, 64), mkConst(k.imm, 64));
        for (auto &g : *k.gep) {
          Expr *ix = toE(OPV(g.op), g.w);
          if (g.w < 64) ix = mkSExt(ix, 64);
          e = mkBin(X_ADD, e, mkBin(X_MUL, ix, mkConst((u64)g.scale, 64)));
        }
        regs[k.dst] = fromE(e);
      }
      f->pc++;
      break;
    }
    case K_BR: takeEdge(S, f, k.e0); break;
    case K_CBR: {
      const Val &c = OPV(k.a);
      if (!c.e) { takeEdge(S, f, c.c ? k.e0 : k.e1); break; }
      Expr *e = simp(S, c.e);
      ModelP mo;
      int d = decide(S, e, mo);
      if (d == 2) {
        bool mv = evalE(e, *S.model) != 0;
        State *o = new State(S);
        o->model = mo;
        addC(*o, mv ? mkNot(e) : e);
        takeEdge(*o, o->top(), mv ? k.e1 : k.e0);
        work.push_back(o);
        g_forks++;
        addC(S, mv ? e : mkNot(e));
        REFRESH();
        takeEdge(S, f, mv ? k.e0 : k.e1);
      } else takeEdge(S, f, d ? k.e0 : k.e1);
      break;
    }
    case K_SWITCH: {
      const Val &c = OPV(k.a);
      if (!c.e) {
        int e = k.e0;
        for (auto &s : *k.sw) if (s.v == c.c) { e = s.edge; break; }
        takeEdge(S, f, e);
        break;
      }
      Expr *x = simp(S, c.e);
      if (isC(x)) {
        int e = k.e0;
        for (auto &s : *k.sw) if (s.v == (u64)x->c) { e = s.edge; break; }
        takeEdge(S, f, e);
        break;
      }
      // one pass: group the cases by edge target
      int myEdge = -1;
      Expr *rest = mkConst(1, 1);
      u64 mv = (u64)evalE(x, *S.model);
      struct Alt { Expr *cond; int edge; };
      std::vector<Alt> alts;
      std::map<uint32_t, Expr *> byT;
      std::map<uint32_t, int> edgeT;
      for (auto &s : *k.sw) {
        Expr *eq = mkCmp(X_EQ, x, mkConst(s.v, k.w2));
        uint32_t t = F->edges[s.edge].target;
        bool simple = F->edges[s.edge].moves.empty();
        if (simple && byT.count(t)) byT[t] = mkBin(X_OR, byT[t], eq);
        else if (simple) { byT[t] = eq; edgeT[t] = s.edge; }
        else alts.push_back({eq, s.edge});
        rest = mkBin(X_AND, rest, mkNot(eq));
      }
      for (auto &p : byT) alts.push_back({p.second, edgeT[p.first]});
      alts.push_back({rest, k.e0});
      Expr *myC = nullptr;
      for (auto &al : alts) {
        if (isC(al.cond) && !al.cond->c) continue;
        if (evalE(al.cond, *S.model) && myEdge < 0) { myEdge = al.edge; myC = al.cond; continue; }
        ModelP mo;
        Res r = solve(S.pc, al.cond, S.model, mo);
        if (r == R_SAT) {
          State *o = new State(S);
          o->model = mo;
          addC(*o, al.cond);
          takeEdge(*o, o->top(), al.edge);
          work.push_back(o);
          g_forks++;
        } else if (r == R_UNKNOWN) g_killed["solver-unknown"]++;
      }
      (void)mv;
      addC(S, myC);
      REFRESH();
      takeEdge(S, f, myEdge);
      break;
    }
    case K_RET: {
      std::vector<Val> rv;
      Val r0;
      if (k.imm == 1) r0 = OPV(k.a);
      else for (u64 i = 0; i < k.imm; i++) { int o = Compiler::slot(k.a, i); rv.push_back(OPV(o)); }
      S.sp = f->spBase;
      u64 nr = k.imm;
      S.frames.pop_back();
      if (S.frames.empty()) { finishPath(S, "return"); return; }
      REFRESH();
      KInst &ck = F->insts[f->pc];
      if (ck.op == K_CALL) {
        if (ck.dst >= 0) {
          if (nr == 1) regs[ck.dst] = r0;
          else for (u64 i = 0; i < nr; i++) regs[ck.dst + i] = rv[i];
        }
        if (ck.call->edge >= 0) takeEdge(S, f, ck.call->edge);
        else f->pc++;
      }
      break;
    }
    case K_CALL: {
      KCall *c = k.call;
      KFunction *fn = c->direct;
      if (!fn) {
        Val t = OPV(c->target);
        if (t.e) { if (!concretize(S, t, 64, "call-target")) return; REFRESH(); }
        auto it = g_faddr.find(t.c);
        if (it == g_faddr.end()) { failPath(S, t.c < 4096 ? "null-deref" : "bad-call", "indirect call to " + hexs(t.c)); return; }
        fn = it->second;
      }
      std::vector<Val> args;
      args.reserve(c->args.size());
      for (int o : c->args) args.push_back(OPV(o));
      if (fn->builtin || fn->F->isDeclaration()) {
        Val ret;
        int r = builtin(S, f, k, fn, args, ret);
        if (r == 0) return;
        REFRESH();
        if (r == 1) {
          if (k.dst >= 0) {
            ret.c = k.w && k.w < 64 && !ret.e ? ret.c & (u64)maskw(k.w) : ret.c;
            if (ret.e && ret.e->w != k.w) ret.e = ret.e->w > k.w ? mkExtract(ret.e, 0, k.w) : mkZExt(ret.e, k.w);
            regs[k.dst] = ret;
          }
          if (c->edge >= 0) takeEdge(S, f, c->edge);
          else f->pc++;
        }
        break;
      }
      if (!pushCall(S, fn, args, &k)) return;
      REFRESH();
      break;
    }
    case K_XCHG: {
      Val a = OPV(k.a), old;
      if (a.e || !readScalar(S, a.c, k.w, old)) { killPath(S, "atomic"); return; }
      Val nv = OPV(k.b);
      switch (k.sub) {
      case AtomicRMWInst::Xchg: break;
      case AtomicRMWInst::Add: nv = fromE(mkBin(X_ADD, toE(old, k.w), toE(nv, k.w))); break;
      case AtomicRMWInst::Sub: nv = fromE(mkBin(X_SUB, toE(old, k.w), toE(nv, k.w))); break;
      default: killPath(S, "atomic"); return;
      }
      if (!writeScalar(S, a.c, k.w, nv)) return;
      regs[k.dst] = old;
      f->pc++;
      break;
    }
    case K_UNREACHABLE: failPath(S, "unreachable", "control reached an unreachable point"); return;
    default: {
      std::string s;
      raw_string_ostream os(s);
      k.I->print(os);
      killPath(S, "unsupported:" + s.substr(0, 80));
      return;
    }
    }
  }
}

static bool runConcrete(State *S) {
  // run a constructor to completion in place
  size_t before = work.size();
  u64 d = g_done;
  runState(S);
  return g_done > d && work.size() == before;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static u64 g_sampleSeen = 0;
static void finishPath(State &S, const char *how) {
  g_done++;
  if (!g_symPhase) return;
  g_totalInstr += S.instrs;
  if (S.concretized) g_concretizedPaths++;
  // sample for native validation: first few, then exponentially sparser
  g_sampleSeen++;
  bool take = g_sampleFiles.size() < o_samples && (g_sampleSeen <= 4 || (g_sampleSeen & (g_sampleSeen - 1)) == 0 || g_sampleSeen % 97 == 0);
  if (!take) return;
  std::string fn = o_out + "/" + g_harness + ".sample" + std::to_string(g_sampleFiles.size());
  std::ofstream o(fn);
  for (size_t i = 0; i < S.syms.size(); i++)
    o << "I " << S.symNames[i] << " " << hexv(S.model->get(S.syms[i]) & maskw(g_symWidth[S.syms[i]]), 64) << "\n";
  for (auto &b : S.obs) {
    if (b.kind == 0) {
      u64 v = b.v[0].e ? (u64)evalE(b.v[0].e, *S.model) : b.v[0].c;
      if (b.w == 32) v &= 0xffffffffu;
      o << "O " << b.label << " " << hexv(v, 64) << "\n";
    } else {
      o << "B " << b.label << " ";
      for (auto &v : b.v) { char t[4]; snprintf(t, 4, "%02x", (unsigned)((v.e ? (u64)evalE(v.e, *S.model) : v.c) & 255)); o << t; }
      o << "\n";
    }
  }
  for (auto &r : S.reach) o << "R " << r << "\n";
  g_sampleFiles.push_back(fn);
  (void)how;
}

static void runAll(State *S) {
  work.push_back(S);
  u64 paths = 0;
  while (!work.empty()) {
    if (g_stop) { g_killed["unexplored-" + g_stopReason] += work.size(); break; }
    State *s = work.back();
    work.pop_back();
    runState(s);
    delete s;
    if (++paths >= o_maxPaths) { g_stop = true; g_stopReason = "paths"; }
    if (g_symPhase && now() - g_t0 > o_timeout && !work.empty()) { g_stop = true; g_stopReason = "time"; }
  }
}

static int finishChild() {
  std::string fn = o_out + "/" + g_harness + ".json";
  std::ofstream o(fn + ".tmp");
  o << "{\n\"harness\":\"" << jesc(g_harness) << "\",\n\"wall\":" << now() - g_t0 << ",\n\"paths\":" << g_done << ",\n\"forks\":" << g_forks
    << ",\n\"assume_infeasible\":" << g_assumeFail << ",\n\"instructions\":" << g_totalInstr << ",\n\"max_depth\":" << g_maxDepth
    << ",\n\"symbolic_branches\":" << g_branchSym << ",\n\"concretized_paths\":" << g_concretizedPaths
    << ",\n\"stopped\":\"" << g_stopReason << "\",\n\"solver\":{\"queries\":" << g_ss.queries << ",\"z3calls\":" << g_ss.z3calls << ",\"cache\":" << g_ss.cacheHits
    << ",\"model_hits\":" << g_ss.modelHits << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown
    << ",\"time\":" << g_ss.time << ",\"max\":" << g_ss.maxTime << "},\n\"reach\":{";
  bool first = true;
  for (auto &p : g_reach) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
  o << "},\n\"killed\":{";
  first = true;
  for (auto &p : g_killed) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
  o << "},\n\"asserts\":{";
  first = true;
  for (auto &p : g_asserts) {
    o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":{\"checks\":" << p.second.checks << ",\"trivial\":" << p.second.trivial << ",\"proved\":" << p.second.proved
      << ",\"violated\":" << p.second.violated << ",\"unknown\":" << p.second.unknown << "}";
    first = false;
  }
  o << "},\n\"functions\":[";
  first = true;
  for (auto *k : g_funcs)
    if (k->isRepo && k->execCount) { o << (first ? "" : ",") << "\"" << jesc(dem(k->name)) << "\""; first = false; }
  o << "],\n\"samples\":[";
  first = true;
  for (auto &s : g_sampleFiles) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  o << "],\n\"errors\":[";
  first = true;
  for (auto &p : g_errs)
    for (auto &r : p.second) {
      o << (first ? "" : ",") << "\n{\"sig\":\"" << jesc(p.first) << "\",\"count\":" << g_errCount[p.first] << ",\"kind\":\"" << jesc(r.kind) << "\",\"label\":\"" << jesc(r.label)
        << "\",\"where\":\"" << jesc(r.where) << "\",\"detail\":\"" << jesc(r.detail) << "\",\"trace\":\"" << jesc(r.trace) << "\",\"inputs\":[";
      bool f2 = true;
      for (auto &i : r.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(i.first) << "\",\"" << i.second << "\"]"; f2 = false; }
      o << "]}";
      first = false;
    }
  o << "]\n}\n";
  o.close();
  rename((fn + ".tmp").c_str(), fn.c_str());
  return 0;
}

static int selectHarness(State &S, u64 table, u64 n) {
  std::vector<std::pair<int, std::string>> todo;
  for (u64 i = 0; i < n; i++) {
    Val v;
    std::string nm;
    readScalar(S, table + 16 * i, 64, v);
    cstrAt(S, v.c, nm);
    bool sel = o_sel.empty();
    for (auto &s : o_sel) if (s == nm) sel = true;
    if (sel) todo.push_back({(int)i, nm});
  }
  fprintf(stderr, "[sxe] setup done: %.2fs, %llu instrs, %llu pages\n", now() - g_t0, (unsigned long long)S.instrs, (unsigned long long)g_pagesAlive);
  S.instrs = 0;
  std::map<pid_t, std::string> run;
  size_t nx = 0;
  int bad = 0;
  while (nx < todo.size() || !run.empty()) {
    while (nx < todo.size() && (int)run.size() < o_jobs) {
      fflush(stdout);
      fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        g_harness = todo[nx].second;
        g_symPhase = true;
        g_t0 = now();
        g_done = 0;
        for (auto *k : g_funcs) k->execCount = 0;
        return todo[nx].first;
      }
      run[p] = todo[nx].second;
      nx++;
    }
    int st;
    pid_t p = wait(&st);
    if (p > 0) {
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "[sxe] harness %s: engine status %x\n", run[p].c_str(), st); bad++; }
      run.erase(p);
    }
  }
  exit(bad ? 3 : 0);
}
