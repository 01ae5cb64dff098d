// Programs made of catch / throw / dynamic-wind / call/cc, and a reference
// machine for them: an explicit-continuation evaluator with immutable frames, so
// that escaping and re-entering a continuation are the same operation.
#include "sx.h"
#include <stdio.h>
#ifndef EVP
#define EVP ev
#endif
enum { // constructs (A nested, B leaf), then leaves
  CATA, CATB, CATT, WIND, CC0, CC1, SEQ, IFX, NCON,
  LEAF };
enum { LNUM, LTHA, LTHB, LERR, LGO0, LGO1, NLEAF }; // what a leaf does: a symbolic number, decided when it runs
struct Nd { int k, a, b; int64_t l; };
static Nd nd[64]; static int nn;
static int64_t gx;
static const char *ACT =
  "(define (act l j) (cond"
  " ((= l 0) (emit (+ x j)))"
  " ((= l 1) (throw 'a (+ x j)))"
  " ((= l 2) (throw 'b (+ x j)))"
  " ((= l 3) (car x))"
  " ((= l 4) (if (and k0 (< n gomax)) (begin (set! n (+ n 1)) (k0 (+ x j n))) (emit 99)))"
  " (else (if (and k1 (< n gomax)) (begin (set! n (+ n 1)) (k1 (+ x j n))) (emit 98)))))";
static int go_max = 2;
static const char *TM[] = {
  "(catch 'a (lambda () A) (lambda (key . r) (emit (code key)) (emit (num r)) B))",
  "(catch 'b (lambda () A) (lambda (key . r) (emit (code key)) (emit (num r)) B))",
  "(catch #t (lambda () A) (lambda (key . r) (emit (code key)) (emit (num r)) B))",
  "(dynamic-wind (lambda () (emit (+ 100 J))) (lambda () A) (lambda () (emit (+ 200 J)) B))",
  "(let ((v (call/cc (lambda (c) (set! k0 c) A)))) (emit v) B)",
  "(let ((v (call-with-current-continuation (lambda (c) (set! k1 c) A)))) (emit v) B)",
  "(let ((t A)) (let ((u B)) (+ t u)))",
  "(if (< x 0) A B)",
  "",
  "(act lJ J)",
};
static char txt[8192]; static int tl;
static void put(const char *s) { while (*s) txt[tl++] = *s++; txt[tl] = 0; }
static void pr(int i) {
  for (const char *t = TM[nd[i].k]; *t; t++) {
    bool word = t[1] >= 'a' && t[1] <= 'z';
    if (*t == 'A' && !word) pr(nd[i].a);
    else if (*t == 'B' && !word) pr(nd[i].b);
    else if (*t == 'J' && !word) { char b[16]; snprintf(b, 16, "%d", i + 1); put(b); }
    else { txt[tl++] = *t; txt[tl] = 0; }
  }
}
// ---- reference machine
enum { KEND, KCAT, KWIND, KOUT, KUNW, KCC, KSEQ1, KSEQ2 };
struct Fr { int t, node, up, wl; int64_t v; int j; };
static Fr fr[4096]; static int nf;
struct Wd { int node, up, kont, depth; };
static Wd wd[1024]; static int nw;
struct Jm { int target, common, frame, kind; int key; int64_t v; };   // kind 0: value to frame, 1: throw to catch frame
static Jm jm[1024]; static int nj;
struct Ct { int frame, winds; };
static Ct kk[2]; static int n_go, winds;
static int64_t tr[512]; static int ntr;
static void rec(int64_t v) { if (ntr < 512) tr[ntr++] = v; }
static int frm(int t, int node, int up, int64_t v) { Fr &f = fr[nf]; f.t = t; f.node = node; f.up = up; f.wl = winds; f.v = v; return nf++; }
static int wdepth(int w) { return w < 0 ? 0 : wd[w].depth; }
static int common(int a, int b) {
  while (wdepth(a) > wdepth(b)) a = wd[a].up;
  while (wdepth(b) > wdepth(a)) b = wd[b].up;
  while (a != b) a = wd[a].up, b = wd[b].up;
  return a;
}
// machine registers
static int mnode, mk; static int64_t mv; // mnode >= 0: evaluate, else return mv to mk
static void rewind(int from, int to) { if (from == to) return; rewind(from, wd[to].up); rec(100 + wd[to].node + 1); winds = to; }
static void go(int j) {
  Jm &m = jm[j];
  if (winds != m.common) {
    int w = winds; winds = wd[w].up;
    rec(200 + wd[w].node + 1);
    mnode = nd[wd[w].node].b; mk = frm(KUNW, wd[w].node, wd[w].kont, 0); fr[mk].j = j;
    return;
  }
  rewind(m.common, m.target);
  if (m.kind == 0) { mnode = -1; mk = m.frame; mv = m.v; }
  else { Fr &c = fr[m.frame]; rec(m.key); rec(m.v); mnode = nd[c.node].b; mk = c.up; }
}
static void jump(int target, int frame, int kind, int key, int64_t v) {
  Jm &m = jm[nj]; m.target = target; m.common = common(winds, target); m.frame = frame; m.kind = kind; m.key = key; m.v = v;
  go(nj++);
}
static void thr(int k, int key, int64_t v) {
  for (; k >= 0; k = fr[k].up) {
    if (fr[k].t != KCAT) continue;
    int c = nd[fr[k].node].k;
    if (c == CATT || (c == CATA && key == 1) || (c == CATB && key == 2)) { jump(fr[k].wl, k, 1, key, v); return; }
  }
  sx_kill("reference: uncaught");
}
static int64_t run(int root) {
  winds = -1; nf = nw = nj = ntr = n_go = 0; kk[0].frame = kk[1].frame = -1;
  mnode = root; mk = frm(KEND, -1, -1, 0);
  for (;;) {
    if (mnode >= 0) {
      int i = mnode; Nd &n = nd[i];
      switch (n.k) {
      case CATA: case CATB: case CATT: mk = frm(KCAT, i, mk, 0); mnode = n.a; break;
      case WIND: {
        rec(100 + i + 1);
        int w = nw++; wd[w].node = i; wd[w].up = winds; wd[w].kont = mk; wd[w].depth = wdepth(winds) + 1;
        mk = frm(KWIND, i, mk, 0); winds = w; mnode = n.a; break; }
      case CC0: case CC1: { int c = n.k - CC0; mk = frm(KCC, i, mk, 0); kk[c].frame = mk; kk[c].winds = winds; mnode = n.a; break; }
      case SEQ: mk = frm(KSEQ1, i, mk, 0); mnode = n.a; break;
      case IFX: mnode = gx < 0 ? n.a : n.b; break;
      case LEAF:
        if (n.l == LNUM) { mv = gx + i + 1; rec(mv); mnode = -1; }
        else if (n.l == LTHA) thr(mk, 1, gx + i + 1);
        else if (n.l == LTHB) thr(mk, 2, gx + i + 1);
        else if (n.l == LERR) thr(mk, 3, -1);
        else {
          int c = n.l == LGO0 ? 0 : 1;
          if (kk[c].frame >= 0 && n_go < go_max) { n_go++; jump(kk[c].winds, kk[c].frame, 0, 0, gx + i + 1 + n_go); }
          else { mv = 99 - c; rec(mv); mnode = -1; }
        }
        break;
      }
    } else {
      Fr f = fr[mk];
      switch (f.t) {
      case KEND: return mv;
      case KCAT: mk = f.up; break;
      case KWIND: winds = f.wl; rec(200 + f.node + 1); mnode = nd[f.node].b; mk = frm(KOUT, f.node, f.up, mv); break;
      case KOUT: mv = f.v; mk = f.up; break;
      case KUNW: go(f.j); break;
      case KCC: rec(mv); mnode = nd[f.node].b; mk = f.up; break;
      case KSEQ1: mk = frm(KSEQ2, f.node, f.up, mv); mnode = nd[f.node].b; break;
      case KSEQ2: mv += f.v; mk = f.up; break;
      }
    }
    if (nf > 4000 || nw > 1000 || nj > 1000 || ntr >= 512) sx_kill("reference: too long");
  }
}
static void prelude() {
  static const char *P[] = {
    "(define tr '())", "(define k0 #f)", "(define k1 #f)", "(define n 0)",
    "(define (emit v) (set! tr (cons v tr)) v)",
    "(define (code key) (cond ((eq? key 'a) 1) ((eq? key 'b) 2) (else 3)))",
    "(define (num r) (if (number? (car r)) (car r) -1))" };
  for (const char *p : P) ev(p);
  ev(ACT); defn("gomax", go_max);
  for (int i = 0; i < nn; i++) if (nd[i].k == LEAF) { char b[8]; snprintf(b, 8, "l%d", i + 1); defn(b, nd[i].l); }
}
static void check_trace(S r, int64_t want) {
  CHECK(r != nullptr, "the program ends normally");
  S t = ev("(reverse tr)");
  int m = lenof(t);
  CHECK(m == ntr, "as many effects as the reference");
  for (int i = 0; i < m && i < ntr; i++) CHECK(isnumv(nth(t, i), tr[i]), "effects in the reference's order");
  CHECK(isnumv(r, want), "value");
}
// what follows a program finds no catch and no dynamic-wind left over from it
static void check_clean() {
  ev("(set! tr '())");
  CHECK(ev("(throw 'zz 1)") == nullptr && sx_err("zz"), "no catch is left behind");
  CHECK(isnil(ev("tr")), "no dynamic-wind is left behind");
  CHECK(isnumv(ev("(catch 'a (lambda () (dynamic-wind (lambda () (emit 1)) (lambda () (throw 'a 5)) (lambda () (emit 2)))) (lambda (k v) (emit v)))"), 5), "catch works afterwards");
  S t = ev("tr");
  CHECK(lenof(t) == 3 && isnumv(nth(t, 0), 5) && isnumv(nth(t, 1), 2) && isnumv(nth(t, 2), 1), "dynamic-wind works afterwards");
}
// constructs allowed, as a list ending in -1; leaves do one of the first g_nleaf things
static const int *g_cons; static int g_nleaf = NLEAF;
static int cnt(const int *l) { int n = 0; while (l[n] >= 0) n++; return n; }
static int leaf() { int i = nn++; nd[i].k = LEAF; nd[i].l = symrange("leaf", 0, g_nleaf - 1); return i; }
static int tree(int d, int force) {
  if (d == 0) return leaf();
  int i = nn++;
  nd[i].k = force >= 0 ? force : g_cons[choose(cnt(g_cons), "form")];
  nd[i].a = tree(d - 1, -1);
  nd[i].b = leaf();
  return i;
}
// root: a catch of everything around the tree
static void control_program(int d, int force) {
  nn = 0; tl = 0;
  gx = symrange("x", -1000, 1000);
  int root = nn++, h = nn++;
  nd[root].k = CATT; nd[h].k = LEAF; nd[h].l = LNUM; nd[root].b = h;
  nd[root].a = tree(d, force);
  pr(root);
  prelude(); defn("x", gx);
  int64_t want = run(root);
  S r = EVP(txt);
  check_trace(r, want);
  check_clean();
  REACH("end");
}
