// Lexical scoping: programs built from the binding forms, against a reference evaluator.
// @bound programs: every nesting of two (quick) / three (thorough) binding forms out of let, let*, letrec, named let (also named like a variable its initial values use), do, lambda, internal define, closures over assigned variables, closures called under other bindings, set!, if and begin, over the names x and y bound at top level to arbitrary integers within +-1000; every leaf a reference to x or y
// @bound frames: procedures with 1..4 parameters and a rest parameter whose names shadow each other in every way; closures created in 3 successive loop iterations
// @assume the names quote lambda set! let let* letrec are not used as variables, and the other syntactic keywords are not defined at top level
// @quick_timeout 200
// @param_thorough depth=3
#include "sx.h"
// ---- program trees
enum { VAR, LET, LET2, LETS, CALL, SET, IF, SUM, REC, NLET, DO, CTR, DEF, CAP, BEG, NLETV, NOPS };
struct Nd { int k, v, a, b; };
static Nd nd[32]; static int nn;
static int64_t gx, gy;
static int leaf() { int i = nn++; nd[i].k = VAR; nd[i].v = choose(2, "var"); return i; }
// pure: no assignment to outside variables inside (the order of evaluation of operands is unspecified)
static int gen_(int d, bool pure, int force) {
  if (d == 0) return leaf();
  int i = nn++;
  int k = force ? force : LET + choose(NOPS - LET, "form");
  if (pure && k == SET) k = BEG;
  nd[i].k = k;
  nd[i].v = k == LET2 || k == LETS || k == IF || k == SUM || k == BEG ? 0 : choose(2, "name");
  bool first = choose(2, "deep") == 0;
  bool pa = pure || k == LET2 || k == IF || k == SUM || k == NLETV, pb = pure || k == IF;
  nd[i].a = first ? gen_(d - 1, pa, 0) : leaf();
  nd[i].b = first ? leaf() : gen_(d - 1, pb, 0);
  return i;
}
static const char *vn(int v) { return v ? "y" : "x"; }
// ---- text
static char txt[4096]; static int tl;
static void put(const char *s) { while (*s) txt[tl++] = *s++; txt[tl] = 0; }
static void pr(int i);
// template: A and B are the subtrees, V the name, W the other name
static void tmpl(int i, const char *t) {
  for (; *t; t++) {
    if (*t == 'A') pr(nd[i].a);
    else if (*t == 'B') pr(nd[i].b);
    else if (*t == 'V') put(vn(nd[i].v));
    else if (*t == 'W') put(vn(!nd[i].v));
    else { txt[tl++] = *t; txt[tl] = 0; }
  }
}
static const char *TM[NOPS] = {
  "V",
  "(let ((V A)) B)",
  "(let ((x A) (y x)) (let ((t B)) (+ x x x t)))",
  "(let* ((x A) (y x)) (let ((t B)) (+ y x t)))",
  "((lambda (V) B) A)",
  "(begin (set! V A) B)",
  "(if (< A x) B (+ y 1))",
  "(let ((t A)) (let ((u B)) (+ t t u)))",
  "(letrec ((f (lambda (V n) (if (< n 1) B (let ((r (f (+ V 1) (- n 1)))) (+ r V)))))) (f A 2))",
  "(let f ((V A) (n 0)) (if (< n 2) (f (+ V n) (+ n 1)) (let ((t B)) (+ t V))))",
  "(do ((V A (+ V n)) (n 1 (+ n 1))) ((= n 3) (let ((t B)) (+ t V))) (set! V (+ V 10)))",
  "(let ((f (let ((V A)) (lambda () (set! V (+ V 1)) B)))) (f) (let ((t (f))) (+ t V)))",
  "(let ((s A)) ((lambda () (define V s) (define (g W) (set! V (+ V 5)) B) (let ((t (g 7))) (+ t V)))))",
  "(let ((f (lambda () B))) (let ((V A)) (let ((t (f))) (+ t V))))",
  "(let ((t (begin A B))) (+ t 3))",
  "(let W ((V A) (n W)) (if (procedure? W) (let ((W n)) (let ((t B)) (+ t V))) 0))",
};
static void pr(int i) { tmpl(i, TM[nd[i].k]); }
// ---- reference evaluator
struct Fr { int up; int has; int64_t val[2]; };
static Fr fr[512]; static int nf;
static int frame(int up) { int f = nf++; fr[f].up = up; fr[f].has = 0; return f; }
static void bind(int f, int v, int64_t x) { fr[f].has |= 1 << v; fr[f].val[v] = x; }
static int64_t &ref(int e, int v) { while (!(fr[e].has >> v & 1)) e = fr[e].up; return fr[e].val[v]; }
static int64_t rv(int i, int e);
static int64_t recur(Nd &n, int e, int64_t v, int64_t c) {
  int f = frame(e); bind(f, n.v, v);
  if (c < 1) return rv(n.b, f);
  int64_t r = recur(n, e, ref(f, n.v) + 1, c - 1);
  return r + ref(f, n.v);
}
static int64_t rv(int i, int e) {
  Nd &n = nd[i]; int f, g; int64_t a, t, u;
  switch (n.k) {
  case VAR: return ref(e, n.v);
  case LET: case CALL: a = rv(n.a, e); f = frame(e); bind(f, n.v, a); return rv(n.b, f);
  case LET2: a = rv(n.a, e); u = ref(e, 0); f = frame(e); bind(f, 0, a); bind(f, 1, u); t = rv(n.b, f); return 3 * ref(f, 0) + t;
  case LETS: a = rv(n.a, e); f = frame(e); bind(f, 0, a); g = frame(f); bind(g, 1, a); t = rv(n.b, g); return ref(g, 1) + ref(g, 0) + t;
  case SET: a = rv(n.a, e); ref(e, n.v) = a; return rv(n.b, e);
  case IF: a = rv(n.a, e); if (a < ref(e, 0)) return rv(n.b, e); return ref(e, 1) + 1;
  case SUM: t = rv(n.a, e); u = rv(n.b, e); return t + t + u;
  case REC: a = rv(n.a, e); return recur(n, e, a, 2);
  case NLET: a = rv(n.a, e); f = frame(e); bind(f, n.v, a + 0 + 1); t = rv(n.b, f); return t + ref(f, n.v);
  case DO:
    a = rv(n.a, e); f = frame(e); bind(f, n.v, a);
    for (int c = 1; c != 3; c++) { ref(f, n.v) += 10; a = ref(f, n.v) + c; f = frame(e); bind(f, n.v, a); }
    t = rv(n.b, f); return t + ref(f, n.v);
  case CTR: a = rv(n.a, e); f = frame(e); bind(f, n.v, a); ref(f, n.v) += 1; rv(n.b, f); ref(f, n.v) += 1; t = rv(n.b, f); return t + ref(e, n.v);
  case DEF: a = rv(n.a, e); f = frame(e); bind(f, n.v, a); g = frame(f); bind(g, !n.v, 7); ref(g, n.v) += 5; t = rv(n.b, g); return t + ref(f, n.v);
  case CAP: a = rv(n.a, e); t = rv(n.b, e); return t + a;
  case NLETV: a = rv(n.a, e); u = ref(e, !n.v); f = frame(e); bind(f, n.v, a); g = frame(f); bind(g, !n.v, u); t = rv(n.b, g); return t + ref(f, n.v);
  case BEG: rv(n.a, e); return rv(n.b, e) + 3;
  }
  return 0;
}
static void program(int force) {
  gx = symrange("x", -1000, 1000); gy = symrange("y", -1000, 1000);
  nn = 0; nf = 0; tl = 0;
  int root = gen_((int)sx_param("depth", 2), false, force);
  pr(root);
  defn("x", gx); defn("y", gy);
  int g = frame(-1); bind(g, 0, gx); bind(g, 1, gy);
  int64_t want = rv(root, g);
  S r = ev(txt);
  CHECK(r != nullptr, "a program without errors");
  CHECK(isnum(r), "a number");
  CHECK(numv(r) == want, "every reference means the innermost binding around it");
  CHECK(numv(ev("x")) == fr[g].val[0], "outer x changes only by assignment to it");
  CHECK(numv(ev("y")) == fr[g].val[1], "outer y changes only by assignment to it");
  REACH("end");
}
H(p_let) { program(LET); }
H(p_let2) { program(LET2); }
H(p_letstar) { program(LETS); }
H(p_lambda) { program(CALL); }
H(p_set) { program(SET); }
H(p_if) { program(IF); }
H(p_sum) { program(SUM); }
H(p_letrec) { program(REC); }
H(p_named_let) { program(NLET); }
H(p_do) { program(DO); }
H(p_counter) { program(CTR); }
H(p_define) { program(DEF); }
H(p_capture) { program(CAP); }
H(p_begin) { program(BEG); }
H(p_named_let_name) { program(NLETV); }
// ---- closures and frames
H(loop_closures) {
  int64_t a = symrange("a", -1000, 1000); defn("a", a);
  int k = choose(4, "loop");
  static const char *L[] = {
    "(define fs (do ((i a (+ i 1)) (n 0 (+ n 1)) (l '() (cons (lambda (z) (set! i (+ i z)) i) l))) ((= n 3) l)))",
    "(define fs (let loop ((i a) (n 0) (l '())) (if (= n 3) l (loop (+ i 1) (+ n 1) (cons (lambda (z) (set! i (+ i z)) i) l)))))",
    "(define fs (map (lambda (n) (let ((i (+ a n))) (lambda (z) (set! i (+ i z)) i))) '(2 1 0)))",
    "(define fs (let ((l '())) (for-each (lambda (n) (let* ((i n) (i (+ a i))) (set! l (cons (lambda (z) (set! i (+ i z)) i) l)))) '(0 1 2)) l))",
  };
  CHECK(ev(L[k]) != nullptr, "runs");
  int64_t m[3] = { a + 2, a + 1, a };
  for (int s = 0; s < 3; s++) {
    char nm[8]; snprintf(nm, 8, "f%d", s); int f = choose(3, nm);
    m[f] += 7 + s;
    CHECK(isnumv(evf("((list-ref fs %d) %d)", f, 7 + s), m[f]), "each iteration has its own variable");
  }
  REACH("end");
}
H(counters) {
  int64_t a = symrange("a", -1000, 1000), b = symrange("b", -1000, 1000); defn("a", a); defn("b", b);
  ev("(define (make n) (define step 1) (list (lambda () (set! n (+ n step)) n) (lambda (k) (set! step k) step) (lambda () n)))");
  ev("(define p (make a))"); ev("(define q (make b))");
  int64_t n[2] = { a, b }, st[2] = { 1, 1 };
  for (int s = 0; s < 4; s++) {
    char nm[8]; snprintf(nm, 8, "o%d", s); int o = choose(6, nm);
    int w = o / 3; const char *c = w ? "q" : "p";
    if (o % 3 == 0) { n[w] += st[w]; CHECK(isnumv(evf("((car %s))", c), n[w]), "closures over one frame share it"); }
    else if (o % 3 == 1) { st[w] = s + 2; ev(""); CHECK(isnumv(evf("((cadr %s) %d)", c, s + 2), s + 2), "assigned"); }
    else CHECK(isnumv(evf("((caddr %s))", c), n[w]), "calls of one procedure have separate frames");
  }
  CHECK(isnumv(ev("a"), a) && isnumv(ev("b"), b), "arguments are not the caller's variables");
  REACH("end");
}
// definitions at top level and inside bodies
H(definitions) {
  int name = choose(3, "name");
  const char *n = name == 0 ? "v" : name == 1 ? "car" : "x";
  ev("(define x 3)");
  int64_t k = symrange("k", -1000, 1000); defn("k", k);
  evf("(define (use) %s)", n);
  int cur = name == 2 ? 1 : 0; int64_t val = 3; // 0 initial, 1 a number, 2 a procedure returning a number
  for (int s = 0; s < 3; s++) {
    char nm[8]; snprintf(nm, 8, "d%d", s); int o = choose(8, nm);
    S r = nullptr; int64_t kk = k + s;
    switch (o) {
    case 0: r = evf("(define %s (+ k %d))", n, s); cur = 1; val = kk; break;
    case 1: r = evf("(define (%s) (+ k %d))", n, s); cur = 2; val = kk; break;
    case 2: r = evf("(define %s (lambda () (+ k %d)))", n, s); cur = 2; val = kk; break;
    case 3: if (cur || name) { r = evf("(set! %s (+ k %d))", n, s); cur = 1; val = kk; } else r = mkbool(true); break;
    case 4: r = evf("((lambda () (define %s 77) (set! %s 78) %s))", n, n, n); CHECK(isnumv(r, 78), "internal definition"); break;
    case 5: r = evf("((lambda () (define (%s) 79) (%s)))", n, n); CHECK(isnumv(r, 79), "internal procedure definition"); break;
    case 6: r = evf("(let () (define (%s . l) l) (%s))", n, n); CHECK(isnil(r), "internal procedure definition in let"); break;
    case 7: r = evf("(let* ((%s 1)) (define %s 80) %s)", n, n, n); CHECK(isnumv(r, 80), "redefinition of a local"); break;
    }
    CHECK(r != nullptr, "no error");
    if (cur == 1) { CHECK(isnumv(evf("%s", n), val), "the last definition or assignment counts"); CHECK(isnumv(ev("(use)"), val), "also for earlier references"); }
    if (cur == 2) { CHECK(isnumv(evf("(%s)", n), val), "the last definition counts"); CHECK(isnumv(ev("((use))"), val), "also for earlier references"); }
    if (cur == 0 && name == 0) CHECK(ev("v") == nullptr, "internal definitions are not visible outside");
    if (cur == 0 && name == 1) CHECK(isnumv(ev("(car '(5 6))"), 5), "internal definitions do not replace a global procedure");
  }
  REACH("end");
}
// parameters: every parameter list over a and b bound in nested frames, innermost first
H(parameters) {
  int64_t x = symrange("x", -1000, 1000), y = symrange("y", -1000, 1000); defn("x", x); defn("y", y);
  static const char *P[] = { "(x)", "(y)", "(x y)", "(y x)", "(x . y)", "(y . x)", "x", "y" };
  int64_t vx = x, vy = y; bool lx = false, ly = false; // value, or list of one
  char t[512]; int l = 0;
  int q[3], depth = 3;
  for (int d = 0; d < depth; d++) { char nm[8]; snprintf(nm, 8, "p%d", d); q[d] = choose(8, nm); }
  for (int d = 0; d < depth; d++) l += snprintf(t + l, 512 - l, "((lambda %s ", P[q[d]]);
  l += snprintf(t + l, 512 - l, "(list x y)");
  for (int d = depth - 1; d >= 0; d--) {
    int n = q[d] < 2 ? 1 : q[d] < 6 ? 2 : 1;
    l += snprintf(t + l, 512 - l, n == 1 ? ") %d)" : ") %d %d)", 10 * d + 1, 10 * d + 2);
  }
  for (int d = 0; d < depth; d++) {
    int f = 10 * d + 1, s = 10 * d + 2;
    switch (q[d]) {
    case 0: vx = f; lx = false; break;
    case 1: vy = f; ly = false; break;
    case 2: vx = f; vy = s; lx = ly = false; break;
    case 3: vy = f; vx = s; lx = ly = false; break;
    case 4: vx = f; lx = false; vy = s; ly = true; break;
    case 5: vy = f; ly = false; vx = s; lx = true; break;
    case 6: vx = f; lx = true; break;
    case 7: vy = f; ly = true; break;
    }
  }
  S r = ev(t);
  CHECK(lenof(r) == 2, "a list");
  S a = nth(r, 0), b = nth(r, 1);
  if (lx) { CHECK(lenof(a) == 1 && isnumv(nth(a, 0), vx), "rest parameter x"); } else CHECK(isnumv(a, vx), "parameter x");
  if (ly) { CHECK(lenof(b) == 1 && isnumv(nth(b, 0), vy), "rest parameter y"); } else CHECK(isnumv(b, vy), "parameter y");
  REACH("end");
}
// local names win over macros, builtins and unreserved keywords of the same name
H(shadowing) {
  int64_t k = symrange("k", -1000, 1000); defn("k", k);
  ev("(define-macro (mac z) `(quote (,z)))");
  static const char *N[] = { "mac", "car", "list", "map", "apply", "if", "do", "case", "delay", "v", "begin", "and" };
  const char *n = N[choose(12, "name")];
  const char *fs[] = { "((lambda (%s) (%s 5)) (lambda (z) (+ z k)))", "(let ((%s (lambda (z) (+ z k)))) (let ((w 5)) (%s w)))", "(letrec ((%s (lambda (z) (+ z k)))) (%s 5))",
                       "((lambda () (define (%s z) (+ z k)) (%s 5)))", "(let* ((w 5) (%s (lambda (z) (+ z k)))) ((lambda (u) (%s u)) w))", "(let %s ((w 1)) (if (= w 5) (+ w k) (%s (+ w 1))))",
                       "(do ((%s (lambda (z) (+ z k))) (i 0 (+ i 1))) ((= i 1) (%s 5)))" };
  int f = choose(7, "form");
  if (f == 5 && !strcmp(n, "if")) f = 0;
  CHECK(isnumv(evf(fs[f], n, n), k + 5), "the local binding is called");
  CHECK(lenof(ev("(mac 5)")) == 1 && isnumv(ev("(car (list 5))"), 5) && isnumv(ev("(if #f 1 2)"), 2), "and only there");
  REACH("end");
}
