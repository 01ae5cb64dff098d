// Conditionals: which branch is taken, what is evaluated, and the value.
// @bound tests: values of 14 kinds including symbolic integers, and comparisons of arbitrary 64-bit integers; and/or with 0..4 operands, cond with up to 3 clauses of 6 kinds, case with up to 3 clauses over integers, characters, symbols, booleans and the empty list with an arbitrary key; conditionals nested two deep, every leaf one of 2 (quick) / 3 (thorough) expressions over two arbitrary integers
// @quick_timeout 200
// @param_thorough leaves=3
#include "sx.h"
static const char *K[14] = { "#f", "#t", "0", "'()", "\"\"", "'f", "#\\f", "a", "(list)", "(vector)", "0.0", "car", "(lambda () #f)", "(not 1)" };
static bool truth(int k) { return k != 0 && k != 13; }
// evaluation log: (t id value) records id
static void setup() { ev("(define log 0)"); ev("(define (t id v) (set! log (+ (* log 10) id)) v)"); }
H(if_) {
  int64_t a = sym64("a"), b = sym64("b"); defn("a", a); defn("b", b); setup();
  int k = choose(14, "test"), e = choose(2, "else");
  S r = evf(e ? "(if (t 1 %s) (t 2 a) (t 3 b))" : "(if (t 1 %s) (t 2 a))", K[k]);
  if (truth(k)) { CHECK(isnumv(r, a), "every value but #f is true"); CHECK(isnumv(ev("log"), 12), "only the taken branch is evaluated, after the test"); }
  else { if (e) CHECK(isnumv(r, b), "#f is false"); else CHECK(r != nullptr && !isnum(r), "no else branch"); CHECK(isnumv(ev("log"), e ? 13 : 1), "only the taken branch is evaluated, after the test"); }
  CHECK(isT(evf("(not %s)", K[k])) == !truth(k) && isF(evf("(not %s)", K[k])) == truth(k), "not");
  REACH("end");
}
H(and_or) {
  int64_t a = sym64("a"); defn("a", a); setup();
  int n = choose(5, "n"); bool isand = choose(2, "and");
  char t[512]; int l = snprintf(t, 512, isand ? "(and" : "(or");
  static const int64_t lim[4] = { 0, 100, -7, INT64_MAX };
  bool val[4]; int kind[4];
  for (int i = 0; i < n; i++) {
    char nm[4] = {'k', (char)('0' + i), 0};
    kind[i] = choose(5, nm);
    // 0: (< a lim)  1: a  2: #f  3: '()  4: (if (< a lim) #f id)
    char e[64];
    if (kind[i] == 0) snprintf(e, 64, "(< a %lld)", (long long)lim[i]);
    else if (kind[i] == 4) snprintf(e, 64, "(if (< a %lld) #f %d)", (long long)lim[i], i + 50);
    else snprintf(e, 64, "%s", kind[i] == 1 ? "a" : kind[i] == 2 ? "#f" : "'()");
    val[i] = kind[i] == 0 ? a < lim[i] : kind[i] == 4 ? !(a < lim[i]) : kind[i] != 2;
    l += snprintf(t + l, 512 - l, " (t %d %s)", i + 1, e);
  }
  snprintf(t + l, 512 - l, ")");
  S r = ev(t);
  int64_t log = 0; int last = -1;
  for (int i = 0; i < n; i++) { log = log * 10 + i + 1; last = i; if (val[i] != isand) break; }
  CHECK(isnumv(ev("log"), log), "operands are evaluated left to right until the value is known");
  if (last < 0) CHECK(isand ? isT(r) : isF(r), "no operands");
  else if (kind[last] == 0) CHECK(val[last] ? isT(r) : isF(r), "value of the last operand evaluated");
  else if (kind[last] == 1) CHECK(isnumv(r, a), "value of the last operand evaluated");
  else if (kind[last] == 3) CHECK(isnil(r), "value of the last operand evaluated");
  else CHECK(val[last] ? isnumv(r, last + 50) : isF(r), "value of the last operand evaluated");
  REACH("end");
}
H(cond) {
  int64_t a = sym64("a"); defn("a", a); setup();
  ev("(define (f x) (t 9 (list x)))");
  int n = 1 + choose(3, "n");
  char s[1024]; int l = snprintf(s, 1024, "(cond");
  static const int64_t lim[3] = { -5, 1000, INT64_MAX };
  int64_t log = 0; int taken = -1, kind[3];
  for (int i = 0; i < n; i++) {
    char nm[4] = {'k', (char)('0' + i), 0};
    int k = kind[i] = choose(i == n - 1 ? 7 : 5, nm);
    long long L = lim[i]; int id = i + 1;
    switch (k) {
    case 0: l += snprintf(s + l, 1024 - l, " ((t %d (< a %lld)) (t 4 a))", id, L); break;
    case 1: l += snprintf(s + l, 1024 - l, " ((t %d (if (< a %lld) a #f)))", id, L); break;
    case 2: l += snprintf(s + l, 1024 - l, " ((t %d (if (< a %lld) a #f)) => f)", id, L); break;
    case 3: l += snprintf(s + l, 1024 - l, " ((t %d (if (< a %lld) '() #f)) (t 5 1) (t 6 2) (list a))", id, L); break;
    case 4: l += snprintf(s + l, 1024 - l, " ((t %d (if (< a %lld) a #f)) => (lambda (x) (t 9 (vector x))))", id, L); break;
    case 5: l += snprintf(s + l, 1024 - l, " (else (t 7 a))"); break;
    case 6: l += snprintf(s + l, 1024 - l, " (else (t 8 1) (list a a))"); break;
    }
    if (taken < 0) {
      if (k < 5) log = log * 10 + id;
      if (k >= 5 || a < L) { taken = i; log = k == 0 ? log * 10 + 4 : k == 1 ? log : k == 2 || k == 4 ? log * 10 + 9 : k == 3 ? log * 100 + 56 : k == 5 ? log * 10 + 7 : log * 10 + 8; }
    }
  }
  snprintf(s + l, 1024 - l, ")");
  S r = ev(s);
  CHECK(r != nullptr, "no error");
  CHECK(isnumv(ev("log"), log), "tests are evaluated in order up to the first true one, then its body only");
  int k = taken < 0 ? -1 : kind[taken];
  if (k < 0) CHECK(!isnum(r) && lenof(r) <= 0, "no clause taken");
  else if (k == 0 || k == 1 || k == 5) CHECK(isnumv(r, a), "value of the clause");
  else if (k == 2 || k == 3) CHECK(lenof(r) == 1 && isnumv(nth(r, 0), a), "value of the clause");
  else if (k == 6) CHECK(lenof(r) == 2 && isnumv(nth(r, 1), a), "value of the else clause");
  else { def("r", r); CHECK(isT(ev("(vector? r)")) && isnumv(ev("(vector-ref r 0)"), a), "=> passes the value of the test"); }
  REACH("end");
}
// case with an arbitrary integer or character key
H(case_) {
  int kind = choose(2, "key kind"); setup();
  int64_t a = kind == 0 ? sym64("a") : sym8("c");
  if (kind == 0) defn("k", a); else def("k", mkchr((unsigned char)a));
  // each clause: data list id; values of the datum for both kinds
  static const char *D[6] = { "(1 #\\a)", "(2 3 #\\b #\\c x)", "(-9223372036854775808 9223372036854775807 #\\space)", "(x y \"1\" #f 1.5 (1))", "()", "(1 100000000000 #\\a #\\z)" };
  static const int64_t N[6][3] = { {1, 1, 1}, {2, 3, 3}, {INT64_MIN, INT64_MAX, INT64_MAX}, {7, 7, 7}, {7, 7, 7}, {1, 100000000000ll, 1} };
  static const int C[6][2] = { {'a', 'a'}, {'b', 'c'}, {' ', ' '}, {-1, -1}, {-1, -1}, {'a', 'z'} };
  int n = 1 + choose(3, "n"), els = choose(2, "else");
  char s[1024]; int l = snprintf(s, 1024, "(case (t 1 k)");
  int taken = -1;
  for (int i = 0; i < n; i++) {
    char nm[4] = {'d', (char)('0' + i), 0};
    int d = choose(6, nm);
    l += snprintf(s + l, 1024 - l, " (%s (t %d 0) %d)", D[d], i + 2, i + 70);
    bool m = kind == 0 ? d < 3 || d == 5 ? (a == N[d][0]) | (a == N[d][1]) | (a == N[d][2]) : false : (a == C[d][0]) | (a == C[d][1]);
    if (taken < 0 && m) taken = i;
  }
  snprintf(s + l, 1024 - l, els ? " (else (t 6 0) 'none))" : ")");
  S r = ev(s);
  CHECK(r != nullptr, "no error");
  if (taken >= 0) { CHECK(isnumv(r, 70 + taken), "the first clause listing the key is taken"); CHECK(isnumv(ev("log"), 12 + taken), "the key is evaluated once, one clause after it"); }
  else { if (els) CHECK(issymn(r, "none"), "else is taken when no datum matches"); else CHECK(!isnum(r), "no clause"); CHECK(isnumv(ev("log"), els ? 16 : 1), "nothing else is evaluated"); }
  REACH("end");
}
// case over keys of every kind: eqv? decides
H(case_kinds) {
  int64_t a = sym64("a"); defn("a", a);
  static const char *KEY[] = { "'x", "'y", "#t", "#f", "'()", "(string->symbol \"x\")", "a", "\"x\"", "(list 1)", "1.5", "1/2", "(car '(x))", "(vector)" };
  static const int SYM[] = { 0, 1, 2, 3, 4, 0, 5, 5, 5, 6, 7, 0, 5 };
  int k = choose(13, "key");
  ASSUME(a != 42);
  S r = evf("(case %s ((42) 5) ((y z) 1) ((x) 0) ((#t) 2) ((#f) 3) ((()) 4) ((1.5) 6) ((1/2 1/3) 7) (else 5))", KEY[k]);
  CHECK(isnumv(r, SYM[k]), "the clause with an equivalent datum");
  CHECK(isnumv(evf("(case a ((42) 1) ((%d %d) a) (else 5))", 17, 18), a == 17 || a == 18 ? a : 5), "integers");
  REACH("end");
}
// malformed conditionals are errors and evaluate nothing after the error
H(bodies) {
  int64_t a = symrange("a", -1000, 1000); defn("a", a); setup();
  static const char *F[] = { "(begin (t 1 0) (t 2 0) a)", "(let () (t 1 0) (t 2 0) a)", "((lambda () (t 1 0) (t 2 0) a))", "(cond (#t (t 1 0) (t 2 0) a))", "(case 1 ((1) (t 1 0) (t 2 0) a))", "(case 1 (else (t 1 0) (t 2 0) a))",
    "(do ((i 0 (+ i 1))) ((= i 0) (t 1 0) (t 2 0) a))", "(let* ((x (t 1 0)) (y (t 2 0))) a)", "(if #t (begin (t 1 0) (t 2 0) a))", "(and (t 1 0) (t 2 0) a)", "(or (t 1 #f) (t 2 #f) a)", "(cond (else (t 1 0) (t 2 0) a))", "(letrec ((x (t 1 0))) (t 2 0) a)",
    "(cond ((t 1 #f) 1) ((t 2 1) => (lambda (x) a)) (else (t 3 0)))", "(begin (begin (t 1 0)) (begin (t 2 0) a))", "(cond (#f 1) (#f 2) (#t (t 1 0) (t 2 0) a) (else (t 3 0)))", "(if (t 1 #f) (t 3 0) (begin (t 2 0) a))", "(let loop ((i 0)) (t 1 0) (t 2 0) a)" };
  int f = choose(18, "form");
  CHECK(isnumv(ev(F[f]), a), "the value of the last expression");
  CHECK(isnumv(ev("log"), 12), "expressions in sequence, each once");
  REACH("end");
}
// ---- nested conditionals against a reference
enum { LEAF, IF, AND2, OR2, COND, CASE, NOTIF, NK };
struct Nd { int k, a, b, c; };
static Nd nd[64]; static int nn; static int64_t A, B;
static int gen_(int d, int force = 0) {
  int i = nn++;
  if (d == 0) { nd[i].k = LEAF; nd[i].a = choose(sx_param("leaves", 2), "leaf"); return i; }
  nd[i].k = force ? force : 1 + choose(NK - 1, "form");
  int deep = choose(3, "deep");
  nd[i].a = gen_(deep == 0 ? d - 1 : 0); nd[i].b = gen_(deep == 1 ? d - 1 : 0); nd[i].c = gen_(deep == 2 ? d - 1 : 0);
  return i;
}
static char txt[4096]; static int tl;
static void put(const char *s) { while (*s) txt[tl++] = *s++; txt[tl] = 0; }
static const char *LF[] = { "(if (< a b) a #f)", "(< b 5)", "b" };
static const char *TM[] = { "", "(if A B C)", "(and A (or B C))", "(or (and A B) C)", "(cond (A B) (C) (else (not a)))", "(case A ((#t) B) ((#f 3) C) (else (if B a C)))", "(if (not A) C B)" };
static void pr(int i) {
  if (nd[i].k == LEAF) { put(LF[nd[i].a]); return; }
  for (const char *t = TM[nd[i].k]; *t; t++) {
    if (*t == 'A') pr(nd[i].a); else if (*t == 'B') pr(nd[i].b); else if (*t == 'C') pr(nd[i].c);
    else { txt[tl++] = *t; txt[tl] = 0; }
  }
}
// value: tag 0 #f, 1 #t, 2 number
struct V { int tag; int64_t n; };
static V rf(int i) {
  Nd &x = nd[i];
  auto t = [](V v) { return v.tag != 0; };
  switch (x.k) {
  case LEAF:
    if (x.a == 0) return A < B ? V{2, A} : V{0, 0};
    if (x.a == 1) return B < 5 ? V{1, 0} : V{0, 0};
    return V{2, B};
  case IF: return t(rf(x.a)) ? rf(x.b) : rf(x.c);
  case AND2: { V a = rf(x.a); if (!t(a)) return a; V b = rf(x.b); return t(b) ? b : rf(x.c); }
  case OR2: { V a = rf(x.a); if (t(a)) { V b = rf(x.b); if (t(b)) return b; } return rf(x.c); }
  case COND: { if (t(rf(x.a))) return rf(x.b); V c = rf(x.c); return t(c) ? c : V{0, 0}; }
  case CASE: { V a = rf(x.a); if (a.tag == 1) return rf(x.b); if (a.tag == 0 || a.n == 3) return rf(x.c); return t(rf(x.b)) ? V{2, A} : rf(x.c); }
  default: return !t(rf(x.a)) ? rf(x.c) : rf(x.b);
  }
}
static void nested(int f) {
  A = sym64("a"); B = sym64("b"); defn("a", A); defn("b", B);
  nn = tl = 0;
  int r = gen_(sx_param("depth", 2), f); pr(r);
  V w = rf(r); S v = ev(txt);
  CHECK(w.tag == 0 ? isF(v) : w.tag == 1 ? isT(v) : isnumv(v, w.n), "value of nested conditionals");
  REACH("end");
}
H(n_if) { nested(IF); }
H(n_and) { nested(AND2); }
H(n_or) { nested(OR2); }
H(n_cond) { nested(COND); }
H(n_case) { nested(CASE); }
H(n_not) { nested(NOTIF); }
