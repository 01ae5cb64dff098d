// No program kills the host: built-in procedures on any operands, and malformed special forms.
// @bound args0-args3: every built-in procedure of the global environment except exit and quit, called with 0 to 3 operands (3: thorough); each operand's type is symbolic over 18 types (integers any 64-bit value, characters any byte, lists of 2, vectors of 2, strings of 2); for make-vector, make-string, make-hash-table, number->string, /, modulo, min and max integers come from 11 boundary values; allocations above 1 TB are taken to fail, those between 64 KB and 1 TB are not followed
// @bound forms0-forms3: every special form and a macro call with 0 to 3 operands (also with a dotted tail) whose shapes are symbolic to depth 2 (1 operand), 1 (2 or 3 operands)
// @bound lambda_shapes, macro_shapes: parameter lists of at most 3 entries of symbolic type, proper or dotted, body of symbolic type, 0 to 3 arguments
// @bound report: uncaught throws naming symbols of 15 lengths up to 2100; files, files_any: files of 3 bytes from 12, and 8 contexts around any byte
// @bound resource exhaustion (endless loops and recursion, memory that is merely large) is outside
// @quick_timeout 180
// @thorough_timeout 3000
// @max_enum 6
#include "any.h"
#include <stdio.h>
static char fn[300][40]; static int nfn;
static bool skip(const char *s) {
  static const char *X[] = { "exit", "quit" };
  for (const char *x : X) if (!strcmp(x, s)) return true;
  return false;
}
static void functions() {
  nfn = 0;
  for (auto *l = g_env.dummy.next; l; l = l->next)
    if (l->data && l->data->value && l->data->value->type == SCM::FUNC && !skip(l->data->key) && nfn < 300 && strlen(l->data->key) < 40) strcpy(fn[nfn++], l->data->key);
}
static void alive() {
  CHECK(isnumv(ev("(+ 1 2)"), 3), "evaluation works afterwards");
  CHECK(isnumv(ev("((lambda (z) (catch 'a (lambda () (throw 'a z)) (lambda (k v) v))) 7)"), 7), "throws work afterwards");
}
static void builtin(int part, int parts, int nargs) {
  if (nargs == 3 && !sx_param("thorough", 0)) { REACH("end"); return; }
  functions();
  int lo = nfn * part / parts, hi = nfn * (part + 1) / parts;
  int one = (int)sx_param("fn", -1);
  const char *f = one >= 0 ? fn[one] : fn[lo + choose(hi - lo, "function")];
  sx_print_(f, nargs);
  for (const char *x : { "make-vector", "make-string", "make-hash-table", "number->string", "/", "modulo", "min", "max" }) if (!strcmp(f, x)) any_few = 1;
  char p[100] = "("; strcat(p, f);
  for (int i = 0; i < nargs; i++) { char b[8]; snprintf(b, 8, "a%d", i); if (i == 2 && any_few) any_few = 2; def(b, any(b)); strcat(p, " "); strcat(p, b); }
  strcat(p, ")");
  S r = evf("(catch #t (lambda () %s) (lambda (k . a) 'caught))", p);
  CHECK(r != nullptr, "a value or a throw");
  def("r", r);
  ev("(let ((p (open-output-string))) (write r p) (display (list r) p) (get-output-string p))");
  alive();
  REACH("end");
}
H(count) { functions(); sx_obs_("functions", nfn); int one = (int)sx_param("fn", -1); if (one >= 0) CHECK(false, fn[one]); REACH("end"); }
H(args0) { builtin(0, 1, 0); }
H(args1_0) { builtin(0, 4, 1); }
H(args1_1) { builtin(1, 4, 1); }
H(args1_2) { builtin(2, 4, 1); }
H(args1_3) { builtin(3, 4, 1); }
H(args2_0) { builtin(0, 12, 2); }
H(args2_1) { builtin(1, 12, 2); }
H(args2_2) { builtin(2, 12, 2); }
H(args2_3) { builtin(3, 12, 2); }
H(args2_4) { builtin(4, 12, 2); }
H(args2_5) { builtin(5, 12, 2); }
H(args2_6) { builtin(6, 12, 2); }
H(args2_7) { builtin(7, 12, 2); }
H(args2_8) { builtin(8, 12, 2); }
H(args2_9) { builtin(9, 12, 2); }
H(args2_10) { builtin(10, 12, 2); }
H(args2_11) { builtin(11, 12, 2); }
H(args3_0) { builtin(0, 16, 3); }
H(args3_1) { builtin(1, 16, 3); }
H(args3_2) { builtin(2, 16, 3); }
H(args3_3) { builtin(3, 16, 3); }
H(args3_4) { builtin(4, 16, 3); }
H(args3_5) { builtin(5, 16, 3); }
H(args3_6) { builtin(6, 16, 3); }
H(args3_7) { builtin(7, 16, 3); }
H(args3_8) { builtin(8, 16, 3); }
H(args3_9) { builtin(9, 16, 3); }
H(args3_10) { builtin(10, 16, 3); }
H(args3_11) { builtin(11, 16, 3); }
H(args3_12) { builtin(12, 16, 3); }
H(args3_13) { builtin(13, 16, 3); }
H(args3_14) { builtin(14, 16, 3); }
H(args3_15) { builtin(15, 16, 3); }

// malformed special forms: the keyword followed by operands of undecided shape
static const char *FORMS[] = { "and", "or", "begin", "call/cc", "call-with-values", "case", "cond", "define", "define-macro", "define-module", "define-public",
  "delay", "do", "dynamic-wind", "export", "for-each", "if", "lambda", "let", "let*", "letrec", "map", "map-in-order", "quasiquote", "quote", "re-export", "set!",
  "use-modules", "apply", "x", "m" };
// a datum of undecided shape; lists are built from the data of the next level
static bool no_false;
static S form(const char *nm, int depth) {
  S a[ANYK]; int n = 0;
  char t[40];
  a[n++] = scm_nil();
  a[n++] = mksym("x");
  a[n++] = mksym("else");
  a[n++] = mksym("unquote");
  a[n++] = mksym("unbound");
  a[n++] = mkstr("a1", 2);
  a[n++] = ev("car");
  if (!no_false) a[n++] = mkbool(false);
  if (depth > 0) {
    int k = -1;
    snprintf(t, 40, "%s_kind", nm);
    if (any_few) { k = choose(n + 4, t); if (k < n) return a[k]; k -= n; if (k == 3) return mknum(any_int(nm)); }
    S l2[2] = { nullptr, nullptr };
    snprintf(t, 40, "%sA", nm); l2[0] = form(t, depth - 1);
    if (k == 0) return list_of(l2, 1);
    if (k == 2) return scm_cons(l2[0], mknum(5));
    snprintf(t, 40, "%sB", nm); l2[1] = form(t, depth - 1);
    if (k == 1) return list_of(l2, 2);
    a[n++] = list_of(l2, 1);
    a[n++] = list_of(l2, 2);
    a[n++] = scm_cons(l2[0], mknum(5));
  }
  return any_of(nm, a, n);
}
static void special(int part, int parts, int nargs, int depth) {
  int N = sizeof(FORMS) / sizeof(*FORMS), lo = N * part / parts, hi = N * (part + 1) / parts;
  defn("x", 4);
  ev("(define-macro (m a b) (list '+ a b))");
  int one = (int)sx_param("fn", -1);
  const char *f = one >= 0 ? FORMS[one] : FORMS[lo + choose(hi - lo, "form")];
  sx_print_(f, nargs);
  any_few = 2 * (!strcmp(f, "use-modules") || !strcmp(f, "define-module")); // hashing a symbolic name is beyond the solver
  no_false = !strcmp(f, "do"); // a false end test is a legitimate endless loop
  S a[4] = { mksym(f) };
  for (int i = 0; i < nargs; i++) { char b[8]; snprintf(b, 8, "f%d", i); 
    int d = depth;
    if (d > 0 && !strcmp(f, "m")) d = i == 0 || nargs < 3;
    if (any_few) d = i == 0 && d > 0 && nargs < 3 ? 1 : 0;
    if (i == 2 && !strcmp(f, "let")) d = 0;   // no endless recursion through a named let
    a[1 + i] = form(b, d);
  }
  S l = list_of(a, nargs + 1);
  if (choose(2, "dotted tail")) { S e = a[nargs]; l = scm_nil(); l = nargs ? scm_cons(a[nargs - 1], e) : l; for (int i = nargs - 2; i >= 0; i--) l = scm_cons(a[i], l); if (!nargs) return; }
  pscm_eval(l);
  alive();
  REACH("end");
}
H(forms0) { special(0, 1, 0, 0); }
H(forms1_0) { special(0, 2, 1, 2); }
H(forms1_1) { special(1, 2, 1, 2); }
H(forms2_0) { special(0, 6, 2, 1); }
H(forms2_1) { special(1, 6, 2, 1); }
H(forms2_2) { special(2, 6, 2, 1); }
H(forms2_3) { special(3, 6, 2, 1); }
H(forms2_4) { special(4, 6, 2, 1); }
H(forms2_5) { special(5, 6, 2, 1); }
H(forms3_0) { special(0, 8, 3, 1); }
H(forms3_1) { special(1, 8, 3, 1); }
H(forms3_2) { special(2, 8, 3, 1); }
H(forms3_3) { special(3, 8, 3, 1); }
H(forms3_4) { special(4, 8, 3, 1); }
H(forms3_5) { special(5, 8, 3, 1); }
H(forms3_6) { special(6, 8, 3, 1); }
H(forms3_7) { special(7, 8, 3, 1); }

// parameter lists and bodies of undecided shape, then a call
static S param(const char *nm) {
  S l[1] = { mksym("p") };
  S a[5] = { mksym("p"), mksym("q"), list_of(l, 1), scm_nil(), mkstr("a", 1) };
  return any_of(nm, a, 5);
}
static S pspec() {
  int k = choose(6, "parameter list");
  if (k == 0) return scm_nil();
  S a = param("p0");
  if (k == 1) return a;
  if (k == 2) return scm_cons(a, scm_nil());
  S b = param("p1");
  if (k == 3) return scm_cons(a, scm_cons(b, scm_nil()));
  if (k == 4) return scm_cons(a, b);
  return scm_cons(a, scm_cons(b, param("p2")));
}
static S proc_of(int kind) {
  S spec = pspec(), body = form("body", 0);
  defn("x", 4);
  if (kind == 0) { S f[3] = { mksym("lambda"), spec, body }; return pscm_eval(list_of(f, 3)); }
  S f[3] = { mksym("define-macro"), scm_cons(mksym("mm"), spec), body };
  return pscm_eval(list_of(f, 3));
}
static void shapes(int kind) {
  S p = proc_of(kind);
  if (kind == 0) { if (!p) { alive(); REACH("end"); return; } def("mm", p); }
  int n = choose(4, "arguments");
  sx_print_("arguments", n);
  static const char *C[] = { "(mm)", "(mm 1)", "(mm 1 car)", "(mm 1 car (list 1))" };
  ev(C[n]);
  alive();
  if (kind == 0) { static const char *A[] = { "(apply mm '())", "(apply mm '(1))", "(apply mm (list 1 car))", "(apply mm (list 1 car '(1)))" }; ev(A[n]); alive(); }
  REACH("end");
}
H(lambda_shapes) { shapes(0); }
H(macro_shapes) { shapes(1); }

// a throw that nobody catches is reported whatever the names in it
static S body_throw(void *d) { pscm_eval_string("1"); scm_throw((S)d, list_of((S[]){ mkstr((char *)cast<SCM_Symbol>((S)d)->data, cast<SCM_Symbol>((S)d)->len) }, 1)); return nullptr; }
H(report) {
  static const int N[] = { 0, 1, 990, 1000, 1001, 1002, 1003, 1004, 1005, 1010, 1023, 1024, 1025, 1500, 2100 };
  int n = N[choose(15, "length")];
  char *b = (char *)malloc(n + 1);
  memset(b, 'n', n); b[n] = 0;
  S tag = create_sym(b, n);
  S r = scm_internal_catch(scm_bool_true(), body_throw, tag, scm_handle_by_message_noexit, nullptr);
  CHECK(isF(r), "the reporting handler returns #f");
  evf("(%s 1)", b); evf("'(a . %s", b); evf("(car '%s)", b); evf("(let ((%s 1) 2) 3)", b);
  alive();
  REACH("end");
}
// files with unreadable contents
static void file(const char *txt, int n) {
  sx_vfile("f.scm", txt, n);
  pscm_eval_file("f.scm");
  alive();
  pscm_parse_file("f.scm");
  alive();
  ev("(catch #t (lambda () (primitive-load \"f.scm\")) (lambda (k . a) 0))");
  alive();
  CHECK(pscm_eval_file("none.scm") == nullptr, "a missing file is an error");
  REACH("end");
}
H(files) {
  static const char C[] = "()x1'\"#;. \n\\";
  char b[4]; 
  for (int i = 0; i < 3; i++) b[i] = C[choose(sizeof C - 1, "char")];
  file(b, 3);
}
H(files_any) {
  static const char *T[] = { "?", "(?", "(1 . ?", "\"?", "#?", "'?", "(?)", "1 ?)" };
  const char *t = T[choose(8, "template")];
  char b[8]; int n = (int)strlen(t);
  for (int i = 0; i < n; i++) b[i] = t[i] == '?' ? (char)sym8("c") : t[i];
  file(b, n);
}
