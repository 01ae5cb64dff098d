// Embedding: C programs define procedures, call Scheme, are called back, catch its errors, exchange strings and evaluate sources.
// @bound gsubr: C procedures with 0..3 required, 0..2 optional and an optional rest argument (with optional or rest arguments up to 3 required), called with 0..5 arguments from an expression, through a variable, by apply, and from C by scm_apply_0 or scm_call_n; arguments any 64-bit integer
// @bound call: scm_call_0..3 and scm_apply_0 (0..4 arguments) on closures with 0..3 parameters and with rest parameters, builtins, apply, map, call/cc and continuations; arguments any value of 14 types, including symbols and lists
// @bound errors: 8 kinds of failing expression, messages of up to 3 (thorough: 5) arbitrary bytes
// @bound nest: every nesting of 3 (thorough: 4) levels out of dynamic-wind, Scheme catch, C catch by key and by #t, C lazy catch, call/cc, pscm_eval and C call-back around 5 kinds of exit (value, two keys, an error, an escape to any level)
// @bound strings: C strings of up to 4 (thorough: 6) arbitrary bytes, NUL included
// @bound define: every history of 3 (thorough: 4) definitions and assignments of 2 names made from C or Scheme
// @bound sources: files and strings of up to 4 expressions, each adding to an observable trace; an error in any of them (scm_c_eval_string)
// @assume the library was initialised from a deeper stack frame (64 KB) than the one that uses it
// @assume pscm_eval_string evaluates the first expression of its text; scm_c_lookup returns a variable object holding the value at the time of the call
// @quick_timeout 150
// @param_thorough levels=4
// @param_thorough msg=5
// @param_thorough bytes=6
// @param_thorough history=4
// @thorough_timeout 1200
#include "any.h"
#include "throw.h"
#include <stdlib.h>
void sx_boot() { volatile int n = 65536; volatile char *frame = (volatile char *)__builtin_alloca(n); frame[0] = 1; pscm_init(); frame[n - 1] = frame[0]; }
typedef S (*F0)(void);

// ---- running C code with every throw caught: 0 returned, 1 thrown
static S g_key, g_args;
static bool thrown;
static S guard(S (*f)(void *), void *d) {
  thrown = false;
  return scm_c_catch(scm_bool_true(), f, d, [](void *, S k, S a) -> S { thrown = true; g_key = k; g_args = a; return nullptr; }, nullptr);
}
static S c_apply(S proc, S *a, int n, int how) {
  struct R { S p; S *a; int n; int how; } r = { proc, a, n, how };
  return guard([](void *d) -> S {
    R *r = (R *)d;
    if (r->how) switch (r->n) {
      case 0: return scm_call_0(r->p);
      case 1: return scm_call_1(r->p, r->a[0]);
      case 2: return scm_call_2(r->p, r->a[0], r->a[1]);
      case 3: return scm_call_3(r->p, r->a[0], r->a[1], r->a[2]);
    }
    return scm_apply_0(r->p, list_of(r->a, r->n));
  }, &r);
}
static bool same(S a, S b) { return a && b && a->type == b->type && a->value == b->value; }

// ---- procedures written in C
static int got_n, calls; static S got[8];
static S f0() { calls++; got_n = 0; return mksym("done"); }
static S f1(S a) { calls++; got_n = 1; got[0] = a; return mksym("done"); }
static S f2(S a, S b) { calls++; got_n = 2; got[0] = a; got[1] = b; return mksym("done"); }
static S f3(S a, S b, S c) { calls++; got_n = 3; got[0] = a; got[1] = b; got[2] = c; return mksym("done"); }
static S fv(SCM_List *l) { calls++; got_n = 0; for (; l && got_n < 8; l = l->next) got[got_n++] = l->data; return mksym("done"); }
static void gsubr_(int req, bool var) {
  int opt = var ? choose(3, "optional") : 0, rst = var ? (opt ? choose(2, "rest") : 1) : 0;
  F0 f = var ? (F0)fv : req == 0 ? (F0)f0 : req == 1 ? (F0)f1 : req == 2 ? (F0)f2 : (F0)f3;
  S proc = pscm_c_define_gsubr("g", req, opt, rst, f);
  int n = choose(6, "given"); S a[5]; int64_t v[5]; char nm[8];
  for (int i = 0; i < n; i++) { v[i] = sym64("v"); a[i] = mknum(v[i]); snprintf(nm, 8, "a%d", i); def(nm, a[i]); }
  int how = choose(5, "how");
  char e[64]; int k = 0;
  for (int i = 0; i < n; i++) k += snprintf(e + k, sizeof e - k, " a%d", i);
  e[k] = 0;
  S r;
  bool failed, arity;
  if (how < 3) {
    r = how == 0 ? evf("(g%s)", e) : how == 1 ? evf("(let ((h g)) (h%s))", e) : evf("(apply g (list%s))", e);
    failed = !r; arity = sx_err("wrong-number-of-args");
  } else {
    r = c_apply(how == 4 ? scm_variable_ref(scm_c_lookup("g")) : proc, a, n, how - 3);
    failed = thrown; arity = thrown && issymn(g_key, "wrong-number-of-args");
  }
  if (n >= req && (rst || n <= req + opt)) {
    CHECK(!failed && issymn(r, "done") && calls == 1, "called once, its result returned");
    CHECK(got_n == n, "with every argument");
    for (int i = 0; i < n && i < got_n; i++) CHECK(isnumv(got[i], v[i]), "in order");
  } else {
    CHECK(failed && arity, "a wrong number of arguments is an error");
    CHECK(calls == 0, "and the C function does not run");
  }
  CHECK(isT(ev("(procedure? g)")), "it is a procedure");
  REACH("end");
}
H(gsubr0) { gsubr_(0, false); }
H(gsubr1) { gsubr_(1, false); }
H(gsubr2) { gsubr_(2, false); }
H(gsubr3) { gsubr_(3, false); }
H(gsubr0v) { gsubr_(0, true); }
H(gsubr1v) { gsubr_(1, true); }
H(gsubr2v) { gsubr_(2, true); }
H(gsubr3v) { gsubr_(3, true); }

// ---- calling Scheme procedures with values
static S val(int i) {
  switch (choose(8, "value")) {
  case 0: return mknum(sym64("v"));
  case 1: return mksym("undefined-name");
  case 2: { S l[2] = { mksym("car"), mknum(5) }; return list_of(l, 2); }
  case 3: { S l[2] = { mksym("quote"), mksym("x") }; return list_of(l, 2); }
  case 4: return scm_nil();
  case 5: { char b[2] = { (char)sym8("b"), 'x' }; return mkstr(b, 2); }
  case 6: return mkbool(false);
  default: return ev("(lambda (x) x)");
  }
}
static void call_(const char *src, int lo, int hi) {   // src collects its arguments in a list
  int n = choose(5, "given"), how = choose(2, "how");
  S a[4]; for (int i = 0; i < n; i++) a[i] = i < 2 ? val(i) : mknum(100 + i);
  S p = ev(src);
  S r = c_apply(p, a, n, how);
  if (n < lo || n > hi) { CHECK(thrown, "a wrong number of arguments is an error"); REACH("end"); return; }
  CHECK(!thrown && lenof(r) == n, "every argument arrives");
  for (int i = 0; i < n && i < lenof(r); i++) CHECK(same(nth(r, i), a[i]), "in order, as it was given");
  REACH("end");
}
H(call0) { call_("(lambda () (list))", 0, 0); }
H(call1) { call_("(lambda (x) (list x))", 1, 1); }
H(call2) { call_("(lambda (x y) (list x y))", 2, 2); }
H(call3) { call_("(let ((q 1)) (define (f x y z) (cons x (list y z))) f)", 3, 3); }
H(callr) { call_("(lambda r r)", 0, 9); }
H(call1r) { call_("(lambda (x . r) (cons x r))", 1, 9); }
H(call2r) { call_("(lambda (x y . r) (cons x (cons y r)))", 2, 9); }
H(callb) { call_("list", 0, 9); }
H(calle) { call_("((lambda (k) (lambda r (call/cc (lambda (e) (for-each (lambda (x) x) r) (e r) (k 0))))) car)", 0, 9); }
// the caller keeps its list and its values, whatever the callee does to its parameters
H(call_keeps) {
  static const char *P[] = { "(lambda r (set-car! r 'x) (set-cdr! (cdr r) '()) (set! r 1) 0)", "(lambda (a . r) (set-car! r 'x) (set! a 1) (set-cdr! r 3) 0)",
    "(lambda (a b . r) (set! a 1) (set! b 2) (set-car! r 7) 0)", "(lambda (a b c) (set! a 1) (set! b 2) (set! c 3) 0)" };
  int64_t v[3] = { sym64("v"), sym64("w"), sym64("x") };
  S a[3] = { mknum(v[0]), mknum(v[1]), mknum(v[2]) }, l = list_of(a, 3);
  S p = ev(P[choose(4, "callee")]);
  struct R { S p, l; } r = { p, l };
  S res = guard([](void *d) -> S { R *r = (R *)d; return scm_apply_0(r->p, r->l); }, &r);
  CHECK(!thrown && isnumv(res, 0), "it runs");
  CHECK(lenof(l) == 3, "the caller's list keeps its length");
  for (int i = 0; i < 3 && i < lenof(l); i++) CHECK(isnumv(nth(l, i), v[i]), "and its elements");
  REACH("end");
}
// procedures that are also syntax
H(call_special) {
  int64_t v = sym64("v"), w = sym64("w");
  S l[2] = { mknum(v), mknum(w) };
  S e[2] = { mksym("x"), mksym("y") }, pr[2] = { scm_cons(e[0], mknum(v)), scm_cons(e[1], mknum(w)) };
  S a[3];
  switch (choose(8, "procedure")) {
  case 0: { a[0] = ev("list"); a[1] = list_of(l, 2); S r = c_apply(ev("apply"), a, 2, choose(2, "how")); CHECK(!thrown && lenof(r) == 2 && isnumv(nth(r, 0), v) && isnumv(nth(r, 1), w), "apply"); break; }
  case 1: { a[0] = ev("car"); a[1] = list_of(pr, 2); S r = c_apply(ev("map"), a, 2, choose(2, "how")); CHECK(!thrown && lenof(r) == 2 && issymn(nth(r, 0), "x") && issymn(nth(r, 1), "y"), "map"); break; }
  case 2: { a[0] = ev("(lambda (p) (cdr p))"); a[1] = list_of(pr, 2); S r = c_apply(ev("map-in-order"), a, 2, choose(2, "how")); CHECK(!thrown && lenof(r) == 2 && isnumv(nth(r, 0), v) && isnumv(nth(r, 1), w), "map-in-order"); break; }
  case 3: { def("v", l[0]); a[0] = ev("(lambda (k) (list 1 (k v)))"); S r = c_apply(ev(choose(2, "name") ? "call/cc" : "call-with-current-continuation"), a, 1, choose(2, "how")); CHECK(!thrown && isnumv(r, v), "call/cc"); break; }
  case 4: { def("v", l[0]); def("w", l[1]); S r = ev("(call-with-values (lambda () (values list v (list w))) apply)"); CHECK(lenof(r) == 2 && isnumv(nth(r, 0), v) && isnumv(nth(r, 1), w), "apply as a consumer"); break; }
  case 5: { def("p", list_of(pr, 2)); S r = ev("(call-with-values (lambda () (values cdr p)) map)"); CHECK(lenof(r) == 2 && isnumv(nth(r, 0), v) && isnumv(nth(r, 1), w), "map as a consumer"); break; }
  case 6: { def("v", l[0]); S r = ev("(call-with-values (lambda () (lambda (k) (k v))) call/cc)"); CHECK(isnumv(r, v), "call/cc as a consumer"); break; }
  case 7: { a[0] = ev("list"); a[1] = mksym("x"); a[2] = scm_nil(); S r = c_apply(ev("apply"), a, 3, choose(2, "how")); CHECK(!thrown && lenof(r) == 1 && issymn(nth(r, 0), "x"), "apply with symbols"); break; }
  }
  REACH("end");
}
// a continuation called from C returns to where it was made
static S c_k(S p) { S a[1] = { mksym("back") }; scm_call_1(p, a[0]); calls++; return mknum(0); }
static S c_k2(S p) { S a[2] = { mknum(1), mksym("two") }; scm_apply_0(p, list_of(a, 2)); calls++; return mknum(0); }
H(call_continuation) {
  pscm_c_define_gsubr("c-k", 1, 0, 0, (F0)c_k); pscm_c_define_gsubr("c-k2", 1, 0, 0, (F0)c_k2);
  ev("(define t '())");
  switch (choose(3, "shape")) {
  case 0: CHECK(issymn(ev("(call/cc (lambda (k) (c-k k) 'lost))"), "back"), "value"); break;
  case 1: { S r = ev("(call-with-values (lambda () (call/cc (lambda (k) (c-k2 k) 'lost))) list)"); CHECK(lenof(r) == 2 && isnumv(nth(r, 0), 1) && issymn(nth(r, 1), "two"), "values"); break; }
  case 2: { S r = ev("(let ((r (call/cc (lambda (k) (dynamic-wind (lambda () (set! t (cons 'i t))) (lambda () (c-k k)) (lambda () (set! t (cons 'o t)))))))) (cons r t))");
    CHECK(lenof(r) == 3 && issymn(nth(r, 0), "back") && issymn(nth(r, 1), "o") && issymn(nth(r, 2), "i"), "winds are left"); break; }
  }
  CHECK(calls == 0, "the C caller is abandoned");
  REACH("end");
}
// ---- continuations that are resumed, used by a host whose stack is shallower than when it initialised the library
H(reentry) {
  int n = choose(4, "times"); defn("n", n); defn("v", sym64("v"));
  ev("(define log '())");
  S r;
  if (choose(2, "how") == 0) r = ev("(let ((i 0) (k #f)) (let ((got (call/cc (lambda (c) (set! k c) 0)))) (set! log (cons got log)) (set! i (+ i 1)) (if (<= i n) (k i) (list i v))))");
  else { S p = ev("(lambda (v) (let ((i 0) (k #f)) (let ((got (call/cc (lambda (c) (set! k c) 0)))) (set! log (cons got log)) (set! i (+ i 1)) (if (<= i n) (k i) (list i v)))))"); S a[1] = { ev("v") }; r = c_apply(p, a, 1, 1); }
  CHECK(lenof(r) == 2 && isnumv(nth(r, 0), n + 1) && same(nth(r, 1), ev("v")), "result after the last resumption");
  S l = ev("(reverse log)");
  CHECK(lenof(l) == n + 1, "resumed that often");
  for (int i = 0; i <= n && i < lenof(l); i++) CHECK(isnumv(nth(l, i), i), "with the value passed");
  REACH("end");
}
// ---- errors at the boundary
H(errors) {
  int m = (int)sx_param("msg", 3);
  int n = choose(m + 1, "length"); char b[8] = { 0 };
  for (int i = 0; i < n; i++) { b[i] = (char)sym8("b"); ASSUME(b[i] != 0); }
  def("msg", mkstr(b, n)); def("five", mknum(5)); defn("x", 1);
  static const char *E[] = { "(throw 'my-key msg)", "(throw 'my-key 'who msg 1 2)", "(begin (set! x 2) (throw 'my-key msg))", "(dynamic-wind (lambda () 0) (lambda () (throw 'my-key msg)) (lambda () (set! x 3)))",
    "(catch 'other (lambda () (throw 'my-key msg)) (lambda r 0))", "(catch 'a (lambda () (throw 'a)) (lambda (k . r) (throw 'my-key msg)))", "(map (lambda (z) (throw 'my-key msg)) '(1 2))", "(scm-smob-data (throw 'my-key msg))" };
  int k = choose(8, "expression");
  S r = ev(E[k]);
  CHECK(!r, "an uncaught throw makes the evaluation fail");
  CHECK(sx_err("my-key"), "its key is reported");
  const char *s = pscm_get_last_error_message();
  CHECK(s && strcmp(s, b) == 0, "its message is reported");
  CHECK(isnumv(ev("x"), k == 2 ? 2 : k == 3 ? 3 : 1), "effects made before it stay");
  // a second, different failure replaces the first; an evaluation after it works
  CHECK(!ev("(throw 'again)") && sx_err("again"), "the latest failure is the one reported");
  CHECK(!pscm_get_last_error_message(), "without the message of an earlier one");
  CHECK(!ev("(car five)") && sx_err("error") && pscm_get_last_error_message() && strstr(pscm_get_last_error_message(), "pair"), "an error of a builtin");
  CHECK(!ev("(five)") && !ev("undefined-variable") && !ev("((lambda (x) x))"), "errors of the evaluator");
  CHECK(!pscm_parse("(1 2") && !pscm_eval_string("(+ 1") , "a text that does not parse");
  CHECK(isnumv(ev("(call/cc (lambda (k) (dynamic-wind (lambda () (set! x 10)) (lambda () (k (+ x 1))) (lambda () (set! x 20)))))"), 11) && isnumv(ev("x"), 20), "evaluation goes on");
  REACH("end");
}
// ---- C and Scheme nested in one another: where control goes and what runs on the way
enum { DW, SC, CK, CT, LZ, EP, PE, CB, NW };
enum { XV, XK, XJ, XE, XC, NX };
static int kind[6], nlev, leaf, target, tr[64], ntr;
static int64_t leafv;
static S proc_[NW];
static void note(int x) { if (ntr < 64) tr[ntr++] = x; }
static S run(int i);
static S c_run(S i) { return run((int)numv(i)); }
static S c_tr(S x) { note((int)numv(x)); return x; }
static S body(void *d) { return run((int)(long)d); }
static S run(int i) {
  if (i == nlev) switch (leaf) {
    case XV: return mknum(leafv);
    case XK: { S a[1] = { mknum(leafv) }; scm_throw(mksym("k"), list_of(a, 1)); return nullptr; }
    case XJ: { S a[1] = { mknum(leafv) }; pscm_ithrow(mksym("j"), list_of(a, 1), 1); return nullptr; }
    case XE: return scm_call_1(scm_variable_ref(scm_c_lookup("car")), mknum(1));
    default: { char b[8]; snprintf(b, 8, "esc%d", target); S k = scm_variable_ref(scm_c_lookup(b)); scm_call_1(k, mknum(leafv)); return nullptr; }
  }
  S r;
  switch (kind[i]) {
  case DW: case SC: case EP: r = scm_call_1(proc_[kind[i]], mknum(i)); break;
  case CK: case CT:
    r = scm_c_catch(kind[i] == CK ? mksym("k") : scm_bool_true(), body, (void *)(long)(i + 1), [](void *d, S k, S a) -> S { note(10 * (int)(long)d + 2); return mksym("caught"); }, (void *)(long)i); break;
  case LZ: r = scm_internal_lazy_catch(mksym("k"), body, (void *)(long)(i + 1), [](void *d, S k, S a) -> S { note(10 * (int)(long)d + 3); return mknum(0); }, (void *)(long)i); break;
  case PE: { S e[2] = { mksym("run"), mknum(i + 1) }; r = pscm_eval(list_of(e, 2)); if (!r) { note(10 * i + 4); r = mksym("failed"); } break; }
  default: { S e[1] = { mknum(i + 1) }; r = scm_apply_0(scm_variable_ref(scm_c_lookup("run")), list_of(e, 1)); break; }
  }
  note(10 * i + 5);
  return r;
}
// reference
enum { VAL, THROW, ESC };
static int want[64], nw; static int wout, wkey; static bool wcaught; static const char *wsym;
static void w(int x) { if (nw < 64) want[nw++] = x; }
static void spec(int i) {
  if (i == nlev) {
    wsym = nullptr;
    if (leaf == XV) { wout = VAL; return; }
    if (leaf == XC) { wout = ESC; return; }
    wout = THROW; wkey = leaf;
    // lazy handlers between here and the catch run now, innermost first
    for (int j = nlev - 1; j >= 0; j--) {
      if (kind[j] == CT || kind[j] == PE || ((kind[j] == SC || kind[j] == CK) && wkey == XK)) break;
      if (kind[j] == LZ && wkey == XK) w(10 * j + 3);
    }
    return;
  }
  if (kind[i] == DW) w(10 * i);
  spec(i + 1);
  if (kind[i] == DW) w(10 * i + 1);
  if (wout == THROW) {
    if (kind[i] == SC && wkey == XK) { w(10 * i + 6); wout = VAL; wsym = "caught"; }
    else if ((kind[i] == CK && wkey == XK) || kind[i] == CT) { w(10 * i + 2); wout = VAL; wsym = "caught"; }
    else if (kind[i] == PE) { w(10 * i + 4); wout = VAL; wsym = "failed"; }
  } else if (wout == ESC && kind[i] == EP && target == i) wout = VAL, wsym = nullptr;
  if (wout == VAL) w(10 * i + 5);
}
static void nest_(int outer) {
  pscm_c_define_gsubr("run", 1, 0, 0, (F0)c_run); pscm_c_define_gsubr("tr", 1, 0, 0, (F0)c_tr);
  proc_[DW] = ev("(lambda (i) (dynamic-wind (lambda () (tr (* 10 i))) (lambda () (run (+ i 1))) (lambda () (tr (+ 1 (* 10 i))))))");
  proc_[SC] = ev("(lambda (i) (catch 'k (lambda () (run (+ i 1))) (lambda (key . r) (tr (+ 6 (* 10 i))) 'caught)))");
  ev("(define esc0 #f)"); ev("(define esc1 #f)"); ev("(define esc2 #f)"); ev("(define esc3 #f)"); ev("(define esc4 #f)");
  proc_[EP] = ev("(lambda (i) (call/cc (lambda (e) (cond ((= i 0) (set! esc0 e)) ((= i 1) (set! esc1 e)) ((= i 2) (set! esc2 e)) (else (set! esc3 e))) (run (+ i 1)))))");
  nlev = (int)sx_param("levels", 3);
  kind[0] = outer;
  for (int i = 1; i < nlev; i++) kind[i] = choose(NW, "wrapper");
  leaf = choose(NX, "leaf");
  if (leaf == XC) { int c[6], n = 0; for (int i = 0; i < nlev; i++) if (kind[i] == EP) c[n++] = i; if (!n) { REACH("end"); return; } target = c[choose(n, "target")]; }
  leafv = sym64("value");
  S r = ev("(run 0)");
  spec(0);
  CHECK(ntr == nw, "exactly the handlers and winds on the way run");
  for (int i = 0; i < nw && i < ntr; i++) CHECK(tr[i] == want[i], "in order");
  if (wout == THROW) CHECK(!r && sx_err(wkey == XK ? "k" : wkey == XJ ? "j" : "error"), "what nobody catches fails the evaluation");
  else { CHECK(r != nullptr, "a value"); CHECK(wsym ? issymn(r, wsym) : isnumv(r, leafv), "the value"); }
  // nothing is left behind
  ntr = 0;
  CHECK(isnumv(ev("(call/cc (lambda (k) (catch 'k (lambda () (throw 'k)) (lambda r (k 1)))))"), 1) && ntr == 0, "no wind or catch is left behind");
  REACH("end");
}
H(nest_dw) { nest_(DW); }
H(nest_sc) { nest_(SC); }
H(nest_ck) { nest_(CK); }
H(nest_ct) { nest_(CT); }
H(nest_lz) { nest_(LZ); }
H(nest_ep) { nest_(EP); }
H(nest_pe) { nest_(PE); }
H(nest_cb) { nest_(CB); }
// ---- strings and symbols
H(strings) {
  int m = (int)sx_param("bytes", 4), n = choose(m + 1, "length"); char b[8];
  for (int i = 0; i < n; i++) b[i] = (char)sym8("b");
  b[n] = 0;
  char c[8]; memcpy(c, b, sizeof c);
  S s = scm_from_locale_stringn(b, n);
  for (int i = 0; i < n; i++) b[i] = 'z';
  CHECK(stris(s, c, n), "a Scheme string holds the bytes given, its own copy");
  def("s", s);
  CHECK(isnumv(ev("(string-length s)"), n), "and its length");
  size_t len = 99; char *p = scm_to_locale_stringn(s, &len);
  CHECK(p && (int)len == n && memcmp(p, c, n) == 0, "and converts back");
  if (n) { p[0] ^= 1; CHECK(stris(s, c, n), "into a copy"); }
  free(p);
  struct R { S s; char *p; } r = { s, nullptr };
  guard([](void *d) -> S { R *r = (R *)d; r->p = scm_to_locale_stringn(r->s, nullptr); return nullptr; }, &r);
  bool nul = false; for (int i = 0; i < n; i++) nul |= c[i] == 0;
  if (nul) CHECK(thrown, "a NUL inside is an error for a C string");
  else { CHECK(!thrown && r.p && strcmp(r.p, c) == 0, "as a C string"); free(r.p); }
  S y = scm_from_locale_symboln(c, n);
  CHECK(stris(scm_symbol_to_string(y), c, n), "a symbol has the name given");
  def("y", y); CHECK(isT(ev("(and (symbol? y) (eq? y (string->symbol s)) (string=? (symbol->string y) s))")), "and is the symbol of that name");
  if (!nul) { CHECK(stris(scm_from_locale_stringn(c, (size_t)-1), c, n), "length from the NUL"); CHECK(stris(scm_symbol_to_string(scm_from_locale_symbol(c)), c, n), "symbol from a C string"); CHECK(stris(scm_symbol_to_string(scm_from_locale_symboln(c, (size_t)-1)), c, n), "likewise with -1"); }
  REACH("end");
}
// ---- variables shared with C
H(define) {
  int n = (int)sx_param("history", 3); int64_t cur[2]; bool is[2] = { false, false };
  static const char *NMS[2] = { "va", "vb" };
  pscm_c_define("va", mknum(cur[0] = sym64("init"))); is[0] = true;
  ev("(define (get-va) va)"); ev("(define (get-vb) vb)");
  for (int i = 0; i < n; i++) {
    int x = choose(2, "name"); int64_t v = sym64("v");
    switch (choose(4, "operation")) {
    case 0: pscm_c_define(NMS[x], mknum(v)); break;
    case 1: defn("tmp", v); evf("(define %s tmp)", NMS[x]); break;
    case 2: defn("tmp", v); if (!is[x]) continue; evf("(set! %s tmp)", NMS[x]); break;
    case 3: pscm_c_module_define(pscm_c_current_module(), NMS[x], mknum(v)); break;
    }
    cur[x] = v; is[x] = true;
  }
  for (int x = 0; x < 2; x++) {
    if (!is[x]) { struct D { const char *n; } d = { NMS[x] }; guard([](void *p) -> S { return pscm_c_lookup(((D *)p)->n); }, &d); CHECK(thrown, "looking up an undefined name is an error"); CHECK(!ev(NMS[x]), "for Scheme, too"); continue; }
    CHECK(isnumv(ev(NMS[x]), cur[x]), "Scheme sees the latest value");
    CHECK(isnumv(pscm_variable_ref(pscm_c_lookup(NMS[x])), cur[x]), "C sees it");
    CHECK(isnumv(pscm_variable_ref(pscm_c_module_lookup(pscm_c_current_module(), NMS[x])), cur[x]), "C sees it in the module");
    CHECK(isnumv(pscm_variable_ref(scm_lookup(mksym(NMS[x]))), cur[x]), "by symbol");
    CHECK(isnumv(evf("(get-%s)", NMS[x]), cur[x]), "procedures made before see it");
    CHECK(isnumv(evf("(eval '%s)", NMS[x]), cur[x]), "eval sees it");
  }
  REACH("end");
}
// ---- whole sources
H(sources) {
  int n = choose(5, "expressions"), how = choose(4, "how"), bad = how == 0 ? choose(n + 1, "bad") : n; char b[256] = ""; int k = 0; int64_t v[4];
  ev("(define log '())"); char nm[8];
  for (int i = 0; i < n; i++) { v[i] = sym64("v"); snprintf(nm, 8, "v%d", i); defn(nm, v[i]); }
  static const char *SEP[] = { "\n", "", " ; note\n", " ; (\n ;)\n" };
  int sep = choose(4, "separator");
  for (int i = 0; i < n; i++) k += snprintf(b + k, sizeof b - k, i == bad ? "(car v%d)%s" : i == 2 ? "v%d%s" : "(begin (set! log (cons v%d log)) (list (car log)))%s", i, SEP[sep]);
  S r = nullptr; thrown = false;
  if (how == 0) r = guard([](void *d) -> S { return scm_c_eval_string((const char *)d); }, b);
  else {
    if (!n) { REACH("end"); return; }
    sx_vfile("prog.scm", b, k);
    if (how == 1) r = pscm_eval_file("prog.scm");
    else if (how == 2) r = ev("(primitive-load \"prog.scm\")");
    else r = guard([](void *) -> S { return scm_c_primitive_load("prog.scm"); }, nullptr);
  }
  S l = ev("(reverse log)"); int m = 0;
  for (int i = 0; i < n && i < bad; i++) if (i != 2) { CHECK(m < lenof(l) && isnumv(nth(l, m), v[i]), "each expression once, in order"); m++; }
  CHECK(lenof(l) == m, "and no other");
  CHECK(thrown == (bad < n), "an error ends it");
  if (bad == n && n) CHECK(n == 3 ? isnumv(r, v[2]) : (lenof(r) == 1 && isnumv(nth(r, 0), v[n - 1])), "the value is the last one's");
  REACH("end");
}
