// catch / throw: the innermost enclosing matching catch, with the thrown arguments, and nothing left behind.
// @bound programs: every nesting of three (thorough: four) constructs out of catch of a, of b, of everything, sequencing and a conditional, where the innermost expression and every handler is decided by the data: a value, a throw to a or b, an error; values arbitrary integers within +-1000
// @bound arguments: 0..4 thrown values of any integer, handlers with rest parameter, list parameter, exact parameters, built-in procedures and continuations; keys of 1..2 arbitrary bytes, keys that extend one another, every pair of 16 well-known keys
// @bound nesting: catches 1..130 deep entered by recursion, thrown to any of 3 depths; throw out of map, for-each, do, let, apply, sort-free higher-order calls, argument positions, promises and call-with-values
// @bound C API: scm_internal_catch and scm_internal_lazy_catch nested two deep in either order around a Scheme throw
// @quick_timeout 200
// @param_thorough depth=4 deep=400
#include "control.h"
static const int CS[] = { CATA, CATB, CATT, SEQ, IFX, -1 };
static void tree_(int force) { g_cons = CS; g_nleaf = 4; control_program((int)sx_param("depth", 3), force); }
H(t_catch_a) { tree_(CATA); }
H(t_catch_b) { tree_(CATB); }
H(t_catch_all) { tree_(CATT); }
H(t_seq) { tree_(SEQ); }
// ---- arguments reach the handler
H(arguments) {
  int n = choose(5, "count"), hk = choose(6, "handler");
  int64_t a[4]; char call[64] = "(throw 'k";
  for (int i = 0; i < n; i++) { a[i] = sym64("a"); char b[8]; snprintf(b, 8, "a%d", i); defn(b, a[i]); strcat(call, " "); strcat(call, b); }
  strcat(call, ")");
  static const char *HS[] = { "(lambda (key . r) (cons key r))", "(lambda l l)", "list", "(lambda (key x) (list key x))",
                              "(lambda (key) (list key))", "(lambda (key x . r) (cons key (cons x r)))" };
  S r = evf("(catch 'k (lambda () (+ 1 %s)) %s)", call, HS[hk]);
  bool ok = hk == 3 ? n == 1 : hk == 4 ? n == 0 : hk == 5 ? n >= 1 : true;
  if (!ok) { CHECK(r == nullptr, "a handler that does not take the arguments is an error"); REACH("end"); return; }
  CHECK(lenof(r) == n + 1 && issymn(nth(r, 0), "k"), "the handler gets the key and every argument");
  for (int i = 0; i < n && i + 1 < lenof(r); i++) CHECK(isnumv(nth(r, i + 1), a[i]), "the arguments in order");
  REACH("end");
}
H(handler_kinds) {
  int64_t x = sym64("x"); defn("x", x);
  CHECK(isnumv(ev("(call/cc (lambda (k) (catch 'a (lambda () (throw 'a x)) (lambda (key v) (k v)))))"), x), "handler may escape");
  S r = ev("(call/cc (lambda (k) (catch 'a (lambda () (throw 'a x)) k)))");
  CHECK(lenof(r) == 2 && issymn(nth(r, 0), "a") && isnumv(nth(r, 1), x), "a continuation as handler");
  CHECK(isnil(ev("(catch 'a list (lambda (key . r) x))")), "a built-in as body");
  CHECK(isnumv(ev("(catch 'a (lambda () x) car)"), x), "an unused handler is not called");
  CHECK(ev("(catch 'a x (lambda (key . r) x))") == nullptr, "a body that is no procedure");
  CHECK(ev("(catch 'a (lambda () 1) x)") == nullptr, "a handler that is no procedure");
  CHECK(ev("(catch x (lambda () 1) (lambda (key . r) x))") == nullptr, "a tag that is neither a symbol nor #t");
  CHECK(ev("(throw x 1)") == nullptr && sx_err("error"), "a key that is no symbol");
  REACH("end");
}
// ---- which catch: keys match by name, wholly
H(key_match) {
  char t[3] = { 0 }, k[3] = { 0 };
  int tn = 1 + choose(2, "tag length"), kn = 1 + choose(2, "key length");
  for (int i = 0; i < tn; i++) t[i] = (char)sym8("t");
  for (int i = 0; i < kn; i++) k[i] = (char)sym8("k");
  def("t", mkstr(t, tn)); def("k", mkstr(k, kn));
  ev("(define ts (string->symbol t))"); ev("(define ks (string->symbol k))");
  bool eq = tn == kn && memcmp(t, k, tn) == 0;
  S r = ev("(catch #t (lambda () (catch ts (lambda () (throw ks 1)) (lambda l 1))) (lambda l 2))");
  CHECK(isnumv(r, eq ? 1 : 2), "a catch takes the throws to its own key");
  REACH("end");
}
// no key is special: every pair of well-known keys
H(named_keys) {
  static const char *K[] = { "quit", "error", "misc-error", "wrong-number-of-args", "wrong-type-arg", "out-of-range", "system-error", "signal", "unbound-variable", "abort", "exit", "key", "t", "all", "%exception", "stack-overflow" };
  int n = sizeof K / sizeof *K, k = choose(n, "key"), c = choose(n + 1, "tag"); int64_t x = sym64("x"); defn("x", x);
  char tag[40]; if (c == n) strcpy(tag, "#t"); else snprintf(tag, 40, "'%s", K[c]);
  S r = evf("(catch #t (lambda () (catch %s (lambda () (throw '%s x)) (lambda l (cons 'in l)))) (lambda l (cons 'out l)))", tag, K[k]);
  CHECK(lenof(r) == 3 && issymn(nth(r, 0), c == n || c == k ? "in" : "out"), "a catch takes the throws to its own key, and catch #t every throw");
  CHECK(issymn(nth(r, 1), K[k]) && isnumv(nth(r, 2), x), "key and argument");
  CHECK(evf("(throw '%s x)", K[k]) == nullptr && sx_err(K[k]), "an uncaught throw of any key ends the form");
  prelude(); check_clean();
  REACH("end");
}
// ---- depth: recursion enters catches, the throw picks one
H(deep) {
  static const int DS[] = { 1, 40, 130 };
  int d = sx_param("deep", 0) ? (int)sx_param("deep", 0) : DS[choose(3, "depth")];
  int64_t p = symrange("at", 0, 1), x = sym64("x");
  defn("d", d); defn("x", x); defn("p", p);
  ev("(define (f i) (catch (if (= i 1) 'one (if (= i d) 'inner 'mid)) (lambda () (if (= i d) (throw (if (= p 0) 'one 'outer) x) (f (+ i 1)))) (lambda (k v) (list i v))))");
  S r = ev("(catch 'outer (lambda () (f 1)) (lambda (k v) (list 0 v)))");
  if (d == 1) { CHECK(isnumv(nth(r, 0), p == 0 ? 1 : 0), "outermost"); }
  else CHECK(isnumv(nth(r, 0), p == 0 ? 1 : 0), "any depth");
  CHECK(isnumv(nth(r, 1), x), "value");
  prelude(); check_clean();
  REACH("end");
}
// ---- repeated: a throw out of k catches does not use anything up
H(repeated) {
  int64_t x = symrange("x", -1000, 1000); defn("x", x);
  bool inner = symrange("inner", 0, 1) == 1; def("t", mksym(inner ? "b" : "a"));
  ev("(define (hb k v) (+ v 1))"); ev("(define (ha k v) v)"); ev("(define (th) (throw t x))"); ev("(define (mid) (catch 'b th hb))");
  S r = ev("(let loop ((i 0) (s 0)) (if (= i 110) s (loop (+ i 1) (+ s (catch 'a mid ha)))))");
  CHECK(isnumv(r, 110 * (inner ? x + 1 : x)), "110 throws");
  prelude(); check_clean();
  REACH("end");
}
// ---- out of every kind of call
H(contexts) {
  static const char *C[] = {
    "(map (lambda (i) (if (= i n) (throw 'a i) i)) '(0 1 2 3))",
    "(for-each (lambda (i) (if (= i n) (throw 'a i))) '(0 1 2 3))",
    "(do ((i 0 (+ i 1))) ((= i n) (throw 'a i)) #t)",
    "(let ((i n)) (+ 1 (throw 'a i)))",
    "(apply (lambda (i . r) (throw 'a i)) (list n 2 3))",
    "(list 1 2 (throw 'a n) 4)",
    "(force (delay (throw 'a n)))",
    "(call-with-values (lambda () (throw 'a n)) list)",
    "(call-with-values (lambda () (values n 1)) (lambda (i j) (throw 'a i)))",
    "(letrec ((f (lambda (i) (if (= i 9) (throw 'a n) (+ 1 (f (+ i 1))))))) (f 0))",
    "(case (throw 'a n) ((1) 2) (else 3))",
    "(cond ((throw 'a n) 2) (else 3))",
    "(and 1 (or #f (throw 'a n)) 2)",
    "(begin (set! z (throw 'a n)) 1)",
    "((lambda () (define q (throw 'a n)) q))",
    "((throw 'a n) 1)",
    "(call/cc (lambda (k) (throw 'a n)))",
    "(eval '(throw 'a n))",
    "(quasiquote (1 (unquote (throw 'a n))))",
    "(let loop ((i 0)) (if (= i n) (throw 'a i) (loop (+ i 1))))",
    "(throw 'a (catch 'a (lambda () (throw 'a n)) (lambda (k v) v)))",
    "(catch 'a (lambda () 1 (throw 'b 3)) (lambda l (throw 'a 0)))",
  };
  int c = choose((int)(sizeof C / sizeof *C), "context");
  int64_t n = symrange("n", 0, 3); defn("n", n); ev("(define z 77)");
  S r = evf("(catch #t (lambda () %s) (lambda (k v) (cons v k)))", C[c]);
  CHECK(r && r->type == SCM::LIST, "caught");
  if (c == (int)(sizeof C / sizeof *C) - 1) CHECK(isnumv(nth(r, 0), 3), "inner handler is for another key");
  else CHECK(isnumv(nth(r, 0), n), "the thrown value");
  CHECK(isnumv(ev("z"), 77), "an assignment whose value is thrown out of does not happen");
  prelude(); check_clean();
  REACH("end");
}
// ---- errors are throws
H(errors) {
  static const char *C[] = { "(car n)", "(vector-ref (vector 1 2) (+ n 2))", "(undefined-function n)", "undefined-variable", "(n 1)", "((lambda (a) a))",
                             "(car)", "(string-ref \"abc\" (+ n 3))", "(if)", "(let ((a)) a)", "(+ 'a n)", "(apply car n)", "(hash-ref n 1)", "(list-tail '(1) (+ n 2))" };
  int c = choose((int)(sizeof C / sizeof *C), "error");
  int64_t n = symrange("n", 0, 1000); defn("n", n);
  S r = evf("(catch #t (lambda () %s) (lambda (k . r) (list k)))", C[c]);
  CHECK(lenof(r) == 1 && issym(nth(r, 0)), "an error is caught with its key");
  CHECK(issymn(nth(r, 0), c == 6 ? "wrong-number-of-args" : "error"), "key");
  S q = evf("(catch 'a (lambda () (catch 'error (lambda () %s) (lambda (k m) (string? m)))) (lambda l 0))", c == 6 ? "(car n)" : C[c]);
  CHECK(isT(q), "the message is an argument");
  prelude(); check_clean();
  REACH("end");
}
// ---- the C interface
static int g_ev[16], g_nev; static int g_mode[2]; static int64_t g_arg;
static S body_throw(void *) { g_ev[g_nev++] = 1; return scm_ithrow(mksym("k"), list_of((S[]){ mknum(g_arg) }, 1), 1); }
static S handler(void *data, S tag, S args) {
  int i = (int)(long)data; g_ev[g_nev++] = 10 + i;
  if (!issymn(tag, "k") || lenof(args) != 1 || !isnumv(nth(args, 0), g_arg)) g_ev[g_nev++] = 99;
  if (g_mode[i] == 1) scm_throw(tag, args);     // pass it on
  return mknum(100 + i);
}
static S body_inner(void *) {
  return (g_mode[1] & 2) ? scm_internal_lazy_catch(mksym("k"), body_throw, nullptr, [](void *, S t, S a) { int m = g_mode[1]; g_mode[1] = m >> 2; S r = handler((void *)1, t, a); g_mode[1] = m; return r; }, nullptr)
                         : scm_internal_catch(mksym("k"), body_throw, nullptr, handler, (void *)1);
}
H(c_catch) {
  g_arg = sym64("arg"); g_nev = 0; g_mode[0] = 0; g_mode[1] = choose(2, "rethrow");
  S r = scm_internal_catch(mksym("k"), body_inner, nullptr, handler, (void *)0);
  CHECK(g_ev[0] == 1 && g_ev[1] == 11, "inner handler first");
  if (g_mode[1]) { CHECK(g_nev == 3 && g_ev[2] == 10, "then the outer one, when rethrown"); CHECK(isnumv(r, 100), "outer value"); }
  else { CHECK(g_nev == 2, "only the inner one"); CHECK(isnumv(r, 101), "inner value"); }
  prelude(); check_clean();
  REACH("end");
}
H(c_lazy) {
  g_arg = sym64("arg"); g_nev = 0; g_mode[0] = 0; g_mode[1] = 2 | choose(2, "rethrow") << 2;
  S r = scm_internal_catch(mksym("k"), body_inner, nullptr, handler, (void *)0);
  CHECK(g_nev == 3 && g_ev[0] == 1 && g_ev[1] == 11 && g_ev[2] == 10, "the lazy handler runs at the throw, then the throw reaches the catch around");
  CHECK(isnumv(r, 100), "value of the catch");
  prelude(); check_clean();
  REACH("end");
}
static S body_value(void *) { return mknum(g_arg); }
H(c_lazy_unused) {
  g_arg = sym64("arg"); g_nev = 0; g_mode[0] = 0;
  int other = choose(2, "key");
  S r = scm_internal_lazy_catch(mksym("k"), body_value, nullptr, handler, (void *)0);
  CHECK(isnumv(r, g_arg) && g_nev == 0, "no throw, no handler");
  defn("x", g_arg);
  r = evf("(catch #t (lambda () (throw '%s x)) (lambda (k v) v))", other ? "k" : "z");
  CHECK(isnumv(r, g_arg) && g_nev == 0, "a lazy catch that has been left is not consulted");
  prelude(); check_clean();
  REACH("end");
}
