// dynamic-wind: guards run exactly when control enters or leaves, by whatever route.
// @bound programs: every nesting of two (thorough: three) constructs out of dynamic-wind, catch of a or b or everything, call/cc storing its continuation, sequencing and a conditional, the innermost expression and every handler, out-guard, continuation body being any of: a value, a throw to a or b, an error, an invocation of either stored continuation (escape or re-entry, at most two in a run); around every program a catch of everything; values arbitrary integers within +-1000
// @quick_timeout 200
// @param_thorough depth=3
#include "control.h"
static const int CS[] = { WIND, CATA, CATB, CATT, CC0, CC1, SEQ, IFX, -1 };
static void go_(int force) { g_cons = CS; control_program((int)sx_param("depth", 2), force); }
H(k_wind) { go_(WIND); }
H(k_catch_a) { go_(CATA); }
H(k_catch_all) { go_(CATT); }
H(k_cc) { go_(CC0); }
// the second leaf of the outer construct replaced by a construct: guards and handlers that themselves contain winds and catches
static void outer(int force) {
  g_cons = CS; nn = 0; tl = 0; gx = symrange("x", -1000, 1000);
  int root = nn++, h = nn++; nd[root].k = CATT; nd[h].k = LEAF; nd[h].l = LNUM; nd[root].b = h;
  int t = nn++; nd[root].a = t; nd[t].k = force; nd[t].a = leaf(); nd[t].b = tree(1, -1);
  pr(root); prelude(); defn("x", gx);
  int64_t want = run(root);
  check_trace(ev(txt), want); check_clean(); REACH("end");
}
H(b_wind) { outer(WIND); }
H(b_catch) { outer(CATA); }
H(b_cc) { outer(CC0); }
H(b_seq) { outer(SEQ); }
// ---- plain facts
H(normal) {
  int64_t x = sym64("x"); defn("x", x); prelude();
  CHECK(isnumv(ev("(dynamic-wind (lambda () (emit 1)) (lambda () (emit 2) x) (lambda () (emit 3) 9))"), x), "the value of the thunk");
  S t = ev("(reverse tr)");
  CHECK(lenof(t) == 3 && isnumv(nth(t, 0), 1) && isnumv(nth(t, 1), 2) && isnumv(nth(t, 2), 3), "before, thunk, after");
  S r = ev("(dynamic-wind newline list (lambda () 1))"); CHECK(isnil(r), "built-in procedures");
  for (const char *p : { "(dynamic-wind x (lambda () 1) (lambda () 1))", "(dynamic-wind (lambda () 1) x (lambda () 1))", "(dynamic-wind (lambda () 1) (lambda () 1) x)", "(dynamic-wind (lambda () 1) (lambda () 1))" })
    CHECK(ev(p) == nullptr, "not procedures");
  check_clean(); REACH("end");
}
// loops entered and left through guards: a counter of entries and exits is balanced whatever the data does
H(balance) {
  int n = 3; int64_t v[3]; S e[3];
  for (int i = 0; i < n; i++) { v[i] = symrange("v", 0, 3); e[i] = mknum(v[i]); }
  def("l", list_of(e, n)); prelude(); ev("(define in 0)"); ev("(define out 0)");
  S r = ev("(map (lambda (v) (catch 'a (lambda () (call/cc (lambda (k) (dynamic-wind (lambda () (set! in (+ in 1))) (lambda () (cond ((= v 0) 'plain) ((= v 1) (k 'esc)) ((= v 2) (throw 'a 1)) (else (car v)))) (lambda () (set! out (+ out 1))))))) (lambda (k . r) 'thrown))) l)");
  int bad = -1; for (int i = 0; i < n && bad < 0; i++) if (v[i] == 3) bad = i;
  int64_t ent = bad < 0 ? n : bad + 1;
  CHECK(isnumv(ev("in"), ent), "entries");
  if (bad < 0) {
    CHECK(lenof(r) == n, "results");
    for (int i = 0; i < n && i < lenof(r); i++) CHECK(issymn(nth(r, i), v[i] == 0 ? "plain" : v[i] == 1 ? "esc" : "thrown"), "result");
  } else CHECK(r == nullptr, "the error is reported");
  CHECK(isnumv(ev("out"), ent), "as many exits as entries, errors reported to the host included");
  check_clean(); REACH("end");
}
// a generator inside dynamic-wind: every transfer in either direction runs the guards
H(generator) {
  int m = choose(4, "pulls"); prelude(); defn("m", m);
  ev("(define return #f)");
  ev("(define resume #f)");
  ev("(define (gen) (call/cc (lambda (r) (set! return r) (if resume (resume 0) (begin (dynamic-wind (lambda () (emit 1)) (lambda () (for-each (lambda (v) (call/cc (lambda (n) (set! resume n) (return v)))) '(10 20 30))) (lambda () (emit 2))) (return 'end))))))");
  S r = ev("(let loop ((i 0) (acc '())) (if (= i m) (reverse acc) (loop (+ i 1) (cons (gen) acc))))");
  CHECK(lenof(r) == m, "pulls");
  for (int i = 0; i < m && i < lenof(r); i++) CHECK(isnumv(nth(r, i), 10 * (i + 1)), "values");
  S t = ev("(reverse tr)");
  CHECK(lenof(t) == 2 * m, "one entry and one exit per pull");
  for (int i = 0; i < lenof(t); i++) CHECK(isnumv(nth(t, i), 1 + i % 2), "alternating");
  check_clean(); REACH("end");
}
