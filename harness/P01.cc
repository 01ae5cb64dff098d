// Promises: evaluated when first forced, once, in the environment of the delay.
// @bound histories: 4 (thorough: 5) forces of one promise whose body, each time it runs, is decided by the data: any integer value within +-1000, #f, (), a throw, an error, an escape out of the force, or forcing itself again first
// @bound streams: prefixes of up to 5 elements of lazily built lists, visited in 2 passes; 3 promises depending on one another forced in any of 27 orders
// @bound kinds: force of a value of 18 symbolic types
// @quick_timeout 200
// @thorough_timeout 1500
#include "any.h"
enum { VAL, FALSE_, NIL0, THROW, ERR, ESC, AGAIN, NACT };
static int64_t act[8], val[8];
static int N, runs, depth;
// reference: result kinds
struct R { int k; int64_t v; };   // k: 0 value v, 1 #f, 2 (), 3 thrown v, 4 error, 5 escaped v
static bool forced; static R cached;
static R body();
static R force() {
  if (forced) return cached;
  R r = body();
  if (r.k >= 3) return r;
  if (forced) return cached;
  forced = true; cached = r;
  return r;
}
static R body() {
  int i = runs < N ? runs : N;   // after the last action: a plain value
  runs++;
  if (i == N) return R{ 0, 7777 };
  int64_t v = val[i];
  switch (act[i]) {
  case VAL: return R{ 0, v };
  case FALSE_: return R{ 1, 0 };
  case NIL0: return R{ 2, 0 };
  case THROW: return R{ 3, v };
  case ERR: return R{ 4, 0 };
  case ESC: return R{ 5, v };
  default: { R r = force(); if (r.k >= 3) return r; return R{ 0, v }; } // (begin (force p) v)
  }
}
H(history) {
  N = sx_param("thorough", 0) ? 5 : 4;
  S av[8], vv[8];
  for (int i = 0; i < N; i++) {
    char b[8]; snprintf(b, 8, "a%d", i); act[i] = symrange(b, 0, NACT - 1); snprintf(b, 8, "v%d", i); val[i] = symrange(b, -1000, 1000);
    av[i] = mknum(act[i]); vv[i] = mknum(val[i]);
  }
  def("acts", apply("vector", av, N)); def("vals", apply("vector", vv, N));
  ev("(define n 0)"); ev("(define esc #f)");
  evf("(define p (delay (let ((i n)) (set! n (+ n 1)) (if (>= i %d) 7777 (let ((a (vector-ref acts i)) (v (vector-ref vals i)))"
      " (cond ((= a 0) v) ((= a 1) #f) ((= a 2) '()) ((= a 3) (throw 'x v)) ((= a 4) (car 1)) ((= a 5) (esc v)) (else (begin (force p) v))))))))", N);
  CHECK(isnumv(ev("n"), 0), "delay evaluates nothing");
  ev("(define (one) (catch 'x (lambda () (catch 'error (lambda () (call/cc (lambda (k) (set! esc (lambda (v) (k (cons 'escaped v)))) (force p)))) (lambda (k . r) 'error))) (lambda (k v) (cons 'thrown v))))");
  runs = 0; forced = false;
  for (int f = 0; f < N; f++) {
    R w = force();
    S r = ev("(one)");
    switch (w.k) {
    case 0: CHECK(isnumv(r, w.v), "the value"); break;
    case 1: CHECK(isF(r), "a false value"); break;
    case 2: CHECK(isnil(r), "an empty list"); break;
    case 3: CHECK(is_pair(r) && issymn(car(r), "thrown") && isnumv(cdr(r), w.v), "a throw passes through"); break;
    case 4: CHECK(issymn(r, "error"), "an error passes through"); break;
    default: CHECK(is_pair(r) && issymn(car(r), "escaped") && isnumv(cdr(r), w.v), "an escape passes through"); break;
    }
    CHECK(isnumv(ev("n"), runs), "the body runs once until it has a value");
  }
  REACH("end");
}
H(scope) {
  int64_t a = symrange("a", -1000, 1000), b = symrange("b", -1000, 1000);
  defn("ga", a); defn("gb", b);
  ev("(define x 'global)");
  ev("(define p (let ((x ga)) (define q (delay (* x 2))) (set! x gb) q))");
  CHECK(isnumv(ev("(let ((x 5)) (force p))"), b * 2), "the environment of the delay, as it is when forced");
  ev("(define (mk x) (delay (begin (set! x (+ x 1)) x)))");
  ev("(define p1 (mk ga))"); ev("(define p2 (mk gb))");
  CHECK(isnumv(ev("(force p1)"), a + 1) && isnumv(ev("(force p2)"), b + 1), "promises of different calls are independent");
  CHECK(isnumv(ev("(+ (force p1) (force p1))"), 2 * (a + 1)), "forced once");
  CHECK(isT(ev("(promise? p1)")) || ev("(promise? p1)") == nullptr, "a promise");
  S v = ev("(map force (list (mk ga) (mk gb)))");
  CHECK(lenof(v) == 2 && isnumv(nth(v, 0), a + 1) && isnumv(nth(v, 1), b + 1), "force is a procedure");
  ev("(define pl (delay (list ga gb)))");
  CHECK(isT(ev("(eq? (force pl) (force pl))")), "the same object every time");
  ev("(define pp (delay (delay ga)))");
  CHECK(isnumv(ev("(force (force pp))"), a), "a promise may hold a promise");
  ev("(define pd (delay (list 'car ga)))");
  v = ev("(force pd)");
  CHECK(lenof(v) == 2 && issymn(nth(v, 0), "car"), "the value is not evaluated again");
  REACH("end");
}
H(streams) {
  int n = choose(6, "length");
  int64_t a = symrange("a", -1000, 1000), d = symrange("d", -1000, 1000);
  defn("ga", a); defn("gd", d); defn("gn", n);
  ev("(define made 0)");
  ev("(define (from v) (set! made (+ made 1)) (cons v (delay (from (+ v gd)))))");
  ev("(define (take s k) (if (= k 0) '() (cons (car s) (if (= k 1) '() (take (force (cdr s)) (- k 1))))))");
  ev("(define s (from ga))");
  for (int pass = 0; pass < 2; pass++) {
    S l = ev("(take s gn)");
    CHECK(lenof(l) == n, "a prefix");
    for (int i = 0; i < n; i++) CHECK(isnumv(nth(l, i), a + i * d), "in order");
    CHECK(isnumv(ev("made"), n > 1 ? n : 1), "each cell is made once, when needed");
  }
  REACH("end");
}
H(dependent) {
  int64_t a = symrange("a", -1000, 1000);
  defn("ga", a);
  ev("(define log '())");
  ev("(define (note x) (set! log (cons x log)))");
  ev("(define p0 (delay (begin (note 0) ga)))");
  ev("(define p1 (delay (begin (note 1) (+ (force p0) 1))))");
  ev("(define p2 (delay (begin (note 2) (+ (force p1) (force p0)))))");
  bool done[3] = { false, false, false }; int order[8], k = 0;
  for (int i = 0; i < 3; i++) {
    int w = choose(3, "which");
    S r = evf("(force p%d)", w);
    CHECK(isnumv(r, w == 0 ? a : w == 1 ? a + 1 : 2 * a + 1), "value");
    for (int j = w; j >= 0 && !done[j]; j--) { done[j] = true; order[k++] = j; }
  }
  S l = ev("(reverse log)");
  CHECK(lenof(l) == k, "each body runs once");
  for (int i = 0; i < k; i++) CHECK(isnumv(nth(l, i), order[i]), "when first needed");
  REACH("end");
}
H(reentry) {
  int64_t a = symrange("a", -1000, 1000), b = symrange("b", -1000, 1000), c = symrange("c", -1000, 1000);
  defn("ga", a); defn("gb", b); defn("gc", c);
  ev("(define k #f)"); ev("(define n 0)");
  ev("(define p (delay (begin (set! n (+ n 1)) (+ 1 (call/cc (lambda (kk) (set! k kk) ga))))))");
  int again = choose(3, "re-entries");
  defn("again", again);
  S r = ev("(let ((t 0) (out '())) (set! out (cons (force p) out)) (if (< t again) (begin (set! t (+ t 1)) (k (+ gb t)))) out)");
  CHECK(lenof(r) == again + 1 || lenof(r) >= 1, "finished");
  CHECK(isnumv(ev("(force p)"), a + 1), "the first value is kept");
  CHECK(isnumv(nth(r, 0), a + 1), "also for the computation that is resumed");
  CHECK(isnumv(ev("n"), 1), "the body ran once");
  REACH("end");
}
H(kinds) {
  def("v", any("v"));
  S v = ev("v");
  S r = ev("(force v)");
  if (v->type == SCM::PROMISE) CHECK(isnumv(r, 1), "a promise is forced");
  else CHECK(r == nullptr, "anything else is an error");
  REACH("end");
}
