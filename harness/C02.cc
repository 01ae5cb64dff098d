// Iteration and higher-order procedures: map, for-each, do, multiple values, sorting out lengths and order.
// @bound lists: 1..3 lists of 0..3 elements, the elements arbitrary 64-bit integers, booleans, the empty list or nested lists; procedures: builtins, closures, variables, procedures with rest parameters
// @bound do: 1..3 variables with and without steps, up to 5 iterations, arbitrary start values within +-1000; nested two deep
// @quick_timeout 200
#include "sx.h"
static int64_t lv[3][3];
// list i of n elements: numbers
static void mklist(int i, int n) {
  char nm[8] = {'l', (char)('0' + i), 0}; S v[3];
  for (int j = 0; j < n; j++) { char e[8] = {'e', (char)('0' + i), (char)('0' + j), 0}; lv[i][j] = symrange(e, -1000000, 1000000); v[j] = mknum(lv[i][j]); }
  def(nm, list_of(v, n));
}
static const char *MAPS[] = { "(map %s%s)", "(map-in-order %s%s)", "((car (list map)) %s%s)", "(apply map %s (list%s))", "(let ((m map)) (m %s%s))" };
H(map) {
  int k = 1 + choose(3, "lists"), n = choose(4, "n");
  for (int i = 0; i < k; i++) mklist(i, n);
  static const char *F[3][4] = {
    { "(lambda (x) (list x))", "list", "(lambda r r)", "f1" },
    { "(lambda (x y) (list x y))", "list", "(lambda r r)", "(lambda (x . y) (cons x y))" },
    { "(lambda (x y z) (list x y z))", "list", "(lambda r r)", "(lambda (x y . z) (cons x (cons y z)))" },
  };
  ev("(define (f1 x) (if (< x 0) (list x) (let ((y x)) (list y))))");
  const char *f = F[k - 1][choose(4, "proc")];
  static const char *A[] = { " l0", " l0 l1", " l0 l1 l2" };
  S r = evf(MAPS[choose(5, "how")], f, A[k - 1]);
  CHECK(lenof(r) == n, "one result per element");
  for (int j = 0; j < n; j++) {
    S e = nth(r, j);
    CHECK(lenof(e) == k, "called with one element of each list");
    for (int i = 0; i < k; i++) CHECK(isnumv(nth(e, i), lv[i][j]), "corresponding elements, in order");
  }
  for (int i = 0; i < k; i++) { char nm[4] = {'l', (char)('0' + i), 0}; S l = ev(nm); CHECK(lenof(l) == n, "the lists are unchanged"); for (int j = 0; j < n; j++) CHECK(isnumv(nth(l, j), lv[i][j]), "the lists are unchanged"); }
  REACH("end");
}
// any element, also #f, (), lists and symbols, is passed as it is
H(elements) {
  int64_t a = sym64("a"); defn("a", a);
  static const char *E[] = { "a", "#f", "'()", "'(1 . 2)", "'x", "\"s\"", "'(quote x)", "(list a a)", "'if", "(lambda () 1)" };
  const char *x = E[choose(10, "first")], *y = E[choose(10, "second")];
  evf("(define l (list %s %s))", x, y);
  static const char *C[] = { "(map (lambda (x) x) l)", "(let ((r '())) (for-each (lambda (x) (set! r (append r (list x)))) l) r)", "(map car (map list l))", "(map (lambda (x y) x) l '(1 2))", "(map cdr (map (lambda (x) (cons 1 x)) l))",
    "(let ((r '())) (for-each (lambda (x y) (set! r (append r (list y)))) '(1 2) l) r)", "(apply map list (list l))", "(apply list l)", "(map (lambda (p) (p)) (map (lambda (x) (lambda () x)) l))", "(let ((r '())) (apply for-each (list (lambda (x) (set! r (append r (list x)))) l)) r)" };
  int c = choose(9, "how");
  S r = ev(C[c]);
  if (c == 6) { CHECK(lenof(r) == 2, "two"); r = scm_cons(car(nth(r, 0)), scm_cons(car(nth(r, 1)), scm_nil())); }
  CHECK(lenof(r) == 2, "every element is visited");
  def("r", r);
  CHECK(isT(ev("(eqv? (car r) (car l))")) && isT(ev("(eqv? (cadr r) (cadr l))")), "elements are passed as they are");
  REACH("end");
}
H(for_each) {
  int k = 1 + choose(3, "lists"), n = choose(4, "n");
  for (int i = 0; i < k; i++) mklist(i, n);
  ev("(define r '())");
  static const char *F[3] = { "(lambda (x) (set! r (cons (list x) r)))", "(lambda (x y) (set! r (cons (list x y) r)))", "(lambda (x y z) (set! r (cons (list x y z) r)))" };
  static const char *A[] = { " l0", " l0 l1", " l0 l1 l2" };
  int via = choose(3, "procedure");
  if (via == 0) CHECK(evf("(for-each %s%s)", F[k - 1], A[k - 1]) != nullptr, "no error");
  else if (via == 1) { evf("(define f %s)", F[k - 1]); CHECK(evf("(for-each f%s)", A[k - 1]) != nullptr, "no error"); }
  else { CHECK(evf("(for-each (lambda args (set! r (cons args r)))%s)", A[k - 1]) != nullptr, "no error"); }
  S r = ev("(reverse r)");
  CHECK(lenof(r) == n, "one call per element");
  for (int j = 0; j < n; j++) for (int i = 0; i < k; i++) CHECK(isnumv(nth(nth(r, j), i), lv[i][j]), "in list order, with corresponding elements");
  REACH("end");
}
// an error inside stops the iteration and leaves what was done
H(stops) {
  int n = 1 + choose(3, "n"), at = choose(3, "at"), how = choose(4, "how");
  ASSUME(at < n);
  mklist(0, n); ev("(define c 0)");
  static const char *C[] = { "(map (lambda (x) (if (= c %d) (car 5) (begin (set! c (+ c 1)) x))) l0)", "(for-each (lambda (x) (if (= c %d) (car 5) (set! c (+ c 1)))) l0)",
    "(do ((l l0 (cdr l))) ((null? l) 1) (if (= c %d) (car 5)) (set! c (+ c 1)))", "(let loop ((l l0)) (if (null? l) 1 (begin (if (= c %d) (car 5)) (set! c (+ c 1)) (loop (cdr l)))))" };
  CHECK(evf(C[how], at) == nullptr, "the error is reported");
  CHECK(isnumv(ev("c"), at), "earlier iterations are done, later ones are not");
  CHECK(lenof(ev("(map + l0 l0)")) == n, "usable afterwards");
  REACH("end");
}
H(bad_lists) {
  int64_t a = sym64("a"); defn("a", a);
  static const char *L[] = { "a", "'x", "\"s\"", "(vector 1)", "#t", "car" };
  const char *l = L[choose(6, "list")];
  static const char *C[] = { "(map car %s)", "(for-each car %s)", "(map cons '(1) %s)", "(map (lambda (x) x) %s)", "(for-each (lambda (x y) x) %s '(1))", "(map + '(1) '(2) %s)", "(map)", "(for-each)", "(map car)", "(for-each car)" };
  CHECK(evf(C[choose(10, "call")], l) == nullptr, "an operand that is not a list is an error");
  REACH("end");
}
// do against a reference
H(do_) {
  int64_t a = symrange("a", -1000, 1000), b = symrange("b", -1000, 1000); defn("a", a); defn("b", b);
  int n = choose(6, "iterations"), sx = choose(5, "step x"), sy = choose(4, "step y"), res = choose(4, "result"), body = choose(4, "body");
  static const char *SX[] = { "", " (+ x y)", " (- x i)", " y", " (if (< x y) x (- x y))" }, *SY[] = { "", " (+ y x)", " x", " (- b y)" };
  static const char *RS[] = { "(list x y i)", "(set! out x) (list x y i)", "(let ((t (+ x y))) (list x y i))", "i" };
  static const char *BD[] = { "", " (set! out (+ out x))", " (set! x (+ x 1)) (set! out (+ out y))", " (if (< x y) (set! y (- y 1)))" };
  ev("(define out 0)");
  S r = evf("(do ((x a%s) (i 0 (+ i 1)) (y (+ b 1)%s)) ((= i %d) %s)%s)", SX[sx], SY[sy], n, RS[res], BD[body]);
  int64_t x = a, y = b + 1, out = 0;
  for (int i = 0; i < n; i++) {
    if (body == 1) out += x;
    if (body == 2) { x += 1; out += y; }
    if (body == 3 && x < y) y -= 1;
    int64_t nx = sx == 0 ? x : sx == 1 ? x + y : sx == 2 ? x - i : sx == 3 ? y : x < y ? x : x - y;
    int64_t ny = sy == 0 ? y : sy == 1 ? y + x : sy == 2 ? x : b - y;
    x = nx; y = ny;
  }
  if (res == 1) out = x;
  if (res == 3) CHECK(isnumv(r, n), "result");
  else CHECK(lenof(r) == 3 && isnumv(nth(r, 0), x) && isnumv(nth(r, 1), y) && isnumv(nth(r, 2), n), "variables are stepped together from the values of the previous iteration");
  CHECK(isnumv(ev("out"), out), "the body runs once per iteration");
  CHECK(isnumv(ev("a"), a) && ev("i") == nullptr, "and the variables are local");
  REACH("end");
}
H(do_nested) {
  int64_t a = symrange("a", -1000, 1000); defn("a", a);
  int n = choose(4, "n"), m = choose(4, "m"), k = choose(4, "form");
  static const char *F[] = { "(do ((i 0 (+ i 1)) (s 0 (+ s (do ((j 0 (+ j 1)) (t 0 (+ t (* i j) a))) ((= j %d) t))))) ((= i %d) s))",
    "(let ((s 0)) (do ((i 0 (+ i 1))) ((= i %d) s) (do ((j 0 (+ j 1))) ((= j %d)) (set! s (+ s (* i j) a)))))",
    "(let ((s 0)) (for-each (lambda (i) (for-each (lambda (j) (set! s (+ s (* i j) a))) (list-head '(0 1 2) %d))) (list-head '(0 1 2) %d)) s)",
    "(apply + (map (lambda (i) (apply + (map (lambda (j) (+ (* i j) a)) (list-head '(0 1 2) %d)))) (list-head '(0 1 2) %d)))" };
  int64_t s = 0;
  int N = k == 1 ? m : n, M = k == 1 ? n : m; // inner, outer
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) s += i * j + a;
  CHECK(isnumv(evf(F[k], k == 1 ? M : N, k == 1 ? N : M), s), "nested iteration");
  REACH("end");
}
H(do_edges) {
  int64_t a = sym64("a"); defn("a", a);
  CHECK(ev("(do ((i 0 (+ i 1))) ((= i 3)))") != nullptr, "no result expression");
  CHECK(isnumv(ev("(do () (#t a))"), a), "no variables");
  CHECK(isnumv(ev("(do ((i 0)) (#t a) (car 5))"), a), "no iteration");
  CHECK(isnumv(ev("(let ((n 0)) (do () ((= n 4) a) (set! n (+ n 1))))"), a), "no variables, iterating");
  CHECK(isnumv(ev("(do ((i a i) (j 0 (+ j 1))) ((= j 2) i))"), a), "unchanged variable");
  CHECK(isnumv(ev("(do ((i 0 (+ i 1))) ((and (= i 2) 7) 1 2 a))"), a), "several result expressions");
  CHECK(ev("(do ((i 0 (car 5))) ((= i 1) a))") == nullptr, "an error in a step is reported");
  CHECK(isnumv(ev("(do ((l '(1 2 3) (cdr l)) (s a (if (< 0 a) (- s (car l)) (+ s (car l))))) ((null? l) s))"), a > 0 ? a - 6 : a + 6), "over a list");
  REACH("end");
}
H(values) {
  int64_t v[4]; int n = choose(4, "n");
  for (int i = 0; i < 4; i++) { char nm[4] = {'a', (char)('0' + i), 0}; v[i] = sym64(nm); defn(nm, v[i]); }
  static const char *A[] = { "", "a0", "a0 a1", "a0 a1 a2" };
  static const char *P[] = { "(lambda () (values %s))", "(lambda () (let ((x a3)) (values %s)))", "(lambda () (if (< a3 0) (values %s) (values %s)))", "(lambda () (apply values (list %s)))", "(lambda () (begin a3 (values %s)))", "(lambda () (call/cc (lambda (k) (values %s))))" };
  static const char *C[] = { "(lambda r r)", "list", "(lambda x (map (lambda (y) y) x))" };
  char p[256]; int pk = choose(6, "producer"); snprintf(p, 256, P[pk], A[n], A[n]);
  S r = evf("(call-with-values %s %s)", p, C[choose(3, "consumer")]);
  CHECK(lenof(r) == n, "the consumer gets the values");
  for (int i = 0; i < n; i++) CHECK(isnumv(nth(r, i), v[i]), "in order");
  if (n == 2) CHECK(isnumv(evf("(call-with-values %s (lambda (x y) y))", p), v[1]), "two parameters");
  if (n != 2) CHECK(ev("(call-with-values (lambda () (values)) (lambda (x y) y))") == nullptr && evf("(call-with-values %s (lambda (x y) y))", p) == nullptr, "arity of the consumer");
  CHECK(isnumv(ev("(call-with-values (lambda () a0) (lambda (x) x))"), v[0]), "single value");
  REACH("end");
}
H(single_list_value) {
  int64_t a = sym64("a"); defn("a", a);
  int n = choose(3, "n");
  static const char *L[] = { "'()", "(list a)", "(list a a)" };
  S r = evf("(call-with-values (lambda () %s) list)", L[n]);
  CHECK(lenof(r) == 1 && lenof(nth(r, 0)) == n, "a list is a single value");
  REACH("end");
}
