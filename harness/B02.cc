// Procedure calls: arity, one evaluation of operator and operands, apply, and program text left alone.
// @bound arity: 0..4 required parameters with or without a rest parameter, 0..6 arguments, reached by a direct call, a variable, an argument, apply with every split of leading arguments, a closure returned by a call, map and for-each (1 and 2 lists); 44 builtins of fixed arity with one argument too few or too many
// @bound operands: 3 operand expressions with effects out of 6 kinds; call repeated 3 times with different values (any integers in +-10^6); recursion over lists of up to 4 and depth up to 6
// @bound operator: every kind of non-procedure in operator position and as the procedure of apply, map and for-each
// @quick_timeout 200
#include "sx.h"
static int64_t av[8];
static void args(int n) {
  for (int i = 0; i < n; i++) { char nm[4] = {'a', (char)('0' + i), 0}; av[i] = symrange(nm, -1000000, 1000000); defn(nm, av[i]); }
}
static int cat(char *t, int l, const char *f, int i) { return l + snprintf(t + l, 512 - l, f, i); }
// (lambda (p0 .. [. r]) (list p0 .. r))
static int lam(char *t, int l, int p, bool rest, const char *head) {
  l += snprintf(t + l, 512 - l, "%s", head);
  if (p == 0 && rest) l += snprintf(t + l, 512 - l, "r");
  else {
    l += snprintf(t + l, 512 - l, "(");
    for (int i = 0; i < p; i++) l = cat(t, l, "p%d ", i);
    l += snprintf(t + l, 512 - l, rest ? ". r)" : ")");
  }
  l += snprintf(t + l, 512 - l, " (list ");
  for (int i = 0; i < p; i++) l = cat(t, l, i == 1 ? "(if (< p1 p0) (- p1 p0) p1) " : "p%d ", i);
  return l + snprintf(t + l, 512 - l, rest ? "r))" : "))");
}
static void expect(S r, int p, bool rest, int n, bool diff = true) {
  if (n < p || (!rest && n > p)) { CHECK(r == nullptr, "a wrong number of arguments is an error"); return; }
  CHECK(lenof(r) == p + rest, "called");
  for (int i = 0; i < p; i++) CHECK(isnumv(nth(r, i), diff && i == 1 && av[1] < av[0] ? av[1] - av[0] : av[i]), "each parameter gets its argument");
  if (rest) {
    S l = nth(r, p);
    CHECK(lenof(l) == n - p, "the rest parameter gets the remaining arguments");
    for (int i = p; i < n; i++) CHECK(isnumv(nth(l, i - p), av[i]), "in order");
  }
}
H(arity) {
  int p = choose(5, "params"), n = choose(7, "args"), via = choose(7, "via");
  bool rest = choose(2, "rest");
  args(n);
  char t[1024]; int l = 0;
  if (via == 0) l = lam(t, l, p, rest, "((lambda ");
  else {
    l = lam(t, l, p, rest, "(define f (lambda ");
    t[l++] = ')'; t[l] = 0;
    CHECK(ev(t) != nullptr, "defined");
    l = 0;
    static const char *V[] = { "", "(f", "((car (list f))", "((lambda (g) (g", "(let ((f f)) (f", "((if #t f car)", "((let ((h f)) (lambda z (apply h z)))" };
    l += snprintf(t, 512, "%s ", V[via]);
  }
  if (via == 0) { t[l++] = ' '; t[l] = 0; }
  for (int i = 0; i < n; i++) l = cat(t, l, " a%d", i);
  l += snprintf(t + l, 512 - l, via == 3 ? ")) f)" : via == 4 ? "))" : ")");
  expect(ev(t), p, rest, n);
  CHECK(isnumv(ev("(+ 1 2)"), 3), "usable afterwards");
  REACH("end");
}
H(applied) {
  int p = choose(4, "params"), n = choose(6, "args"), lead = choose(6, "leading");
  bool rest = choose(2, "rest");
  ASSUME(lead <= n);
  args(n);
  char t[1024]; int l = lam(t, 0, p, rest, "(define f (lambda ");
  t[l++] = ')'; t[l] = 0; ev(t);
  l = snprintf(t, 512, choose(2, "named") ? "(apply f" : "((car (list apply)) f");
  for (int i = 0; i < lead; i++) l = cat(t, l, " a%d", i);
  l += snprintf(t + l, 512 - l, " (list");
  for (int i = lead; i < n; i++) l = cat(t, l, " a%d", i);
  l += snprintf(t + l, 512 - l, "))");
  expect(ev(t), p, rest, n);
  REACH("end");
}
// a define with the (name . params) shape has the same arity rules
H(define_arity) {
  int p = choose(4, "params"), n = choose(6, "args"); bool rest = choose(2, "rest"), inner = choose(2, "inner");
  args(n);
  char t[1024]; int l = snprintf(t, 512, inner ? "((lambda () (define (f" : "(define (f");
  for (int i = 0; i < p; i++) l = cat(t, l, " p%d", i);
  l += snprintf(t + l, 512 - l, rest ? " . r) (list " : ") (list ");
  for (int i = 0; i < p; i++) l = cat(t, l, "p%d ", i);
  l += snprintf(t + l, 512 - l, rest ? "r))" : "))");
  if (!inner) { CHECK(ev(t) != nullptr, "defined"); l = 0; }
  l += snprintf(t + l, 512 - l, "(f");
  for (int i = 0; i < n; i++) l = cat(t, l, " a%d", i);
  l += snprintf(t + l, 512 - l, inner ? ")))" : ")");
  expect(ev(t), p, rest, n, false);
  REACH("end");
}
struct B { const char *call; int n; };
H(builtin_arity) {
  static const B b[] = {
    {"car", 1}, {"cdr", 1}, {"cons", 2}, {"set-car!", 2}, {"length", 1}, {"reverse", 1}, {"list-ref", 2}, {"list-tail", 2}, {"memq", 2}, {"member", 2}, {"assoc", 2},
    {"eq?", 2}, {"eqv?", 2}, {"equal?", 2}, {"abs", 1}, {"quotient", 2}, {"modulo", 2}, {"zero?", 1}, {"expt", 2}, {"char?", 1}, {"char->integer", 1}, {"char=?", 2},
    {"string?", 1}, {"string-length", 1}, {"string-ref", 2}, {"string-set!", 3}, {"substring", 3}, {"string=?", 2}, {"symbol?", 1}, {"symbol->string", 1}, {"string->symbol", 1},
    {"vector?", 1}, {"vector-length", 1}, {"vector-ref", 2}, {"vector-set!", 3}, {"vector->list", 1}, {"hash-ref", 2}, {"hash-set!", 3}, {"hash-remove!", 2}, {"procedure?", 1}, {"not", 1}, {"null?", 1}, {"force", 1}, {"eval", 1},
  };
  const B &x = b[choose(44, "builtin")];
  int via = choose(3, "via"), more = choose(2, "more");
  int n = more ? x.n + 1 : x.n - 1;
  int64_t v = sym64("v"); defn("v", v);
  char t[256]; int l = snprintf(t, 256, via == 0 ? "(%s" : via == 1 ? "(apply %s (list" : "((lambda l (apply %s l))", x.call);
  for (int i = 0; i < n; i++) l += snprintf(t + l, 256 - l, " v");
  snprintf(t + l, 256 - l, via == 1 ? "))" : ")");
  CHECK(ev(t) == nullptr, "a builtin called with a wrong number of arguments is an error");
  CHECK(isnumv(ev("(car (list v))"), v), "usable afterwards");
  REACH("end");
}
// every operand and the operator is evaluated exactly once per call
H(once) {
  int64_t a = symrange("a", -1000000, 1000000); defn("a", a);
  ev("(define n0 0)"); ev("(define n1 0)"); ev("(define n2 0)"); ev("(define n3 0)");
  ev("(define (tick3) (set! n3 (+ n3 1)) n3)");
  static const char *E[] = { "(begin (set! n%d (+ n%d 1)) (+ a %d))", "(let ((k %d)) (set! n%d (+ n%d 1)) (+ a k))", "((lambda (k) (set! n%d (+ n%d 1)) (+ a k)) %d)",
    "(if (begin (set! n%d (+ n%d 1)) #t) (+ a %d))", "(car (list (begin (set! n%d (+ n%d 1)) (+ a %d))))", "(apply (lambda (k) (set! n%d (+ n%d 1)) (+ a k)) (list %d))" };
  static const char *O[] = { "list", "(begin (tick3) list)", "(let ((f list)) (tick3) f)", "(lambda l (tick3) l)", "(begin (tick3) (lambda (x y z) (list x y z)))", "(begin (tick3) (lambda (x . r) (cons x r)))" };
  int o = choose(6, "operator"), ap = choose(3, "how");
  char e[3][160];
  for (int i = 0; i < 3; i++) {
    char nm[4] = {'e', (char)('0' + i), 0}; int k = i == 0 ? choose(6, nm) : (choose(2, nm) ? 2 : 0);
    if (k == 1) snprintf(e[i], 160, E[k], i, i, i); else snprintf(e[i], 160, E[k], i, i, i);
  }
  S r = ap == 0 ? evf("(%s %s %s %s)", O[o], e[0], e[1], e[2]) : ap == 1 ? evf("(apply %s %s (list %s %s))", O[o], e[0], e[1], e[2]) : evf("((car (list apply)) %s %s %s (list %s))", O[o], e[0], e[1], e[2]);
  CHECK(lenof(r) == 3, "called");
  for (int i = 0; i < 3; i++) CHECK(isnumv(nth(r, i), a + i), "operands in order");
  CHECK(isnumv(ev("n0"), 1) && isnumv(ev("n1"), 1) && isnumv(ev("n2"), 1), "each operand is evaluated exactly once");
  CHECK(isnumv(ev("n3"), o == 0 ? 0 : 1), "the operator is evaluated exactly once");
  REACH("end");
}
// operands that evaluate to code-like data are passed as they are
H(values_are_not_code) {
  int64_t a = sym64("a"); defn("a", a);
  ev("(define hit 0)"); ev("(define (boom) (set! hit 1) 'boom)");
  static const char *D[] = { "'(boom)", "'boom", "'(quote a)", "(list 'boom)", "(list 'quote 'a)", "''a", "'(1 . 2)", "'(if boom)", "(string->symbol \"a\")" };
  const char *d = D[choose(9, "datum")];
  static const char *C[] = { "((lambda (x) x) %s)", "((lambda x (car x)) %s)", "(apply (lambda (x) x) (list %s))", "(apply (lambda (x y) x) %s '(1))", "(let ((x %s)) x)", "(car (map (lambda (x) x) (list %s)))",
    "(car (list %s))", "(let ((r #f)) (for-each (lambda (x) (set! r x)) (list %s)) r)", "(call-with-values (lambda () (values %s 1)) (lambda (x y) x))", "(let loop ((x %s) (n 0)) (if (< n 2) (loop x (+ n 1)) x))",
    "(do ((x %s x) (n 0 (+ n 1))) ((= n 2) x))", "(let* ((x %s) (x x)) x)", "(letrec ((x %s)) x)", "((lambda () (define x %s) x))", "((lambda () (define x 1) (set! x %s) x))", "(and #t %s)", "(or #f %s)", "(if #t %s)",
    "(begin 1 %s)", "(cond (%s))", "(cond (#f 1) (else %s))", "(case 1 ((1) %s))", "(call/cc (lambda (k) (k %s)))", "(call/cc (lambda (k) %s))", "(force (delay %s))", "(cond (%s => (lambda (x) x)))", "(vector-ref (vector %s) 0)", "(let ((f (lambda (x) x))) (f %s))",
    "(catch 'k (lambda () (throw 'k %s)) (lambda (key x) x))", "(catch #t (lambda () %s) (lambda l 1))", "(dynamic-wind (lambda () 1) (lambda () %s) (lambda () 2))", "(apply apply (list (lambda (x) x) (list %s)))", "(apply call/cc (list (lambda (k) (k %s))))" };
  int c = choose(33, "context");
  ev("(define e #f)");
  S want = evf("(begin (set! e %s) e)", d);
  CHECK(want != nullptr, "a datum");
  S r = evf(C[c], d);
  CHECK(r != nullptr, "no error");
  def("r", r); def("w", want);
  CHECK(isT(ev("(equal? r w)")), "a value is never evaluated again");
  CHECK(isnumv(ev("hit"), 0), "nor called");
  REACH("end");
}
// one call expression executed again and again with different values
H(again) {
  args(3);
  static const char *F[] = {
    "(lambda (x) (list x (if (< x 0) (- 1 (- x)) (+ x 1)) (* x 2)))", "(lambda (x) (cons x (list (+ x 1) (* x 2))))", "(lambda (x) (let ((l (list x (+ x 1)))) (append l (list (* x 2)))))",
    "(lambda (x) (apply list x (list (+ x 1) (* x 2))))", "(lambda (x) ((lambda r r) x (+ x 1) (* x 2)))", "(lambda (x) (map + (list x x x) (list 0 1 x)))", "(lambda (x) (vector->list (vector x (+ x 1) (* x 2))))",
    "(lambda (x) `(,x ,(+ x 1) ,@(list (* x 2))))", "(lambda (x) (let ((v (make-vector 3 x))) (vector-set! v 1 (+ x 1)) (vector-set! v 2 (* x 2)) (vector->list v)))", "(lambda (x) (reverse (list (* x 2) (+ x 1) x)))",
    "(lambda (x) (do ((i 0 (+ i 1)) (l '() (cons (if (= i 0) (* x 2) (if (= i 1) (+ x 1) x)) l))) ((= i 3) l)))", "(lambda (x) (cons x (cdr (list 0 (+ x 1) (* x 2)))))",
  };
  evf("(define f %s)", F[choose(12, "body")]);
  for (int s = 0; s < 3; s++) {
    S r = evf("(f a%d)", s);
    CHECK(lenof(r) == 3 && isnumv(nth(r, 0), av[s]) && isnumv(nth(r, 1), av[s] + 1) && isnumv(nth(r, 2), av[s] * 2), "every call sees its own arguments");
    evf("(define r%d (f a%d))", s, s);
    if (s) { S o = evf("(begin (set-car! r%d 'z) r%d)", s, s - 1); CHECK(isnumv(nth(o, 1), av[s - 1] + 1) && (s == 1 ? isnumv(nth(o, 0), av[0]) : issymn(nth(o, 0), "z")), "results are fresh"); }
  }
  REACH("end");
}
// a rest list belongs to the call
H(fresh_rest) {
  args(3);
  static const char *C[] = { "(f a0 a1 a2)", "(apply f (list a0 a1 a2))", "(apply f a0 (list a1 a2))", "(apply f l)", "(apply apply (list f l))", "(apply f a0 (cdr l))" };
  ev("(define f (lambda r (set-car! r 'x) (set-cdr! (cdr r) 'y) r))");
  ev("(define l (list a0 a1 a2))");
  S r = ev(C[choose(6, "call")]);
  CHECK(r && issymn(car(r), "x") && isnumv(car(cdr(r)), av[1]) && issymn(cdr(cdr(r)), "y"), "the callee's list");
  S l = ev("l");
  CHECK(lenof(l) == 3 && isnumv(nth(l, 0), av[0]) && isnumv(nth(l, 2), av[2]), "the caller's list is untouched");
  REACH("end");
}
H(recursion) {
  int n = choose(5, "n");
  S v[4]; int64_t s = 0, m = INT64_MIN;
  for (int i = 0; i < n; i++) { char nm[4] = {'e', (char)('0' + i), 0}; int64_t x = symrange(nm, -1000, 1000); v[i] = mknum(x); s += x; m = x > m ? x : m; }
  def("l", list_of(v, n));
  ev("(define (sum l) (if (null? l) 0 (+ (car l) (sum (cdr l)))))");
  ev("(define (rev l acc) (if (null? l) acc (rev (cdr l) (cons (car l) acc))))");
  ev("(define (copy l) (if (null? l) l (let ((x (car l))) (cons x (copy (cdr l))))))");
  ev("(define (dup l) (cond ((null? l) '()) (else (cons (car l) (cons (car l) (dup (cdr l)))))))");
  ev("(define (ev? n) (if (= n 0) #t (od? (- n 1))))"); ev("(define (od? n) (if (= n 0) #f (ev? (- n 1))))");
  ev("(define (ack m n) (cond ((= m 0) (+ n 1)) ((= n 0) (ack (- m 1) 1)) (else (ack (- m 1) (ack m (- n 1))))))");
  CHECK(isnumv(ev("(sum l)"), s), "recursive sum");
  S r = ev("(rev l '())"), c = ev("(copy l)"), d = ev("(dup l)");
  CHECK(lenof(r) == n && lenof(c) == n && lenof(d) == 2 * n, "recursive lists");
  for (int i = 0; i < n; i++) CHECK(nth(r, n - 1 - i) == v[i] && nth(c, i) == v[i] && nth(d, 2 * i) == v[i] && nth(d, 2 * i + 1) == v[i], "elements");
  CHECK(isT(evf("(ev? %d)", n)) == (n % 2 == 0) && isT(evf("(od? %d)", n)) == (n % 2 == 1), "mutual recursion");
  CHECK(isnumv(evf("(ack 2 %d)", n), 2 * n + 3), "nested recursion");
  REACH("end");
}
H(not_procedures) {
  int64_t a = sym64("a"); defn("a", a); def("c", mkchr(sym8("ch")));
  ev("(define s \"str\")"); ev("(define v (vector a a))"); ev("(define l (list a a))"); ev("(define y 'sym)"); ev("(define p (delay a))"); ev("(define h (make-hash-table 3))"); ev("(define b #t)"); ev("(define nil '())"); ev("(define i (open-input-string \"x\"))");
  ev("(define-macro (mac x) x)");
  static const char *N[] = { "a", "c", "s", "v", "l", "y", "p", "h", "b", "nil", "i", "1.5", "1/2", "\"x\"", "#\\a", "5", "unbound-name", "#f" };
  const char *n = N[choose(18, "operator")];
  static const char *C[] = { "(%s)", "(%s 0)", "(%s 0 1)", "(apply %s '(0))", "(apply %s '())", "(map %s '(0))", "(for-each %s '(0))", "((car (list %s)) 0)", "(let ((f %s)) (f 0))", "(call-with-values (lambda () 1) %s)", "(call/cc %s)", "(dynamic-wind %s %s %s)", "(cond (1 => %s))", "(call-with-values %s list)" };
  int c = choose(14, "context");
  S r = evf(C[c], n, n, n);
  CHECK(r == nullptr, "applying something that is not a procedure is an error");
  CHECK(isnumv(ev("((lambda (x) x) a)"), a) && isnumv(ev("(car l)"), a), "usable afterwards");
  REACH("end");
}
H(apply_lists) {
  args(2);
  static const char *L[] = { "'(1 . 2)", "5", "#f", "\"ab\"", "(vector 1 2)", "'x", "(cons a0 a1)" };
  const char *l = L[choose(7, "list")];
  static const char *C[] = { "(apply list %s)", "(apply + %s)", "(apply list a0 %s)", "(apply (lambda r r) %s)", "(apply (lambda (x . r) r) a0 %s)", "((car (list apply)) list %s)", "(map car %s)", "(for-each car %s)", "(apply apply list (list %s))" };
  CHECK(evf(C[choose(9, "call")], l) == nullptr, "an argument list that is not a list is an error");
  CHECK(ev("(apply)") == nullptr && ev("(apply list)") == nullptr && lenof(ev("(apply list '())")) == 0, "usable afterwards");
  REACH("end");
}
