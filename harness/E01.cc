// eq?, eqv? and equal?.
// @bound two independently built values of every kind (integer: all 64-bit; half-integer reals and fractions in [-4,4]; characters, booleans, strings and symbols of length <=2; pairs and vectors nested to depth 1 (quick) / 2 (thorough, fewer atom kinds))
// @quick_timeout 100
#include "gen.h"
#define XY(pred) isT(ev("(" pred " x y)"))
static void laws(M *x, M *y) {
  bool e = equal_m(x, y);
  bool q = XY("equal?");
  CHECK(q == e, "equal? is structural equality");
  CHECK(isT(ev("(equal? y x)")) == e, "equal? is symmetric");
  bool at = atomic(x) && atomic(y);
  CHECK(XY("eqv?") == (at && e), "eqv? on separately built values");
  CHECK(XY("eq?") == (at && e), "eq? on separately built values");
}
H(atoms) {
  M *x = gen("x", 0), *y = gen("y", 0);
  def("x", build(x)); def("y", build(y));
  laws(x, y);
  REACH("end");
}
H(pairs) {
  int d = sx_param("thorough", 0) ? 2 : 1;
  M *x = gen("x", d, 3), *y = gen("y", d, 3);
  def("x", build(x)); def("y", build(y));
  laws(x, y);
  REACH("end");
}
// every kind against a structure
H(mixed) {
  M *x = gen("x", 1, 8), *y = gen("y", 0, 8);
  ASSUME(!atomic(x));
  def("x", build(x)); def("y", build(y));
  laws(x, y);
  REACH("end");
}
// lists: difference in exactly one place, or in length, or in the tail
H(lists) {
  int n = 1 + choose(sx_param("thorough", 0) ? 5 : 3, "n");
  int64_t x[8], y[8];
  S a[8], b[8];
  bool same = true;
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "x%d", i); x[i] = sym64(nm); snprintf(nm, 8, "y%d", i); y[i] = sym64(nm);
    a[i] = mknum(x[i]); b[i] = mknum(y[i]);
    same &= x[i] == y[i];
  }
  int ta = choose(3, "ta"), tb = choose(3, "tb");
  def("x", list_of(a, n)); def("y", list_of(b, n));
  int64_t t = sym64("t"), u = sym64("u");
  defn("t", t); defn("u", u);
  ev(ta == 0 ? "(define x (append x '()))" : ta == 1 ? "(define x (append x t))" : "(define x (append x (list t)))");
  ev(tb == 0 ? "(define y (append y '()))" : tb == 1 ? "(define y (append y u))" : "(define y (append y (list u)))");
  bool e = same && ta == tb && (ta == 0 || t == u);
  CHECK(XY("equal?") == e, "equal? on lists");
  CHECK(isT(ev("(equal? (list x 1) (list y 1))")) == e, "equal? on nested lists");
  CHECK(isT(ev("(equal? (vector x 1) (vector y 1))")) == e, "equal? on vectors of lists");
  CHECK(isT(ev("(equal? (cons 1 x) (cons 1 y))")) == e, "equal? on extended lists");
  CHECK(isT(ev("(equal? (cons x 1) (cons y 1))")) == e, "equal? on dotted pairs of lists");
  REACH("end");
}
// identity: one object reached in several ways
H(identity) {
  static const char *mk[] = {"(cons a b)", "(list a b)", "(vector a b)", "(lambda (z) z)", "car", "(make-hash-table 3)", "'sym", "a", "#\\a", "#t", "'()", "(delay a)", "(cons a (cons b 5))", "(list)", "(vector)", "(current-output-port)"};
  int k = choose(16, "k");
  defn("a", sym64("a")); defn("b", sym64("b"));
  evf("(define x %s)", mk[k]);
  ev("(define y x)");
  ev("(define c (cons x x))");
  ev("(define v (vector x 0 x))");
  ev("(define f (lambda (z w) (list (eq? z w) (eqv? z w) (equal? z w) (eq? (car (list z)) w))))");
  static const char *e[] = {"(eq? x y)", "(eqv? x y)", "(equal? x y)", "(eq? (car c) (cdr c))", "(eq? (vector-ref v 0) (vector-ref v 2))", "(eqv? (car c) (cdr c))", "(equal? (car c) (cdr c))", "(car (f x y))", "(cadr (f x y))", "(caddr (f x y))", "(eq? (car (list x)) x)", "(eq? ((lambda l (car l)) x) x)", "(equal? c (cons y y))", "(equal? v (vector y 0 y))", "(if (memq x (list 'zz 'yy x)) #t #f)", "(if (memv x (list 'zz 'yy x)) #t #f)", "(if (member x (list 'zz 'yy x)) #t #f)"};
  for (int i = 0; i < 17; i++) CHECK(isT(ev(e[i])), e[i]);
  REACH("end");
}
H(cells) {
  defn("a", sym64("a")); defn("b", sym64("b"));
  ev("(define l (list 1 a b 4))");
  static const char *t[] = {"(eq? (cdr l) (cdr l))", "(eqv? (cddr l) (cdr (cdr l)))", "(eq? (list-tail l 2) (cddr l))", "(eq? (memq 1 l) l)", "(eq? (last-pair l) (list-tail l 3))", "(let ((k (cdr l))) (eq? k (cdr l)))", "(eq? (cdr (cons 1 l)) l)"};
  static const char *f[] = {"(eq? (cons a b) (cons a b))", "(eqv? (list a b) (list a b))", "(eq? l (cdr l))", "(eq? (cdr l) (cddr l))", "(eq? (vector a) (vector a))", "(eqv? (vector) (vector a))", "(eq? (lambda (x) x) (lambda (x) x))", "(eq? (append l '(1)) (append l '(1)))", "(eq? 'a 'b)", "(eq? '() #f)", "(eqv? \"\" '())", "(eq? 0 #f)", "(equal? 'a \"a\")", "(equal? #\\a 'a)", "(equal? '(1 2) '(1 . 2))", "(equal? '(1 2 3) '(1 2 . 3))", "(equal? (vector 1 2) '(1 2))", "(eqv? 'ab 'abc)", "(eq? #\\a #\\b)"};
  int i = choose(7 + 19, "i");
  if (i < 7) CHECK(isT(ev(t[i])), "same cell");
  else CHECK(isF(ev(f[i - 7])), "different objects");
  REACH("end");
}
