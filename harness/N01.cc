// Integer addition, subtraction, multiplication, negation and absolute value.
// @bound operands: every 64-bit integer whose exact result is representable (multiplication: every pair whose product fits 63 bits with |operands| < 2^31, plus full-range times small constants); 0 to 4 operands
#include "sx.h"
// @param_thorough n=6

static int64_t big(const char *n) { return sym64(n); }

H(add2) {
  int64_t a = big("a"), b = big("b");
  i128 e = I(a) + I(b);
  ASSUME(fits(e));
  defn("a", a); defn("b", b);
  CHECK(isnumv(ev("(+ a b)"), (int64_t)e), "sum of two");
  CHECK(isnumv(ev("(+ b a)"), (int64_t)e), "sum commutes");
  CHECK(isnumv(ev("a"), a) & isnumv(ev("b"), b), "operands unchanged");
  REACH("end");
}
H(sub2) {
  int64_t a = big("a"), b = big("b");
  i128 e = I(a) - I(b);
  ASSUME(fits(e));
  defn("a", a); defn("b", b);
  CHECK(isnumv(ev("(- a b)"), (int64_t)e), "difference of two");
  CHECK(isnumv(ev("a"), a) & isnumv(ev("b"), b), "operands unchanged");
  REACH("end");
}
H(neg_abs) {
  int64_t a = big("a");
  ASSUME(a != INT64_MIN);
  defn("a", a);
  CHECK(isnumv(ev("(- a)"), -a), "negation");
  CHECK(isnumv(ev("(- 0 a)"), -a), "subtraction from zero");
  CHECK(isnumv(ev("(abs a)"), a < 0 ? -a : a), "absolute value");
  CHECK(isnumv(ev("(+ a)"), a), "one-operand sum");
  CHECK(isnumv(ev("(* a)"), a), "one-operand product");
  CHECK(isnumv(ev("(+ a 0)"), a) & isnumv(ev("(* a 1)"), a) & isnumv(ev("(* 0 a)"), 0) & isnumv(ev("(* -1 a)"), -a), "identities");
  CHECK(isnumv(ev("a"), a), "operand unchanged");
  REACH("end");
}
H(mul2) {
  int64_t a = symrange("a", -(1ll << 31) + 1, (1ll << 31) - 1), b = symrange("b", -(1ll << 31) + 1, (1ll << 31) - 1);
  defn("a", a); defn("b", b);
  CHECK(isnumv(ev("(* a b)"), a * b), "product of two");
  REACH("end");
}
H(mulc) {
  int64_t a = sym64("a");
  static const int64_t cs[] = {0, 1, -1, 2, 3, -7, 10, 1000, 65536, -1000003};
  int64_t c = cs[choose(10, "c")];
  i128 e = I(a) * c;
  ASSUME(fits(e));
  defn("a", a); defn("c", c);
  CHECK(isnumv(ev("(* a c)"), (int64_t)e), "product with constant");
  CHECK(isnumv(ev("(* c a)"), (int64_t)e), "product with constant, swapped");
  REACH("end");
}
// n-ary forms fold left to right with every operand used exactly once
H(nary) {
  int maxn = (int)sx_param("n", 4);
  int n = choose(maxn + 1, "n");
  int op = choose(3, "op");
  S v[8]; int64_t x[8];
  char nm[8];
  for (int i = 0; i < n; i++) {
    snprintf(nm, 8, "x%d", i);
    x[i] = op == 2 ? symrange(nm, -100, 100) : symrange(nm, -(1ll << 58), 1ll << 58);
    v[i] = mknum(x[i]);
  }
  S r = apply(op == 0 ? "+" : op == 1 ? "-" : "*", v, n);
  if (op == 1 && n == 0) { CHECK(!r, "subtraction needs an operand"); REACH("end0"); return; }
  int64_t e = op == 2 ? 1 : 0;
  if (op == 0) for (int i = 0; i < n; i++) e += x[i];
  if (op == 2) for (int i = 0; i < n; i++) e *= x[i];
  if (op == 1) { e = n == 1 ? -x[0] : x[0]; for (int i = 1; i < n; i++) e -= x[i]; }
  CHECK(isnumv(r, e), "n-ary result");
  for (int i = 0; i < n; i++) CHECK(isnumv(v[i], x[i]), "n-ary operands unchanged");
  REACH("end");
}
// literal operands in source position, and nesting
H(nested) {
  int64_t a = symrange("a", -(1ll << 40), 1ll << 40), b = symrange("b", -(1ll << 40), 1ll << 40), c = symrange("c", -1000, 1000);
  defn("a", a); defn("b", b); defn("c", c);
  CHECK(isnumv(ev("(+ (* a 2) (- b 3) (* 2 (- c)))"), a * 2 + (b - 3) + 2 * -c), "nested 1");
  CHECK(isnumv(ev("(- (+ a b) (- a b))"), 2 * b), "nested 2");
  CHECK(isnumv(ev("(let ((x (+ a 1)) (y (- b 1))) (- (* 3 x) (+ y y) (abs c)))"), 3 * (a + 1) - 2 * (b - 1) - (c < 0 ? -c : c)), "nested 3");
  CHECK(isnumv(ev("((lambda (f) (f (f a))) (lambda (x) (- (+ x c) 5)))"), a + 2 * c - 10), "nested 4");
  CHECK(isnumv(ev("(apply + a b '(1 2 3))"), a + b + 6), "apply with spread list");
  CHECK(isnumv(ev("(apply - (list a b c))"), a - b - c), "apply minus");
  REACH("end");
}
// sums accumulated by a loop of symbolic length
H(loop_sum) {
  int64_t n = symrange("n", 0, 6 + 6 * sx_param("thorough", 0)), k = symrange("k", -(1ll << 50), 1ll << 50);
  defn("n", n); defn("k", k);
  CHECK(isnumv(ev("(let loop ((i 0) (s 0)) (if (= i n) s (loop (+ i 1) (+ s k))))"), n * k), "loop sum");
  REACH("end");
}
// real operands: IEEE double arithmetic with the integer operand converted
// (the reals are the values of 64-bit integers and those plus one half)
H(floats) {
  int64_t x = sym64("x"), y = sym64("y"), a = sym64("a");
  double d = (double)x, d2 = (double)y + 0.5, da = (double)a;
  def("d", mkflo(d)); def("d2", mkflo(d2)); defn("a", a);
  int op = choose(3, "op");
  static const char *on[] = {"+", "-", "*"};
  S r = evf("(%s d d2)", on[op]);
  CHECK(isflo(r), "float result kind");
  CHECK(flov(r) == (op == 0 ? d + d2 : op == 1 ? d - d2 : d * d2), "float result");
  r = evf("(%s a d)", on[op]);
  CHECK(isflo(r), "mixed result kind");
  CHECK(flov(r) == (op == 0 ? da + d : op == 1 ? da - d : da * d), "mixed result");
  r = evf("(%s d2 a)", on[op]);
  CHECK(isflo(r), "mixed result kind 2");
  CHECK(flov(r) == (op == 0 ? d2 + da : op == 1 ? d2 - da : d2 * da), "mixed result 2");
  if (op == 1) { r = ev("(- d2)"); CHECK(isflo(r), "neg kind"); CHECK(flov(r) == -d2, "negated real"); }
  REACH("end");
}
