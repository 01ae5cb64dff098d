// Numeric comparison, ordering predicates, max and min.
// @bound integers: all 64-bit values (max/min: 64-bit for up to 2 operands, 32-bit for up to 4, thorough 6); reals: any non-NaN double against any double; integer/real mixes with |integer| <= 2^53; chains of 0..4 (thorough 6) operands
// @param_thorough n=6
#include "sx.h"
static const char *OP[] = {"=", "<", ">", "<=", ">="};
static bool rel(int op, int64_t a, int64_t b) { return op == 0 ? a == b : op == 1 ? a < b : op == 2 ? a > b : op == 3 ? a <= b : a >= b; }
static bool relf(int op, double a, double b) { return op == 0 ? a == b : op == 1 ? a < b : op == 2 ? a > b : op == 3 ? a <= b : a >= b; }
H(pair) {
  int64_t a = sym64("a"), b = sym64("b");
  int op = choose(5, "op");
  defn("a", a); defn("b", b);
  S r = evf("(%s a b)", OP[op]);
  CHECK(isboolv(r), "boolean");
  CHECK(isT(r) == rel(op, a, b), "comparison of two");
  r = evf("(if (%s a b) 1 2)", OP[op]);
  CHECK(isnumv(r, rel(op, a, b) ? 1 : 2), "comparison as a condition");
  REACH("end");
}
H(chain) {
  int maxn = (int)sx_param("n", 4);
  int n = choose(maxn + 1, "n"), op = choose(5, "op");
  S v[8]; int64_t x[8]; char nm[8];
  for (int i = 0; i < n; i++) { snprintf(nm, 8, "x%d", i); x[i] = sym64(nm); v[i] = mknum(x[i]); }
  S r = apply(OP[op], v, n);
  CHECK(isboolv(r), "boolean");
  bool e = true;
  for (int i = 0; i + 1 < n; i++) e = e & rel(op, x[i], x[i + 1]);
  CHECK(isT(r) == e, "chain holds iff every neighbouring pair does");
  REACH("end");
}
H(trichotomy) {
  int64_t a = sym64("a"), b = sym64("b");
  defn("a", a); defn("b", b);
  S r = ev("(+ (if (< a b) 1 0) (if (= a b) 1 0) (if (> a b) 1 0))");
  CHECK(isnumv(r, 1), "exactly one of < = >");
  r = ev("(list (eq? (<= a b) (not (> a b))) (eq? (>= a b) (not (< a b))) (eq? (< a b) (> b a)))");
  CHECK(isT(nth(r, 0)) & isT(nth(r, 1)) & isT(nth(r, 2)), "complement and converse");
  REACH("end");
}
H(sign) {
  int64_t a = sym64("a");
  defn("a", a);
  CHECK(isT(ev("(zero? a)")) == (a == 0), "zero?");
  CHECK(isT(ev("(positive? a)")) == (a > 0), "positive?");
  CHECK(isT(ev("(negative? a)")) == (a < 0), "negative?");
  CHECK(isT(ev("(odd? a)")) == ((a & 1) != 0), "odd?");
  CHECK(isT(ev("(even? a)")) == ((a & 1) == 0), "even?");
  CHECK(isF(ev("(and (odd? a) (even? a))")), "odd and even exclude each other");
  CHECK(isT(ev("(and (number? a) (integer? a))")), "number?");
  REACH("end");
}
static void mm(int n, bool wide) {
  int op = choose(2, "op");
  S v[8]; int64_t x[8]; char nm[8];
  for (int i = 0; i < n; i++) { snprintf(nm, 8, "x%d", i); x[i] = wide ? sym64(nm) : symrange(nm, INT32_MIN, INT32_MAX); v[i] = mknum(x[i]); }
  S r = apply(op ? "max" : "min", v, n);
  CHECK(isnum(r), "integer result");
  int64_t e = x[0];
  for (int i = 1; i < n; i++) e = op ? (x[i] > e ? x[i] : e) : (x[i] < e ? x[i] : e);
  CHECK(numv(r) == e, "largest / smallest operand");
}
H(maxmin) { mm(1 + choose((int)sx_param("n", 4), "n"), false); REACH("end"); }
H(maxmin64) { mm(1 + choose(2, "n"), true); REACH("end"); }
H(maxmin_none) {
  CHECK(!ev("(max)"), "max needs an operand");
  CHECK(!ev("(min)"), "min needs an operand");
  REACH("end");
}
H(real) {
  int64_t xb = sym64("x"), yb = sym64("y");
  double x, y; memcpy(&x, &xb, 8); memcpy(&y, &yb, 8);
  int op = choose(5, "op");
  def("x", mkflo(x)); def("y", mkflo(y));
  S r = evf("(%s x y)", OP[op]);
  CHECK(isboolv(r), "boolean");
  CHECK(isT(r) == relf(op, x, y), "comparison of reals");
  REACH("end");
}
H(mixed) {
  int64_t xb = sym64("x"), a = symrange("a", -(1ll << 53), 1ll << 53);
  double x; memcpy(&x, &xb, 8);
  int op = choose(5, "op");
  def("x", mkflo(x)); defn("a", a);
  CHECK(isT(evf("(%s x a)", OP[op])) == relf(op, x, (double)a), "real against integer");
  CHECK(isT(evf("(%s a x)", OP[op])) == relf(op, (double)a, x), "integer against real");
  REACH("end");
}
H(real_sign) {
  int64_t xb = sym64("x");
  double x; memcpy(&x, &xb, 8);
  def("x", mkflo(x));
  CHECK(isT(ev("(zero? x)")) == (bool)(x == 0), "zero?");
  CHECK(isT(ev("(positive? x)")) == (bool)(x > 0), "positive?");
  CHECK(isT(ev("(negative? x)")) == (bool)(x < 0), "negative?");
  REACH("end");
}
H(real_maxmin) {
  int64_t a = symrange("a", -(1ll << 53), 1ll << 53), b = symrange("b", -(1ll << 52), 1ll << 52);
  double x = (double)b + 0.5;
  def("x", mkflo(x)); defn("a", a);
  int op = choose(2, "op");
  S r = evf("(%s x a)", op ? "max" : "min");
  CHECK(isflo(r), "inexact contagion");
  double d = (double)a;
  CHECK(flov(r) == (op ? (d > x ? d : x) : (d < x ? d : x)), "real max/min");
  r = evf("(%s a x)", op ? "max" : "min");
  CHECK(isflo(r), "inexact contagion 2");
  CHECK(flov(r) == (op ? (d > x ? d : x) : (d < x ? d : x)), "real max/min 2");
  REACH("end");
}
