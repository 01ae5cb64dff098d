// Exact fractions: normal form and exact arithmetic.
// @bound construction: |dividend| <= 100 (quick) / 2000 (thorough) over |divisor| <= 6; arithmetic and comparison on two fractions, and on a fraction and an integer: numerators and integers up to 3 / 12 in magnitude, denominators up to 3 / 6; reciprocal: |n| <= 10^6
// @quick_timeout 240
// @param_thorough num=12 den=6 big=2000
#include "sx.h"
static int64_t g5(int64_t a, int64_t b, int64_t lim) {
  a = a < 0 ? -a : a; b = b < 0 ? -b : b;
  int64_t best = 1;
  for (int64_t d = 2; d <= lim; d++) best = ((a % d == 0) & (b % d == 0)) ? d : best;
  return best;
}
// r must be the normal form of n/d (d != 0)
static void chk(S r, int64_t n, int64_t d, const char *lab) {
  CHECK(isnum(r) || israt(r), lab);
  if (isnum(r)) { CHECK(numv(r) * d == n, lab); return; }
  int64_t rn = ratn(r), rd = ratd(r);
  CHECK(rd > 1, "denominator above one");
  CHECK(rn * d == n * rd, lab);
}
static void lowest(S r, int64_t lim) {
  if (!israt(r)) return;
  CHECK(g5(ratn(r), ratd(r), lim) == 1, "lowest terms");
}
H(make) {
  int64_t L = sx_param("big", 100), a = symrange("a", -L, L), b = choose(6, "b") + 1;
  if (choose(2, "negative")) b = -b;
  defn("a", a); defn("b", b);
  S r = ev("(/ a b)");
  chk(r, a, b, "quotient value");
  lowest(r, 8);
  REACH("end");
}
H(recip) {
  int64_t b = symrange("b", -1000000, 1000000);
  ASSUME(b != 0);
  defn("b", b);
  chk(ev("(/ b)"), 1, b, "reciprocal");
  REACH("end");
}
static void arith(int op) {
  int64_t L = sx_param("num", 3), D = sx_param("den", 3);
  int64_t a = symrange("a", -L, L), b = 1 + choose(D, "b"), c = symrange("c", -L, L), d = 1 + choose(D, "d");
  if (op == 3) ASSUME(c != 0);
  defn("a", a); defn("b", b); defn("c", c); defn("d", d);
  ev("(define x (/ a b))"); ev("(define y (/ c d))");
  static const char *on[] = {"+", "-", "*", "/"};
  S r = evf("(%s x y)", on[op]);
  int64_t n = op == 0 ? a * d + c * b : op == 1 ? a * d - c * b : op == 2 ? a * c : a * d, q = op == 3 ? b * c : b * d;
  chk(r, n, q, "fraction arithmetic");
  lowest(r, L > D ? L * D : D * D);
  chk(ev("x"), a, b, "operand unchanged");
  REACH("end");
}
H(add) { arith(0); }
H(sub) { arith(1); }
H(mul) { arith(2); }
H(div) { arith(3); }
H(with_int) {
  int64_t L = sx_param("num", 3), D = sx_param("den", 3);
  int64_t a = symrange("a", -L, L), b = 1 + choose(D, "b"), k = symrange("k", -L, L);
  int op = choose(8, "op");
  defn("a", a); defn("b", b); defn("k", k);
  ev("(define x (/ a b))");
  if (op == 6) ASSUME(k != 0);
  if (op == 7) ASSUME(a != 0);
  static const char *on[] = {"(+ x k)", "(+ k x)", "(- x k)", "(- k x)", "(* x k)", "(* k x)", "(/ x k)", "(/ k x)"};
  int64_t n[] = {a + k * b, a + k * b, a - k * b, k * b - a, a * k, a * k, a, k * b}, q[] = {b, b, b, b, b, b, b * k, a};
  S r = ev(on[op]);
  chk(r, n[op], q[op], "fraction with integer");
  lowest(r, L > D ? L * D : D * D);
  REACH("end");
}
H(three) {
  int64_t a = symrange("a", -2, 2), b = 1 + choose(2, "b"), c = 1 + choose(3, "c");
  defn("a", a); defn("b", b); defn("c", c);
  S r = ev("(/ a b c)");
  chk(r, a, b * c, "chained division");
  lowest(r, 9);
  chk(ev("(- (/ a b))"), -a, b, "negated fraction");
  chk(ev("(+ (/ a b) (/ a c) (/ 1 b))"), a * c + a * b + c, b * c, "sum of three fractions");
  REACH("end");
}
H(compare) {
  int64_t L = sx_param("num", 3), D = sx_param("den", 3);
  int64_t a = symrange("a", -L, L), b = 1 + choose(D, "b"), c = symrange("c", -L, L), d = 1 + choose(D, "d");
  defn("a", a); defn("b", b); defn("c", c); defn("d", d);
  ev("(define x (/ a b))"); ev("(define y (/ c d))");
  int op = choose(5, "op");
  static const char *on[] = {"=", "<", ">", "<=", ">="};
  int64_t l = a * d, r = c * b;
  bool e = op == 0 ? l == r : op == 1 ? l < r : op == 2 ? l > r : op == 3 ? l <= r : l >= r;
  CHECK(isT(evf("(%s x y)", on[op])) == e, "fraction comparison");
  REACH("end");
}
H(signs) {
  int64_t L = sx_param("num", 3), D = sx_param("den", 3);
  int64_t a = choose(2 * L + 1, "a") - L, b = 1 + choose(D, "b");
  defn("a", a); defn("b", b);
  ev("(define x (/ a b))");
  CHECK(isT(ev("(zero? x)")) == (a == 0), "zero?");
  CHECK(isT(ev("(positive? x)")) == (a > 0) , "positive?");
  CHECK(isT(ev("(negative? x)")) == (a < 0), "negative?");
  REACH("end");
}
H(zero_div) {
  int64_t a = symrange("a", -20, 20), b = symrange("b", 1, 5);
  defn("a", a); defn("b", b);
  CHECK(!ev("(/ a 0)") && !ev("(/ 0)") && !ev("(/ (/ a b) 0)") && !ev("(/ a 1 0)"), "division by exact zero is an error");
  CHECK(!ev("(/ a 0.0)") && !ev("(/ 1.5 0)") && !ev("(/ a 2.0 0)"), "division by a real zero is an error");
  CHECK(isnumv(ev("(/ 6 3)"), 2), "usable afterwards");
  REACH("end");
}
// integer / real division
H(real_div) {
  int64_t x = symrange("x", -(1ll << 52), 1ll << 52), a = sym64("a");
  double d = (double)x + 0.5, da = (double)a;
  def("d", mkflo(d)); defn("a", a);
  S r = ev("(/ a d)");
  CHECK(isflo(r), "real quotient kind");
  double e = da / d;
  CHECK(memcmp(&r->value, &e, 8) == 0, "real quotient");
  REACH("end");
}
// extreme operands: exact when representable, an error otherwise, never a crash
H(extreme_division) {
  static const int64_t EX[] = {1, -1, 2, -2, 3, 7, INT64_MAX, INT64_MAX - 1, -INT64_MAX, INT64_MIN, INT64_MIN + 2, 0};
  int64_t a = EX[choose(12, "a")], b = EX[choose(12, "b")];
  ASSUME(b != 0);
  defn("a", a); defn("b", b);
  S r = ev("(/ a b)");
  i128 n = a, d = b;
  if (d < 0) { n = -n; d = -d; }
  i128 x = n < 0 ? -n : n, y = d;
  while (y) { i128 t = x % y; x = y; y = t; }
  n /= x; d /= x;
  if (fits(n) && fits(d)) {
    if (d == 1) CHECK(isnumv(r, (int64_t)n), "evenly divisible");
    else { CHECK(israt(r), "a fraction"); CHECK(ratn(r) == (int64_t)n && ratd(r) == (int64_t)d, "lowest terms"); }
  } else CHECK(!r || !isnum(r), "never a wrong integer");
  ev("(gcd a b)"); ev("(lcm a b)"); ev("(quotient a b)"); ev("(abs a)"); ev("(max a b 1/2)"); ev("(< a b 1/2)");
  REACH("end");
}
