// Integer division family: quotient, remainder, modulo, gcd, lcm, expt.
// @bound quotient/remainder: every 64-bit dividend and divisor whose quotient is representable; modulo: every 64-bit dividend with 14 divisors, and 16-bit by 13-bit operands; gcd/lcm: two operands |.| <= 12 (quick) / 40 (thorough), three |.| <= 3 / 8; expt: |base| <= 9, exponent 0..12, and bases 0,1,-1 with exponent up to 40
// @query_ms 25000
// @quick_timeout 200
#include "sx.h"

static i128 iabs(i128 v) { return v < 0 ? -v : v; }
// full 64-bit range; the oracle is the machine's truncating division
H(div64) {
  int64_t a = sym64("a"), b = sym64("b");
  ASSUME(b != 0);
  ASSUME(!((a == INT64_MIN) & (b == -1)));
  defn("a", a); defn("b", b);
  int64_t q = a / b, r = a - b * q;
  CHECK(isnumv(ev("(quotient a b)"), q), "quotient truncates");
  CHECK(isnumv(ev("(remainder a b)"), r), "remainder is a - b*quotient");
  REACH("end");
}
H(mod64) {
  // any 64-bit dividend against representative divisors
  static const int64_t D[] = {1, -1, 2, -2, 3, -3, 7, -10, 64, 1000, -65536, INT64_MAX, INT64_MIN, 4294967296ll};
  int64_t a = sym64("a"), b = D[choose(14, "b")];
  ASSUME(!((a == INT64_MIN) & (b == -1)));
  defn("a", a); defn("b", b);
  int64_t q = a / b, r = a - b * q;
  int64_t m = ((r != 0) & ((r < 0) != (b < 0))) ? r + b : r;
  CHECK(isnumv(ev("(modulo a b)"), m), "modulo has the sign of the divisor");
  REACH("end");
}
H(mod16) {
  int64_t a = symrange("a", -32768, 32767), b = symrange("b", -4096, 4095);
  ASSUME(b != 0);
  defn("a", a); defn("b", b);
  int64_t q = a / b, r = a - b * q;
  int64_t m = ((r != 0) & ((r < 0) != (b < 0))) ? r + b : r;
  CHECK(isnumv(ev("(modulo a b)"), m), "modulo has the sign of the divisor");
  REACH("end");
}
// the same three against the laws that define them, small operands
H(laws) {
  int64_t n = sx_param("thorough", 0) ? 500 : 60;
  int64_t a = symrange("a", -n, n), b = symrange("b", -n, n);
  ASSUME(b != 0);
  defn("a", a); defn("b", b);
  S q = ev("(quotient a b)"), r = ev("(remainder a b)"), m = ev("(modulo a b)");
  CHECK(isnum(q), "q num"); CHECK(isnum(r), "r num"); CHECK(isnum(m), "m num");
  int64_t Q = numv(q), R = numv(r), M = numv(m), ab = b < 0 ? -b : b;
  CHECK(b * Q + R == a, "dividend = divisor*quotient + remainder");
  CHECK((R < ab) & (R > -ab) & ((R == 0) | ((R < 0) == (a < 0))), "remainder sign and size");
  CHECK((M < ab) & (M > -ab) & ((M == 0) | ((M < 0) == (b < 0))), "modulo sign and size");
  CHECK((M == R) | (M == R + b), "modulo congruent");
  REACH("end");
}
H(div_by_zero) {
  int64_t a = sym64("a");
  defn("a", a);
  static const char *fs[] = {"quotient", "remainder", "modulo", "/"};
  CHECK(!evf("(%s a 0)", fs[choose(4, "f")]), "division by zero is an error");
  CHECK(sx_err("error") || pscm_get_last_error_key(), "error key available");
  CHECK(isnumv(ev("(+ 1 1)"), 2), "usable afterwards");
  REACH("end");
}
H(min_int) {
  int64_t b = sym64("b");
  ASSUME(b != 0);
  defn("b", b); defn("a", INT64_MIN);
  S q = ev("(quotient a b)");
  if (b == -1) CHECK(!q || !isnum(q) || numv(q) == INT64_MIN, "unrepresentable quotient");
  S r = ev("(remainder a -1)");
  CHECK(isnumv(r, 0), "remainder by -1");
  CHECK(isnumv(ev("(modulo a -1)"), 0), "modulo by -1");
  REACH("end");
}
static int64_t ogcd(int64_t a, int64_t b) {  // by definition: the largest common divisor
  a = a < 0 ? -a : a; b = b < 0 ? -b : b;
  if (a == 0) return b;
  if (b == 0) return a;
  int64_t best = 1;
  for (int64_t d = 2; d <= 40; d++) best = ((a % d == 0) & (b % d == 0)) ? d : best;
  return best;
}
static int64_t olcm(int64_t a, int64_t b) {
  a = a < 0 ? -a : a; b = b < 0 ? -b : b;
  int64_t g = ogcd(a, b);
  return g == 0 ? 0 : (a / g) * b;
}
H(gcd_lcm) {
  int64_t n = sx_param("thorough", 0) ? 40 : 12;
  int64_t a = symrange("a", -n, n), b = symrange("b", -n, n);
  defn("a", a); defn("b", b);
  CHECK(isnumv(ev("(gcd a b)"), ogcd(a, b)), "gcd");
  CHECK(isnumv(ev("(lcm a b)"), olcm(a, b)), "lcm");
  CHECK(isnumv(ev("(gcd a)"), a < 0 ? -a : a) & isnumv(ev("(lcm b)"), b < 0 ? -b : b), "one operand");
  CHECK(isnumv(ev("(gcd)"), 0) & isnumv(ev("(lcm)"), 1), "no operand");
  REACH("end");
}
H(gcd3) {
  int64_t n = sx_param("thorough", 0) ? 8 : 3;
  int64_t a = symrange("a", -n, n), b = symrange("b", -n, n), c = symrange("c", -n, n);
  defn("a", a); defn("b", b); defn("c", c);
  CHECK(isnumv(ev("(gcd a b c)"), ogcd(ogcd(a, b), c)), "gcd of three");
  CHECK(isnumv(ev("(lcm a b c)"), olcm(olcm(a, b), c)), "lcm of three");
  REACH("end");
}
H(expt_small) {
  int64_t b = symrange("b", -9, 9);
  int e = choose(13, "e");
  defn("b", b); defn("e", e);
  int64_t x = 1;
  for (int i = 0; i < e; i++) x *= b;
  CHECK(isnumv(ev("(expt b e)"), x), "power");
  CHECK(isnumv(ev("b"), b), "base unchanged");
  REACH("end");
}
H(expt_unit) {
  int64_t e = symrange("e", 0, 40);
  defn("e", e);
  CHECK(isnumv(ev("(expt 1 e)"), 1), "one to any power");
  CHECK(isnumv(ev("(expt -1 e)"), (e & 1) ? -1 : 1), "minus one to any power");
  CHECK(isnumv(ev("(expt 0 e)"), e == 0 ? 1 : 0), "zero to any power");
  REACH("end");
}
