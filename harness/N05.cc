// number->string and string->number.
// @bound integers: every 64-bit value of up to 5 (quick) / 8 (thorough) decimal digits plus the extreme values; texts: every string of up to 4 (quick) / 5 characters over 14 characters
// @quick_timeout 200
// @thorough_timeout 900
#include "sx.h"
// decimal text of v, written independently
static int dec(int64_t v, int radix, char *o) {
  char t[80]; int n = 0; bool neg = v < 0;
  uint64_t u = neg ? (uint64_t)0 - (uint64_t)v : (uint64_t)v;
  do { int d = (int)(u % radix); t[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); u /= radix; } while (u);
  int k = 0;
  if (neg) o[k++] = '-';
  while (n) o[k++] = t[--n];
  o[k] = 0;
  return k;
}
static const int64_t EX[] = {0, 1, -1, 9, 10, -10, 99, 100, INT32_MAX, INT32_MIN, 4294967296ll, -4294967297ll, 1000000000000ll, INT64_MAX, INT64_MIN + 1, 123456789012345678ll};
H(extremes) {
  int64_t v = EX[choose(16, "v")];
  defn("v", v);
  char b[80]; int n = dec(v, 10, b);
  CHECK(stris(ev("(number->string v)"), b, n), "decimal text");
  CHECK(isnumv(ev("(string->number (number->string v))"), v), "text reads back");
  REACH("end");
}
H(radix) {
  static const int R[] = {2, 8, 10, 16};
  int64_t v = EX[choose(16, "v")];
  int r = R[choose(4, "r")];
  defn("v", v); defn("r", r);
  char b[80]; int n = dec(v, r, b);
  S s = ev("(number->string v r)");
  CHECK(isstr(s), "string");
  CHECK(strl(s) == n, "length in radix");
  bool same = true;
  for (int i = 0; i < n; i++) same &= (strd(s)[i] | 0x20) == (b[i] | 0x20);
  CHECK(same, "digits in radix");
  CHECK(isnumv(ev("(string->number (number->string v r) r)"), v), "text in radix reads back");
  REACH("end");
}
// symbolic digits: a decimal string of n digits denotes its positional value
H(parse_dec) {
  int maxd = sx_param("thorough", 0) ? 10 : 6;
  int n = 1 + choose(maxd, "n"), sg = choose(3, "sign");
  char b[24]; int k = 0; int64_t v = 0;
  if (sg) b[k++] = sg == 1 ? '-' : '+';
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "d%d", i); unsigned char d = sym8(nm); ASSUME(d < 10); b[k++] = (char)('0' + d); v = v * 10 + d; }
  def("s", mkstr(b, k));
  CHECK(isnumv(ev("(string->number s)"), sg == 1 ? -v : v), "positional value");
  REACH("end");
}
H(parse_radix) {
  static const int R[] = {2, 8, 16};
  int r = R[choose(3, "r")], n = 1 + choose(4, "n");
  char b[24]; int64_t v = 0;
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "d%d", i); unsigned char d = sym8(nm); ASSUME(d < r);
    b[i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v = v * r + d;
  }
  def("s", mkstr(b, n)); defn("r", r);
  CHECK(isnumv(ev("(string->number s r)"), v), "positional value in radix");
  REACH("end");
}
// value -> text -> value for symbolic integers (exact digit text)
H(roundtrip) {
  int64_t L = sx_param("thorough", 0) ? 99999 : 999;
  int64_t v = symrange("v", -L, L);
  sx_exact_print(1);
  defn("v", v);
  S s = ev("(number->string v)");
  CHECK(isstr(s), "string");
  int n = strl(s); bool neg = strd(s)[0] == '-';
  int64_t u = 0; bool dig = true;
  for (int i = neg; i < n; i++) { dig &= (strd(s)[i] >= '0') & (strd(s)[i] <= '9'); u = u * 10 + (strd(s)[i] - '0'); }
  CHECK(dig, "only digits");
  CHECK((neg ? -u : u) == v, "text denotes the value");
  CHECK(neg == (v < 0), "sign shown iff negative");
  CHECK(n - neg == 1 || strd(s)[(int)neg] != '0', "no leading zero");
  CHECK(isnumv(ev("(string->number (number->string v))"), v), "reads back");
  REACH("end");
}
// a text that is no integer numeral never becomes an integer
H(reject) {
  int maxn = sx_param("thorough", 0) ? 5 : 4;
  int n = choose(maxn + 1, "n");
  char b[8];
  static const char AL[] = "019-+ ax/.(e\"";
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "c%d", i);
    unsigned char c = sym8(nm);
    bool ok = false;
    for (const char *p = AL; *p; p++) ok = ok | (c == (unsigned char)*p);
    ASSUME(ok);
    b[i] = (char)c;
  }
  def("s", mkstr(b, n));
  S r = ev("(string->number s)");
  CHECK(r != nullptr, "string->number never raises on a string");
  // independent recogniser: [+-]?digit+
  int i = 0; bool neg = false; int64_t v = 0;
  if (n > 0 && (b[0] == '-' || b[0] == '+')) { neg = b[0] == '-'; i = 1; }
  bool ok = i < n;
  for (int j = i; j < n; j++) { if (b[j] >= '0' && b[j] <= '9') v = v * 10 + (b[j] - '0'); else ok = false; }
  if (ok) CHECK(isnumv(r, neg ? -v : v), "integer numeral accepted");
  else CHECK(!isnum(r), "not an integer numeral");
  REACH("end");
}
