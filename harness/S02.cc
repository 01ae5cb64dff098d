// Character and string ordering, case mapping, character/integer conversion.
// @bound characters: all 256 (ordering), ASCII for case; strings: two of length 0..2 (quick) / 0..3 (thorough) with arbitrary ASCII bytes including NUL
// @param_thorough n=3
#include "sx.h"
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool rel(int op, int d) { return op == 0 ? d == 0 : op == 1 ? d < 0 : op == 2 ? d > 0 : op == 3 ? d <= 0 : d >= 0; }
static const char *OPS[] = {"=?", "<?", ">?", "<=?", ">=?"};
static unsigned char ascii(const char *n) { unsigned char c = sym8(n); ASSUME(c < 128); return c; }
H(chars) {
  unsigned char a = ascii("a"), b = ascii("b");
  def("a", mkchr(a)); def("b", mkchr(b));
  int op = choose(5, "op");
  CHECK(isT(evf("(char%s a b)", OPS[op])) == rel(op, (int)a - (int)b), "character order");
  // the order of a letter and one of [\\]^_` depends on the direction of folding, which is left open
  bool r = isT(evf("(char-ci%s a b)", OPS[op]));
  CHECK((r == rel(op, lo(a) - lo(b))) | (r == rel(op, up(a) - up(b))), "character order ignoring case");
  REACH("end");
}
H(conv) {
  unsigned char a = sym8("a");
  int64_t k = sym64("k");
  def("a", mkchr(a)); defn("k", k);
  CHECK(isnumv(ev("(char->integer a)"), a), "char->integer");
  S r = ev("(integer->char (char->integer a))");
  CHECK(ischr(r), "char");
  CHECK(chrv(r) == a, "round trip");
  r = ev("(integer->char k)");
  if (k >= 0 && k < 128) { CHECK(ischr(r), "char 2"); CHECK(chrv(r) == k, "integer->char"); }
  if (k < 0 || k > 0x10ffff) CHECK(!r, "out of range is an error");
  REACH("end");
}
H(classes) {
  unsigned char a = ascii("a");
  def("a", mkchr(a));
  bool up = a >= 'A' && a <= 'Z', low = a >= 'a' && a <= 'z', dig = a >= '0' && a <= '9';
  CHECK(isT(ev("(char-alphabetic? a)")) == (up || low), "alphabetic");
  CHECK(isT(ev("(char-numeric? a)")) == dig, "numeric");
  CHECK(isT(ev("(char-whitespace? a)")) == (a == ' ' || (a >= 9 && a <= 13)), "whitespace");
  CHECK(isT(ev("(char-upper-case? a)")) == up, "upper case");
  CHECK(isT(ev("(char-lower-case? a)")) == low, "lower case");
  S u = ev("(char-upcase a)"), d = ev("(char-downcase a)");
  CHECK(ischr(u) && ischr(d), "chars");
  CHECK(chrv(u) == (low ? a - 32 : a), "upcase");
  CHECK(chrv(d) == (up ? a + 32 : a), "downcase");
  REACH("end");
}
static unsigned char A[8], B[8];
static int cmp(const unsigned char *a, int n, const unsigned char *b, int m, int ci) {
  for (int i = 0; i < n && i < m; i++) {
    int x = ci == 2 ? up(a[i]) : ci ? lo(a[i]) : a[i], y = ci == 2 ? up(b[i]) : ci ? lo(b[i]) : b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return n < m ? -1 : n > m;
}
static void two(int &n, int &m) {
  int L = (int)sx_param("n", 2);
  n = choose(L + 1, "n"); m = choose(L + 1, "m");
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "a%d", i); A[i] = ascii(nm); }
  for (int i = 0; i < m; i++) { char nm[8]; snprintf(nm, 8, "b%d", i); B[i] = ascii(nm); }
  def("a", mkstr((char *)A, n)); def("b", mkstr((char *)B, m));
}
H(strings) {
  int n, m; two(n, m);
  int op = choose(5, "op");
  CHECK(isT(evf("(string%s a b)", OPS[op])) == rel(op, cmp(A, n, B, m, 0)), "lexicographic order");
  REACH("end");
}
H(strings_ci) {
  int n, m; two(n, m);
  int op = choose(5, "op");
  bool r = isT(evf("(string-ci%s a b)", OPS[op]));
  CHECK(r == rel(op, cmp(A, n, B, m, 1)) || r == rel(op, cmp(A, n, B, m, 2)), "lexicographic order ignoring case");
  REACH("end");
}
H(str_equal) {
  int n, m; two(n, m);
  bool e = cmp(A, n, B, m, 0) == 0;
  CHECK(isT(ev("(equal? a b)")) == e, "equal? on strings");
  CHECK(isT(ev("(string=? a b)")) == e, "string=? agrees");
  REACH("end");
}
// NUL bytes are ordinary characters
H(nul) {
  unsigned char x = ascii("x"), y = ascii("y");
  char a[3] = {'p', 0, (char)x}, b[3] = {'p', 0, (char)y};
  def("a", mkstr(a, 3)); def("b", mkstr(b, 3));
  CHECK(isT(ev("(string=? a b)")) == (x == y), "string=? looks past NUL");
  CHECK(isT(ev("(equal? a b)")) == (x == y), "equal? looks past NUL");
  CHECK(isT(ev("(string<? a b)")) == (x < y), "string<? looks past NUL");
  REACH("end");
}
// characters above 127: order follows char->integer
H(high) {
  unsigned char a = sym8("a"), b = sym8("b");
  def("a", mkchr(a)); def("b", mkchr(b));
  int op = choose(5, "op");
  CHECK(isT(evf("(char%s a b)", OPS[op])) == rel(op, (int)a - (int)b), "order agrees with char->integer");
  if (a && b) {
    char x[1] = {(char)a}, y[1] = {(char)b};
    def("a", mkstr(x, 1)); def("b", mkstr(y, 1));
    CHECK(isT(evf("(string%s a b)", OPS[op])) == rel(op, (int)a - (int)b), "string order agrees with char->integer");
  }
  REACH("end");
}
