// String construction, access, update, slicing and conversion.
// @bound strings of length 0..3 (quick) / 0..5 (thorough) with arbitrary bytes; indices: every 64-bit integer
// @param_thorough n=5
#include "sx.h"
static int N() { return (int)sx_param("n", 3); }
static unsigned char B[16];
static S symstr(const char *pre, int n, unsigned char *b) {
  for (int i = 0; i < n; i++) { char nm[16]; snprintf(nm, 16, "%s%d", pre, i); b[i] = sym8(nm); }
  return mkstr((const char *)b, n);
}
static bool same(S s, const unsigned char *b, int n) {
  if (!isstr(s) || strl(s) != n) return false;
  bool e = true;
  for (int i = 0; i < n; i++) e &= (unsigned char)strd(s)[i] == b[i];
  return e;
}
H(ref) {
  int n = choose(N() + 1, "n");
  def("s", symstr("b", n, B));
  int64_t k = sym64("k");
  defn("k", k);
  S r = ev("(string-ref s k)");
  if (k >= 0 && k < n) { CHECK(ischr(r), "char"); CHECK(chrv(r) == B[k], "element"); }
  else CHECK(!r, "index out of range is an error");
  CHECK(same(ev("s"), B, n), "string unchanged");
  REACH("end");
}
H(set) {
  int n = choose(N() + 1, "n");
  def("s", symstr("b", n, B));
  int64_t k = sym64("k");
  unsigned char c = sym8("c");
  defn("k", k); def("c", mkchr(c));
  S r = ev("(string-set! s k c)");
  bool ok = k >= 0 && k < n;
  if (ok) { CHECK(r != nullptr, "update in range succeeds"); B[k] = c; }
  else CHECK(!r, "update out of range is an error");
  CHECK(same(ev("s"), B, n), "exactly the indexed character changed");
  REACH("end");
}
H(length) {
  int n = choose(N() + 2, "n");
  def("s", symstr("b", n, B));
  CHECK(isnumv(ev("(string-length s)"), n), "length");
  REACH("end");
}
H(substr) {
  int n = choose(N() + 1, "n");
  def("s", symstr("b", n, B));
  int64_t i = sym64("i"), j = sym64("j");
  defn("i", i); defn("j", j);
  S r = ev("(substring s i j)");
  if (i >= 0 && i <= j && j <= n) {
    CHECK(same(r, B + i, (int)(j - i)), "slice contents");
    ev("(if (> (string-length (substring s i j)) 0) (string-set! (substring s i j) 0 #\\z))");
    CHECK(same(ev("s"), B, n), "slice is a copy");
    REACH("end");
  } else { CHECK(!r, "bad range is an error"); REACH("end-range"); }
}
H(append) {
  int cnt = choose(4, "cnt"), tot = 0;
  S v[4]; unsigned char all[32];
  for (int i = 0; i < cnt; i++) {
    char nm[16]; snprintf(nm, 16, "l%d", i);
    int l = choose(N(), nm);
    snprintf(nm, 16, "s%d_", i);
    unsigned char b[8];
    v[i] = symstr(nm, l, b);
    memcpy(all + tot, b, l);
    tot += l;
  }
  S r = apply("string-append", v, cnt);
  CHECK(same(r, all, tot), "concatenation");
  for (int i = 0; i < cnt; i++) CHECK(r != v[i], "fresh string");
  REACH("end");
}
H(lists) {
  int n = choose(N() + 1, "n");
  S s = symstr("b", n, B);
  def("s", s);
  S l = ev("(string->list s)");
  CHECK(lenof(l) == n, "list length");
  for (int i = 0; i < n; i++) { CHECK(ischr(nth(l, i)), "chars"); CHECK(chrv(nth(l, i)) == B[i], "list elements"); }
  CHECK(same(ev("(list->string (string->list s))"), B, n), "list->string inverts");
  CHECK(same(ev("(apply string (string->list s))"), B, n), "string from characters");
  CHECK(same(ev("(string-append s)"), B, n), "copy");
  REACH("end");
}
H(make) {
  int64_t k = symrange("k", -3, 6);
  unsigned char c = sym8("c");
  defn("k", k); def("c", mkchr(c));
  S r = ev("(make-string k c)");
  if (k < 0) { CHECK(!r, "negative length is an error"); REACH("end-neg"); return; }
  CHECK(isstr(r), "string");
  CHECK(strl(r) == k, "length");
  for (int i = 0; i < strl(r); i++) CHECK((unsigned char)strd(r)[i] == c, "filled");
  CHECK(isnumv(ev("(string-length (make-string k))"), k), "unfilled length");
  REACH("end");
}
H(symbols) {
  int n = 1 + choose(N(), "n");
  S s = symstr("b", n, B);
  for (int i = 0; i < n; i++) ASSUME(B[i] != 0);
  def("s", s);
  CHECK(same(ev("(symbol->string (string->symbol s))"), B, n), "symbol name round trip");
  CHECK(isT(ev("(eq? (string->symbol s) (string->symbol (string-append s)))")), "equal names give the same symbol");
  ev("(string-set! s 0 (if (eqv? (string-ref s 0) #\\a) #\\b #\\a))");
  REACH("end");
}
// two distinct strings are independent after copying
H(alias) {
  int n = 1 + choose(N(), "n");
  def("s", symstr("b", n, B));
  unsigned char c = sym8("c");
  int64_t k = symrange("k", 0, n - 1);
  def("c", mkchr(c)); defn("k", k);
  ev("(define t (string-append s \"\"))");
  ev("(define u s)");
  ev("(string-set! s k c)");
  CHECK(same(ev("t"), B, n), "copy unaffected");
  B[k] = c;
  CHECK(same(ev("u"), B, n), "shared reference sees the update");
  REACH("end");
}
H(types) {
  static const char *e[] = {"(string-length 'a)", "(string-ref 5 0)", "(string-ref \"abc\" 'x)", "(string-set! \"abc\" 0 5)", "(string-append \"a\" 5)", "(substring 'a 0 1)", "(list->string '(1 2))", "(string->list 5)", "(string->symbol 5)", "(symbol->string \"a\")", "(make-string 'a #\\a)", "(make-string 2 5)", "(string 1)", "(string->number 5)", "(substring \"abc\" 'a 1)", "(string-ref \"abc\" 1.5)", "(list->string 'a)", "(string=? \"a\" 5)", "(string<? 5 \"a\")", "(string-ci=? 'a \"a\")"};
  CHECK(!ev(e[choose(20, "e")]), "wrong type is an error");
  CHECK(isnumv(ev("(string-length \"abc\")"), 3), "usable afterwards");
  REACH("end");
}
