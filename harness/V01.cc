// Vectors.
// @bound vectors of length 0..4 (quick) / 0..6 (thorough) with symbolic integer elements; indices: every 64-bit integer
// @param_thorough n=6
#include "sx.h"
static int64_t X[16];
static int N() { return (int)sx_param("n", 4); }
static int setup() {
  int n = choose(N() + 1, "n");
  S v[16];
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "x%d", i); X[i] = sym64(nm); v[i] = mknum(X[i]); }
  def("l", list_of(v, n));
  ev("(define v (apply vector l))");
  return n;
}
static void same(const char *lab, const char *e, const int64_t *x, int n) {
  S l = ev(e);
  CHECK(lenof(l) == n, lab);
  for (int i = 0; i < n; i++) CHECK(isnumv(nth(l, i), x[i]), lab);
}
H(ref) {
  int n = setup();
  int64_t k = sym64("k"); defn("k", k);
  S r = ev("(vector-ref v k)");
  if (k >= 0 && k < n) CHECK(isnumv(r, X[k]), "element");
  else CHECK(!r, "out of range is an error");
  same("vector unchanged", "(vector->list v)", X, n);
  REACH("end");
}
H(set) {
  int n = setup();
  int64_t k = sym64("k"), y = sym64("y"); defn("k", k); defn("y", y);
  ev("(define w v)");
  S r = ev("(vector-set! v k y)");
  if (k >= 0 && k < n) { CHECK(r != nullptr, "in range succeeds"); X[k] = y; }
  else CHECK(!r, "out of range is an error");
  same("exactly one element changed", "(vector->list v)", X, n);
  same("shared reference sees it", "(vector->list w)", X, n);
  REACH("end");
}
H(convert) {
  int n = setup();
  CHECK(isnumv(ev("(vector-length v)"), n), "length");
  same("vector->list inverts vector", "(vector->list v)", X, n);
  same("list->vector and back", "(vector->list (list->vector l))", X, n);
  CHECK(isT(ev("(equal? v (list->vector l))")), "equal vectors");
  CHECK(isT(ev("(vector? v)")) && isF(ev("(vector? l)")), "vector?");
  REACH("end");
}
H(fresh) {
  int n = setup();
  ASSUME(n > 0);
  int64_t k = symrange("k", 0, n - 1); defn("k", k);
  ev("(define w (list->vector l))");
  ev("(vector-set! w k 'changed)");
  same("other vector unaffected", "(vector->list v)", X, n);
  same("source list unaffected", "l", X, n);
  ev("(define m (vector->list v))");
  ev("(vector-set! v k 'changed)");
  same("extracted list unaffected", "m", X, n);
  REACH("end");
}
H(make) {
  int64_t k = symrange("k", -4, 8), y = sym64("y"), j = sym64("j");
  defn("k", k); defn("y", y); defn("j", j);
  S r = ev("(make-vector k y)");
  if (k < 0) { CHECK(!r, "negative length is an error"); REACH("end-neg"); return; }
  def("v", r);
  CHECK(isnumv(ev("(vector-length v)"), k), "length");
  S e = ev("(vector-ref v j)");
  if (j >= 0 && j < k) CHECK(isnumv(e, y), "filled"); else CHECK(!e, "out of range is an error");
  CHECK(isnumv(ev("(vector-length (make-vector k))"), k), "unfilled length");
  REACH("end");
}
H(nested) {
  int n = setup();
  ASSUME(n >= 2);
  ev("(define w (vector v l (vector v)))");
  int64_t y = sym64("y"); defn("y", y);
  ev("(vector-set! (vector-ref (vector-ref w 2) 0) 1 y)");
  CHECK(isnumv(ev("(vector-ref v 1)"), y), "nested vectors share");
  CHECK(isnumv(ev("(vector-ref (vector-ref w 0) 1)"), y), "nested vectors share 2");
  CHECK(isnumv(ev("(cadr (vector-ref w 1))"), X[1]), "list element kept");
  REACH("end");
}
H(types) {
  static const char *e[] = {"(vector-ref '(1 2) 0)", "(vector-ref (vector 1) 'a)", "(vector-ref (vector 1) 0.5)", "(vector-set! 5 0 0)", "(vector-length 'a)", "(vector->list 5)", "(list->vector 5)", "(make-vector 'a)", "(list->vector '(1 . 2))", "(vector-set! (vector 1) 'a 1)", "(make-vector 1.5 0)"};
  CHECK(!ev(e[choose(11, "e")]), "wrong type is an error");
  CHECK(isnumv(ev("(vector-length (vector 1 2 3))"), 3), "usable afterwards");
  REACH("end");
}
