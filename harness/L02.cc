// memq memv member assq assv assoc and the association-list updaters.
// @bound keys of every atomic kind (integer: all 64-bit; reals, fractions, characters, booleans, strings/symbols of <=2 bytes, and pairs/vectors for member/assoc); lists of 0..3 (quick) / 0..4 (thorough) entries
// @quick_timeout 100
// @param_thorough n=4
#include "gen.h"
static int N() { return (int)sx_param("n", 3); }
static M *K, *E[8];
static int n;
static S B[8];
// a list whose interesting element kinds vary: one entry has any kind, the others are integers or symbols
static void entries(int kinds, int depth, int max = 0) {
  K = gen("K", depth, kinds);
  n = choose((max ? max : N()) + 1, "n");
  int any = n ? choose(n, "any") : 0;
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "e%d", i);
    E[i] = gen(nm, i == any ? depth : 0, i == any ? kinds : 1);
    B[i] = build(E[i]);
  }
  def("k", build(K));
}
static int find(bool (*same)(M *, M *)) {
  for (int i = 0; i < n; i++) if (same(K, E[i])) return i;
  return -1;
}
// eq? of pairs and vectors built separately is false
static bool same_eqv(M *x, M *y) { return atomic(x) && atomic(y) && atom_same(x, y); }
static void mem(const char *fn, bool (*same)(M *, M *)) {
  def("l", list_of(B, n));
  int at = find(same);
  S r = evf("(%s k l)", fn);
  if (at < 0) CHECK(isF(r), "absent");
  else {
    def("r", r);
    CHECK(lenof(r) == n - at, "first occurrence");
    defn("at", at);
    CHECK(isT(ev("(eq? r (list-tail l at))")), "the sublist itself is returned");
  }
  REACH("end");
}
H(memq) { entries(6, 0); mem("memq", same_eqv); }
H(memv) { entries(6, 0); mem("memv", same_eqv); }
H(memv_num) { entries(8, 0, 1); mem("memv", same_eqv); }
H(member_num) { entries(8, 0, 1); mem("member", equal_m); }
H(memv_deep) { entries(1, 1); mem("memv", same_eqv); }
H(member) { entries(6, 0); mem("member", equal_m); }
H(member_deep) { entries(2, 1); mem("member", equal_m); }
static int64_t VAL[8];
// value shapes: a number, a list of two, the empty list
static int shape;
static S val(int i) { S v = mknum(VAL[i]); return shape == 0 ? v : shape == 1 ? scm_cons(v, scm_cons(v, scm_nil())) : scm_nil(); }
static bool isval(S v, int i) {
  if (shape == 0) return isnumv(v, VAL[i]);
  if (shape == 1) return lenof(v) == 2 && isnumv(nth(v, 0), VAL[i]) && isnumv(nth(v, 1), VAL[i]);
  return isnil(v);
}
static void alist() {
  shape = choose(3, "shape");
  S p[8];
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "v%d", i); VAL[i] = sym64(nm); p[i] = scm_cons(B[i], val(i)); }
  def("l", list_of(p, n));
}
static void ass(const char *fn, bool (*same)(M *, M *)) {
  alist();
  int at = find(same);
  S r = evf("(%s k l)", fn);
  if (at < 0) CHECK(isF(r), "absent");
  else {
    def("r", r);
    defn("at", at);
    CHECK(isT(ev("(eq? r (list-ref l at))")), "the entry itself is returned");
    CHECK(isval(ev("(cdr r)"), at), "value");
  }
  REACH("end");
}
static bool nostr(M *m) { return m->k != M::STR_; }
H(assq) { entries(6, 0); for (int i = 0; i < n; i++) ASSUME(nostr(E[i])); ASSUME(nostr(K)); ass("assq", same_eqv); }
H(assv) { entries(6, 0); ass("assv", same_eqv); }
H(assv_num) { entries(8, 0, 1); ass("assv", same_eqv); }
H(assoc_num) { entries(8, 0, 1); ass("assoc", equal_m); }
H(assv_deep) { entries(1, 1); ass("assv", same_eqv); }
H(assoc) { entries(6, 0); ass("assoc", equal_m); }
H(assoc_deep) { entries(2, 1); ass("assoc", equal_m); }
H(assoc_ref) {
  entries(6, 0);
  alist();
  int at = find(equal_m);
  S r = ev("(assoc-ref l k)");
  if (at < 0) CHECK(isF(r), "absent"); else CHECK(isval(r, at), "value");
  REACH("end");
}
// updaters against the model: the result maps k to the new value and every other key as before
static void upd(const char *fn, bool (*same)(M *, M *), bool removal) {
  alist();
  // distinct keys
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) ASSUME(!same(E[i], E[j]));
  int64_t y = sym64("y"); defn("y", y);
  int at = find(same);
  S r = removal ? evf("(%s l k)", fn) : evf("(%s l k y)", fn);
  def("r", r);
  CHECK(lenof(r) == n + (removal ? (at < 0 ? 0 : -1) : (at < 0 ? 1 : 0)), "size");
  S g = ev("(assoc k r)");
  if (removal) CHECK(isF(g), "removed"); else { CHECK(g != nullptr && !isF(g), "present"); CHECK(isnumv(cdr(g), y), "new value"); }
  for (int i = 0; i < n; i++) {
    if (i == at) continue;
    def("other", B[i]);
    g = ev("(assoc other r)");
    CHECK(g && g->type == SCM::LIST, "other key kept");
    CHECK(isval(cdr(g), i), "other value kept");
  }
  REACH("end");
}
H(assoc_set) { entries(4, 0); upd("assoc-set!", equal_m, false); }
H(assq_set) { entries(4, 0); for (int i = 0; i < n; i++) ASSUME(nostr(E[i])); ASSUME(nostr(K)); upd("assq-set!", same_eqv, false); }
H(assoc_remove) { entries(4, 0); upd("assoc-remove!", equal_m, true); }
H(acons) {
  entries(3, 0);
  alist();
  int64_t y = sym64("y"); defn("y", y);
  ev("(define m (acons k y l))");
  CHECK(isnumv(ev("(cdr (assoc k m))"), y), "acons takes precedence");
  CHECK(isT(ev("(eq? (cdr m) l)")) || n == 0, "acons shares the rest");
  CHECK(lenof(ev("m")) == n + 1, "length");
  CHECK(lenof(ev("l")) == n, "operand unchanged");
  REACH("end");
}
H(types) {
  static const char *e[] = {"(memq 'a 5)", "(memv 1 'a)", "(member 1 \"abc\")", "(assq 'a 5)", "(assv 1 'a)", "(assoc 1 \"abc\")", "(assoc-ref 5 1)", "(assoc-set! 5 1 2)", "(assq-set! 'a 1 2)", "(assoc-remove! 5 1)"};
  CHECK(!ev(e[choose(10, "e")]), "wrong operand is an error");
  CHECK(isT(ev("(pair? (memq 'a '(b a)))")), "usable afterwards");
  REACH("end");
}
H(odd) {
  static const char *f[] = {"(memq 2 '(1 . 2))", "(memv 2 '(1 . 2))", "(member 2 '(1 . 2))", "(assq 'a '(a b))", "(assoc 5 '(5 6))", "(assv 5 '(5 6))", "(memq 'a '())", "(assq 'a '())", "(member '(1) '(1))", "(member '(1 . 2) '((1 2)))", "(assoc '(1 2) '(((1 . 2) . 3)))"};
  S r = ev(f[choose(11, "f")]);
  CHECK(!r || isF(r), "no spurious match");
  REACH("end");
}
