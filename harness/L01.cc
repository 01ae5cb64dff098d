// List procedures against an array model.
// @bound lists of 0..5 (quick) / 0..9 (thorough) symbolic integers, proper or ending in a non-list; indices: every 64-bit integer
// @param_thorough n=9
#include "sx.h"
static int N() { return (int)sx_param("n", 5); }
static int64_t X[16], Y[16], T;
static int n;
static bool dot;
static S V[32];
static void mk(const char *name, const char *pre, int64_t *x, int &len, int max) {
  char nm[16];
  snprintf(nm, 16, "%sn", pre);
  len = choose(max + 1, nm);
  for (int i = 0; i < len; i++) { snprintf(nm, 16, "%s%d", pre, i); x[i] = sym64(nm); V[i] = mknum(x[i]); }
  def(name, list_of(V, len));
}
// the list l; when `dotted` is possible it may end in the integer T
static void setup(bool may_dot) {
  mk("l", "x", X, n, N());
  dot = may_dot && n > 0 && choose(2, "dot");
  if (dot) {
    T = sym64("T"); defn("T", T);
    S p = mknum(T);
    for (int i = n - 1; i >= 0; i--) p = scm_cons(mknum(X[i]), p);
    def("l", p);
  }
}
static void is_list(const char *lab, S l, const int64_t *x, int len) {
  CHECK(lenof(l) == len, lab);
  for (int i = 0; i < len; i++) CHECK(isnumv(nth(l, i), x[i]), lab);
}
// v is x[0..len) followed by tail T when dotted
static void is_dlist(const char *lab, S v, const int64_t *x, int len, bool d) {
  for (int i = 0; i < len; i++) {
    CHECK(v && v->type == SCM::LIST, lab);
    CHECK(isnumv(car(v), x[i]), lab);
    v = cdr(v);
  }
  if (d) CHECK(isnumv(v, T), lab); else CHECK(isnil(v), lab);
}
static void unchanged() { is_dlist("operand unchanged", ev("l"), X, n, dot); }
H(length) {
  setup(true);
  S r = ev("(length l)");
  if (dot) CHECK(!r, "length of an improper list is an error"); else CHECK(isnumv(r, n), "length");
  CHECK(isT(ev("(list? l)")) == !dot, "list?");
  CHECK(isT(ev("(null? l)")) == (n == 0 && !dot), "null?");
  CHECK(isT(ev("(pair? l)")) == (n > 0), "pair?");
  unchanged();
  REACH("end");
}
H(ref) {
  setup(true);
  int64_t k = sym64("k"); defn("k", k);
  S r = ev("(list-ref l k)");
  if (k >= 0 && k < n) CHECK(isnumv(r, X[k]), "element"); else CHECK(!r, "out of range is an error");
  unchanged();
  REACH("end");
}
H(tail) {
  setup(true);
  int64_t k = sym64("k"); defn("k", k);
  S r = ev("(list-tail l k)");
  if (k >= 0 && k <= n) is_dlist("tail", r, X + k, (int)(n - k), dot); else CHECK(!r, "out of range is an error");
  unchanged();
  REACH("end");
}
H(head) {
  setup(true);
  int64_t k = sym64("k"); defn("k", k);
  S r = ev("(list-head l k)");
  if (k >= 0 && k <= n) {
    is_list("head", r, X, (int)k);
    ev("(let ((h (list-head l k))) (if (pair? h) (set-car! h 'changed)))");
  } else CHECK(!r, "out of range is an error");
  unchanged();
  REACH("end");
}
H(reverse) {
  setup(true);
  S r = ev("(reverse l)");
  if (dot) CHECK(!r, "reversing an improper list is an error");
  else {
    int64_t R[16];
    for (int i = 0; i < n; i++) R[i] = X[n - 1 - i];
    is_list("reverse", r, R, n);
    is_list("reverse twice", ev("(reverse (reverse l))"), X, n);
    ev("(let ((h (reverse l))) (if (pair? h) (set-car! h 'changed)))");
  }
  unchanged();
  REACH("end");
}
H(append) {
  int m;
  mk("m", "y", Y, m, 2);
  setup(true);
  int64_t Z[32];
  memcpy(Z, Y, sizeof(int64_t) * m); memcpy(Z + m, X, sizeof(int64_t) * n);
  is_dlist("append", ev("(append m l)"), Z, m + n, dot);
  is_dlist("append with empty lists", ev("(append '() m '() l)"), Z, m + n, dot);
  is_dlist("append of one", ev("(append l)"), X, n, dot);
  memcpy(Z + m, Y, sizeof(int64_t) * m); memcpy(Z + 2 * m, X, sizeof(int64_t) * n);
  is_dlist("append of three", ev("(append m m l)"), Z, 2 * m + n, dot);
  if (dot) { CHECK(!ev("(append l m)"), "improper argument that is not last is an error"); CHECK(!ev("(append m l '())"), "improper middle argument is an error"); }
  else {
    T = sym64("T"); defn("T", T);
    is_dlist("append of a non-list", ev("(append l T)"), X, n, true);
  }
  if (m) { ev("(set-car! (append m l) 'changed)"); is_list("first argument is copied", ev("m"), Y, m); }
  CHECK(isnil(ev("(append)")), "append of nothing");
  unchanged();
  REACH("end");
}
H(last) {
  setup(true);
  S r = ev("(last-pair l)");
  if (n) { is_dlist("last pair", r, X + n - 1, 1, dot); }
  else CHECK(isnil(r), "last pair of the empty list");
  unchanged();
  REACH("end");
}
H(parts) {
  setup(true);
  S r;
  r = ev("(car l)"); if (n > 0) CHECK(isnumv(r, X[0]), "car"); else CHECK(!r, "car of empty");
  r = ev("(cdr l)"); if (n > 0) is_dlist("cdr", r, X + 1, n - 1, dot); else CHECK(!r, "cdr of empty");
  r = ev("(cadr l)"); if (n > 1) CHECK(isnumv(r, X[1]), "cadr"); else CHECK(!r, "cadr of short");
  r = ev("(cddr l)"); if (n > 1) is_dlist("cddr", r, X + 2, n - 2, dot); else CHECK(!r, "cddr of short");
  r = ev("(caddr l)"); if (n > 2) CHECK(isnumv(r, X[2]), "caddr"); else CHECK(!r, "caddr of short");
  int64_t y = sym64("y"); defn("y", y);
  ev("(define c (cons y l))");
  CHECK(isnumv(ev("(car c)"), y), "car of cons");
  is_dlist("cdr of cons", ev("(cdr c)"), X, n, dot);
  unchanged();
  REACH("end");
}
H(build) {
  setup(false);
  is_list("list", ev("(apply list l)"), X, n);
  is_list("list by cons", apply("list", V, n), X, n);
  int64_t y = sym64("y"), z = sym64("z"); defn("y", y); defn("z", z);
  CHECK(lenof(ev("(list y l z)")) == 3, "list of three");
  is_list("nested", ev("(cadr (list y l z))"), X, n);
  CHECK(isnumv(ev("(caddr (list y l z))"), z), "third");
  T = z;
  is_dlist("dotted", ev("(cons y (cons y z))"), (int64_t[]){y, y}, 2, true);
  is_list("applied lambda list", ev("(apply (lambda r r) l)"), X, n);
  REACH("end");
}
// mutation: exactly one cell changes and every alias sees it
H(setcar) {
  setup(true);
  ASSUME(n > 0);
  int64_t k = symrange("k", 0, n - 1), y = sym64("y");
  defn("k", k); defn("y", y);
  ev("(define m l)");
  ev("(define suffix (list-tail l k))");
  ev("(define longer (cons 0 l))");
  CHECK(ev("(set-car! (list-tail l k) y)") != nullptr, "set-car! succeeds");
  X[k] = y;
  unchanged();
  is_dlist("alias", ev("m"), X, n, dot);
  is_dlist("suffix", ev("suffix"), X + k, (int)(n - k), dot);
  is_dlist("list sharing the tail", ev("(cdr longer)"), X, n, dot);
  REACH("end");
}
H(setcdr) {
  setup(true);
  ASSUME(n > 0);
  int64_t k = symrange("k", 0, n - 1);
  defn("k", k);
  ev("(define longer (cons 0 l))");
  int what = choose(3, "what"), m = 0;
  int64_t Z[32];
  memcpy(Z, X, sizeof Z / 2);
  if (what == 0) { mk("m", "y", Y, m, 2); CHECK(ev("(set-cdr! (list-tail l k) m)") != nullptr, "set-cdr! list"); memcpy(Z + k + 1, Y, sizeof(int64_t) * m); dot = false; }
  else if (what == 1) { CHECK(ev("(set-cdr! (list-tail l k) '())") != nullptr, "set-cdr! empty"); dot = false; }
  else { T = sym64("T2"); defn("T2", T); CHECK(ev("(set-cdr! (list-tail l k) T2)") != nullptr, "set-cdr! atom"); dot = true; }
  is_dlist("list after set-cdr!", ev("l"), Z, (int)(k + 1 + m), dot);
  is_dlist("shared list after set-cdr!", ev("(cdr longer)"), Z, (int)(k + 1 + m), dot);
  if (what == 0 && m) { ev("(set-car! m 'changed)"); CHECK(issymn(ev("(list-ref l (+ k 1))"), "changed"), "tail is shared"); }
  REACH("end");
}
H(types) {
  static const char *e[] = {"(car 5)", "(cdr 'a)", "(car '())", "(length 5)", "(length 'a)", "(reverse 5)", "(list-tail 5 1)", "(list-ref 5 0)", "(list-ref '(1) 'a)", "(list-tail '(1) 'a)", "(list-head '(1) 'a)", "(list-head 5 1)", "(set-car! 5 1)", "(set-cdr! '() 1)", "(append 5 '(1))", "(append '(1) 5 '(1))", "(last-pair 5)", "(cadr '(1))", "(caddr '(1 2))", "(cddr '(1))", "(length \"abc\")", "(reverse (vector 1))", "(list-ref '() 0)", "(car \"abc\")", "(length '(1 . 2))"};
  CHECK(!ev(e[choose(25, "e")]), "wrong operand is an error");
  CHECK(isnumv(ev("(length '(1 2 3))"), 3), "usable afterwards");
  REACH("end");
}
H(longlist) {
  int big = sx_param("thorough", 0) ? 3000 : 600;
  S l = scm_nil();
  int64_t y = sym64("y");
  for (int i = 0; i < big; i++) l = scm_cons(mknum(i == 7 ? y : i), l);
  def("l", l);
  CHECK(isnumv(ev("(length l)"), big), "length of a long list");
  CHECK(isT(ev("(list? l)")), "long list is a list");
  CHECK(isnumv(ev("(list-ref (reverse l) 7)"), y), "element of a long list");
  CHECK(isnumv(ev("(length (append l l))"), 2 * big), "append of long lists");
  REACH("end");
}

// circular structure: list? terminates and says no; list-tail, list-ref and set-car! still work
H(circular) {
  int len = 1 + choose(N(), "len"), back = choose(len, "back");
  defn("len", len); defn("back", back);
  for (int i = 0; i < len; i++) { X[i] = sym64("x"); V[i] = mknum(X[i]); }
  def("c", list_of(V, len));
  ev("(set-cdr! (list-tail c (- len 1)) (list-tail c back))");
  CHECK(isF(ev("(list? c)")), "a circular list is not a list");
  CHECK(isT(ev("(pair? c)")), "pair");
  int k = choose(8, "k"); defn("k", k);
  int at = k < len ? k : back + (k - len) % (len - back);
  CHECK(isnumv(ev("(list-ref c k)"), X[at]), "element of a circular list");
  CHECK(isnumv(ev("(car (list-tail c k))"), X[at]), "tail of a circular list");
  CHECK(!ev("(last-pair c)"), "circular list has no last pair");
  REACH("end");
}
H(biglist) {
  int big = sx_param("thorough", 0) ? 20011 : 10011;
  S l = scm_nil();
  SCM_List *c = nullptr;
  for (int i = 0; i < big; i++) { SCM_List *d = make_list(l); d->next = c; c = d; }
  l = wrap(c);
  def("l", l);
  int64_t y = sym64("y"); defn("y", y);
  CHECK(isT(ev("(list? l)")), "big list");
  CHECK(isT(ev("(list? (cons y l))")), "big list 2");
  REACH("end");
}
