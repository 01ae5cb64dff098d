// Hash tables are finite maps.
// @bound histories of 3 (2 for the rarer key kinds) (quick) / 4 (thorough) operations (set, remove, create-handle, update through a handle) on tables of symbolic small capacity, over 3 keys of one kind: integers (all 64-bit), symbols, strings, characters, reals, fractions, lists, vectors, booleans
// @bound chains: up to 4 keys of different kinds in 1 or 2 buckets with 2 removals or updates and a further update
// @quick_timeout 100
// @param_thorough ops=4
#include "sx.h"
static const char *FAM[] = {"hash", "hashv", "hashq"};
static int64_t KI[3];
static int kind;
static S key(int i) {
  int64_t v = KI[i];
  switch (kind) {
  case 0: return mknum(v);
  case 1: { char c[2] = {(char)v, 'k'}; return create_sym(c, 2); }
  case 2: return mkchr((unsigned char)v);
  case 3: return mkbool(v & 1);
  case 4: { S a[2] = {mknum(v), mknum(3)}; return apply("/", a, 2); }
  case 5: return mkflo((double)v / 2);
  case 6: { char c[2] = {(char)v, 's'}; return mkstr(c, 2); }
  case 7: { S a[2] = {mknum(v), mkchr('q')}; return list_of(a, 2); }
  case 8: { S a[2] = {mknum(v), mkchr('q')}; return apply("vector", a, 2); }
  default: return scm_cons(mknum(v), scm_cons(mkflo(1.5), mknum(v)));
  }
}
static void keys(int fam) {
  kind = choose(fam == 0 ? 10 : fam == 1 ? 6 : 4, "kind");
  for (int i = 0; i < 3; i++) {
    char nm[8]; snprintf(nm, 8, "k%d", i);
    if (kind == 0) KI[i] = sym64(nm);
    else if (kind == 1 || kind == 6) { KI[i] = symrange(nm, 'a', 'z'); }
    else if (kind == 2) KI[i] = symrange(nm, 0, 127);
    else if (kind == 4) { static const int f[] = {1, 4, -2}; KI[i] = f[choose(3, nm)]; }
    else if (kind == 5) KI[i] = choose(3, nm) - 1; // -0.5, 0, 0.5
    else KI[i] = symrange(nm, kind == 3 ? 0 : -3, kind == 3 ? 1 : 3);
  }
}
static bool same(int i, int j) { return kind == 3 ? (KI[i] & 1) == (KI[j] & 1) : KI[i] == KI[j]; }
// the model: the last binding of each key, by key index
static int64_t val[8]; static int owner[8]; static int nb;
static int lookup(int i) { for (int j = 0; j < nb; j++) if (same(owner[j], i)) return j; return -1; }
static void put(int i, int64_t v) { int j = lookup(i); if (j < 0) { owner[nb] = i; val[nb++] = v; } else val[j] = v; }
static void del(int i) { int j = lookup(i); if (j < 0) return; nb--; owner[j] = owner[nb]; val[j] = val[nb]; }
static void agree(const char *f) {
  for (int i = 0; i < 3; i++) {
    def("k", key(i));
    int j = lookup(i);
    S r = evf("(%s-ref t k)", f);
    if (j < 0) { CHECK(isF(r), "absent key"); CHECK(isF(evf("(%s-get-handle t k)", f)), "absent handle"); }
    else {
      CHECK(isnumv(r, val[j]), "value of a key");
      CHECK(isnumv(evf("(cdr (%s-get-handle t k))", f), val[j]), "value through the handle");
    }
  }
  CHECK(isnumv(ev("(hash-fold (lambda (k v n) (+ n 1)) 0 t)"), nb), "number of entries");
}
static void history(int fam) {
  const char *f = FAM[fam];
  keys(fam);
  ASSUME(fam == 0 || kind < (fam == 1 ? 6 : 4));
  int cap = sx_param("thorough", 0) ? choose(3, "cap") : fam == 0 && kind >= 2 ? choose(2, "cap") : 1;
  evf("(define t (make-hash-table %d))", cap == 0 ? 1 : kind == 0 ? 2 * cap : cap == 1 ? 3 : 7);
  nb = 0;
  int ops = (int)sx_param("ops", 3);
  if (kind >= 1 && ops == 3) ops = 2; // quick: shorter histories for the rarer key kinds
  for (int o = 0; o < ops; o++) {
    char nm[8];
    snprintf(nm, 8, "op%d", o); int op = o == 0 ? 0 : choose(o == 2 && !sx_param("thorough", 0) ? 2 : 4, nm); // the first operation is an insertion
    snprintf(nm, 8, "i%d", o); int i = choose(o == 0 ? 1 : o == 1 ? 2 : 3, nm);
    def("k", key(i));
    int64_t v = 100 + o;
    defn("v", v);
    if (op == 0) { CHECK(isnumv(evf("(%s-set! t k v)", f), v), "set returns the value"); put(i, v); }
    else if (op == 1) { CHECK(evf("(%s-remove! t k)", f) != nullptr, "remove"); del(i); }
    else if (op == 2) {
      int j = lookup(i);
      S h = evf("(cdr (%s-create-handle! t k v))", f);
      if (j < 0) put(i, v);
      CHECK(isnumv(h, j < 0 ? v : val[j]), "create-handle! keeps an existing value");
    } else {
      int j = lookup(i);
      S r = evf("(set-cdr! (%s-get-handle t k) v)", f);
      if (j < 0) CHECK(!r, "no handle"); else { CHECK(r != nullptr, "update through the handle"); val[j] = v; }
    }
  }
  agree(f);
  REACH("end");
}
// longer chains: any removals and re-insertions among up to 4 keys sharing few buckets
H(chain) {
  static const char *K[] = {"'a", "\"s\"", "3", "'(1 2)"};
  int n = 2 + choose(3, "n"), cap = 1 + choose(2, "cap");
  evf("(define t (make-hash-table %d))", cap);
  int64_t v[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; i++) evf("(hash-set! t %s %d)", K[i], v[i] = 10 + i);
  for (int o = 0; o < 3; o++) {
    char nm[8]; snprintf(nm, 8, "i%d", o); int i = choose(n, nm);
    snprintf(nm, 8, "r%d", o); int rm = o == 2 ? 0 : choose(2, nm);
    if (rm) { evf("(hash-remove! t %s)", K[i]); v[i] = 0; }
    else evf("(hash-set! t %s %d)", K[i], v[i] = 20 + o);
  }
  int live = 0;
  for (int i = 0; i < n; i++) {
    S r = evf("(hash-ref t %s)", K[i]);
    if (v[i]) { live++; CHECK(isnumv(r, v[i]), "kept"); } else CHECK(isF(r), "removed");
  }
  CHECK(isnumv(ev("(hash-fold (lambda (k v n) (+ n 1)) 0 t)"), live), "entries counted once");
  REACH("end");
}
H(equal) { history(0); }
H(eqv) { history(1); }
H(eq) { history(2); }
// values of any shape survive storage, and updates through the handle are seen
H(values) {
  int fam = choose(3, "fam");
  const char *f = FAM[fam];
  int64_t y = sym64("y"); defn("y", y);
  static const char *v[] = {"y", "'()", "(list y 2)", "(cons y 3)", "\"str\"", "(list)", "#f", "(vector y)", "(list (list y) 2)"};
  int a = choose(9, "a"), b = choose(9, "b");
  ev("(define t (make-hash-table 3))");
  evf("(define v1 %s)", v[a]); evf("(define v2 %s)", v[b]);
  evf("(%s-set! t 'k v1)", f);
  evf("(%s-set! t 'other 1)", f);
  CHECK(isT(evf("(equal? (%s-ref t 'k) v1)", f)), "stored value");
  int how = choose(3, "how");
  if (how == 0) evf("(%s-set! t 'k v2)", f);
  else if (how == 1) evf("(set-cdr! (%s-get-handle t 'k) v2)", f);
  else evf("(set-cdr! (%s-create-handle! t 'k 0) v2)", f);
  CHECK(isT(evf("(equal? (%s-ref t 'k) v2)", f)), "updated value");
  CHECK(isT(evf("(equal? (cdr (%s-get-handle t 'k)) v2)", f)), "updated value through the handle");
  CHECK(isT(evf("(eq? (%s-ref t 'k) v2)", f)) || isstr(ev("v2")), "the very object");
  CHECK(isT(ev("(hash-fold (lambda (k v r) (if (eq? k 'k) (equal? v v2) r)) 'none t)")), "updated value in a fold");
  evf("(%s-set! t 'k 7)", f);
  CHECK(isnumv(evf("(%s-ref t 'k)", f), 7), "overwritten");
  evf("(define chk %s)", v[b]);
  CHECK(isT(ev("(equal? v2 chk)")), "overwriting a key leaves the old value alone");
  CHECK(isnumv(evf("(%s-ref t 'other)", f), 1), "other key untouched");
  REACH("end");
}
// objects as keys by identity, however reached
H(identity) {
  int fam = 1 + choose(2, "fam");
  const char *f = FAM[fam];
  int64_t y = sym64("y"); defn("y", y);
  ev("(define l (list y y y))");
  ev("(define t (make-hash-table 5))");
  evf("(%s-set! t (cdr l) 'tail)", f);
  evf("(%s-set! t (cddr l) 'tail2)", f);
  evf("(%s-set! t l 'whole)", f);
  CHECK(issymn(evf("(%s-ref t (cdr l))", f), "tail"), "pair key reached again");
  CHECK(issymn(evf("(%s-ref t (list-tail l 2))", f), "tail2"), "pair key reached differently");
  CHECK(issymn(evf("(%s-ref t l)", f), "whole"), "whole list");
  CHECK(isF(evf("(%s-ref t (list y y y))", f)), "a different list");
  CHECK(isnumv(ev("(hash-fold (lambda (k v n) (+ n 1)) 0 t)"), 3), "three entries");
  REACH("end");
}
H(default_size) {
  int64_t a = symrange("a", -100, 100), b = symrange("b", -100, 100);
  defn("a", a); defn("b", b);
  ev("(define t (make-hash-table))");
  ev("(hash-set! t a 1)");
  S r = ev("(hash-ref t b)");
  if (a == b) CHECK(isnumv(r, 1), "same key"); else CHECK(isF(r), "different key");
  REACH("end");
}
// fold visits every entry exactly once
H(fold) {
  int n = choose(5, "n"), cap = 1 + choose(3, "cap");
  evf("(define t (make-hash-table %d))", cap);
  i128 sum = 0;
  int64_t x[5];
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "x%d", i);
    x[i] = symrange(nm, -1000, 1000); sum += x[i];
    defn("i", i); defn("x", x[i]);
    ev("(hash-set! t i x)");
  }
  CHECK(isnumv(ev("(hash-fold (lambda (k v n) (+ n v)) 0 t)"), (int64_t)sum), "sum of the values");
  CHECK(isnumv(ev("(hash-fold (lambda (k v n) (+ n k)) 0 t)"), n * (n - 1) / 2), "sum of the keys");
  CHECK(lenof(ev("(hash-fold (lambda (k v n) (cons k n)) '() t)")) == n, "list of keys");
  CHECK(isnumv(ev("(hash-fold (lambda (k v n) (hash-set! t k 0) (+ n v)) 0 t)"), (int64_t)sum), "updating while folding");
  REACH("end");
}
H(two) {
  int64_t a = sym64("a"), b = sym64("b");
  defn("a", a); defn("b", b);
  ev("(define t (make-hash-table 3))");
  ev("(define u (make-hash-table 3))");
  ev("(hash-set! t a 1)");
  CHECK(isF(ev("(hash-ref u a)")), "tables are independent");
  ev("(hash-set! u b 2)");
  CHECK(isnumv(ev("(hash-ref t a)"), 1), "first");
  CHECK(isnumv(ev("(hash-ref u b)"), 2), "second");
  S r = ev("(hash-ref t b)");
  if (a == b) CHECK(isnumv(r, 1), "same key"); else CHECK(isF(r), "different key");
  REACH("end");
}
H(make) {
  int64_t n = sym64("n"); defn("n", n);
  ASSUME(n < 20 || n > (1 << 30));
  S t = ev("(make-hash-table n)");
  if (n < 0) { CHECK(!t, "negative size is an error"); REACH("end-neg"); return; }
  ASSUME(n < 20);
  def("t", t);
  ev("(hash-set! t 'a 1)");
  CHECK(isnumv(ev("(hash-ref t 'a)"), 1), "usable");
  REACH("end");
}
H(types) {
  static const char *e[] = {"(hash-set! 5 1 2)", "(hashq-ref 'a 1)", "(hash-ref '() 1)", "(hashv-get-handle \"a\" 1)", "(hash-remove! 5 1)", "(hash-create-handle! 5 1 2)", "(hash-fold + 0 5)", "(make-hash-table 'a)", "(hash-fold 5 0 t)", "(make-hash-table -1)"};
  ev("(define t (make-hash-table 2))");
  ev("(hash-set! t 1 2)");
  CHECK(!ev(e[choose(10, "e")]), "wrong operand is an error");
  CHECK(isnumv(ev("(hash-ref t 1)"), 2), "table intact");
  REACH("end");
}
