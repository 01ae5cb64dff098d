// User-defined types (smobs) and first-class variables: what C and Scheme store in them is what they read, and they behave as their type's functions say.
// @bound data: up to 2 smobs of 2 types made by any of 5 constructors, every history of 2 (thorough: 3) field updates; fields any 64-bit integer, tags any 64-bit integer
// @bound equal: pairs of smobs of two types with or without an equality function, compared directly and inside lists, vectors, member, assoc and hash tables; data any 64-bit integer
// @bound apply: each subset of apply functions, 0..5 arguments (any 64-bit integer, symbols and lists), smob reached by a global, local or captured variable or an expression
// @bound print: display and write of smobs with 8 data values, alone and inside data, with the default and with their own print function
// @bound types: up to 257 types
// @bound variables: every history of 3 (thorough: 4) operations on 2 variable objects, from Scheme and C; values any 64-bit integer
// @bound misuse: every operation on values of every type
// @quick_timeout 120
// @param_thorough ops=3
// @param_thorough vops=4
// @thorough_timeout 900
#include "any.h"
#include "throw.h"
#include "smob.h"
static bool thrown;
static S guard(S (*f)(void *), void *d) {
  thrown = false;
  return scm_c_catch(scm_bool_true(), f, d, [](void *, S k, S a) -> S { thrown = true; return nullptr; }, nullptr);
}
template <class F> static S guardl(F f) { return guard([](void *d) -> S { return (*(F *)d)(); }, &f); }
static int64_t data1(S s) { return (int64_t)scm_smob_data(s); }

// ---- fields
H(data) {
  long t[2] = { scm_make_smob_type("alpha", 0), scm_make_smob_type("beta", 0) };
  CHECK(t[0] != t[1], "types are distinct");
  int n = 1 + choose(2, "objects"); S o[3]; int64_t f[3][4]; int ty[3];
  for (int i = 0; i < n; i++) {
    ty[i] = i ? choose(2, "type") : 0; int64_t a = sym64("a"), b = sym64("b"), c = sym64("c");
    memset(f[i], 0, sizeof f[i]);
    switch (choose(5, "constructor")) {
    case 0: o[i] = scm_make_smob(t[ty[i]], (void *)a); f[i][0] = a; break;
    case 1: o[i] = scm_make_smob_with_data(t[ty[i]], a); f[i][0] = a; break;
    case 2: o[i] = scm_make_smob_with_data2(t[ty[i]], a, b); f[i][0] = a; f[i][1] = b; break;
    case 3: o[i] = scm_make_smob_with_data3(t[ty[i]], a, b, c); f[i][0] = a; f[i][1] = b; f[i][2] = c; break;
    default: { S e[3] = { mksym("scm-make-smob"), mknum(t[ty[i]]), mknum(a) }; o[i] = pscm_eval(list_of(e, 3)); f[i][0] = a; }
    }
  }
  int m = (int)sx_param("ops", 2);
  for (int i = 0; i < m; i++) {
    int x = n == 1 ? 0 : choose(n, "object"), k = choose(4, "field"); int64_t v = sym64("v");
    switch (k) { case 0: scm_set_smob_data(o[x], (void *)v); break; case 1: scm_set_smob_data2(o[x], v); break; case 2: scm_set_smob_data3(o[x], v); break; default: scm_set_smob_flags(o[x], v); }
    f[x][k] = v;
  }
  int64_t bad = sym64("tag");
  for (int i = 0; i < n; i++) {
    CHECK((data1(o[i]) == f[i][0]) & (scm_smob_data2(o[i]) == f[i][1]) & (scm_smob_data3(o[i]) == f[i][2]) & (scm_smob_flags(o[i]) == f[i][3]), "every field holds what was last stored in it");
    CHECK(is_smob_type(o[i], t[ty[i]]) && !is_smob_type(o[i], t[1 - ty[i]]), "objects have the type they were made with");
    CHECK(is_smob_type(o[i], bad) == (bad == t[ty[i]]), "and no other");
    def("o", o[i]);
    CHECK(isnumv(ev("(scm-smob-data o)"), f[i][0]), "Scheme sees the data");
    CHECK(isT(ev("(scm-smob? o)")) && isF(ev("(or (pair? o) (vector? o) (procedure? o) (symbol? o) (string? o) (number? o) (null? o) (boolean? o) (char? o))")), "a smob is of no other type");
  }
  REACH("end");
}
H(tags) {
  int k = choose(4, "types"); long last = 0;
  for (int i = 0; i < k; i++) last = scm_make_smob_type("t", 0);
  int64_t tag = sym64("tag"), v = sym64("v");
  int64_t first = last - (k - 1);
  bool good = k ? (tag >= first) & (tag <= last) : false;
  defn("tag", tag); defn("v", v);
  int how = choose(4, "how"); S s = nullptr;
  if (how == 0) s = ev("(scm-make-smob tag v)");
  else s = guardl([&]() -> S { return how == 1 ? scm_make_smob_with_data(tag, v) : how == 2 ? scm_make_smob_with_data3(tag, v, 1, 2) : scm_make_smob(tag, (void *)v); });
  if (good) { CHECK(s && is_smob(s), "a registered tag makes an object"); if (s) CHECK(is_smob_type(s, tag) & (data1(s) == v), "of that type"); }
  else CHECK(!s, "an unregistered tag is an error");
  REACH("end");
}
H(types) {
  long t[256]; char nm[256][8];
  int n = choose(3, "how_many") + 255;       // 255, 256, 257
  bool failed = false;
  for (int i = 0; i < n; i++) {
    if (i == 256) { guardl([]() -> S { scm_make_smob_type("over", 0); return nullptr; }); failed = thrown; break; }
    snprintf(nm[i], 8, "t%d", i); t[i] = scm_make_smob_type(nm[i], 0);
  }
  CHECK(failed == (n > 256), "there is room for 256 types, one more is an error");
  int64_t v = sym64("v");
  for (int i = 0; i < 256 && i < n; i += 51) { S s = scm_make_smob_with_data(t[i], v); CHECK(data1(s) == v && is_smob_type(s, t[i]), "every type works"); SCM_SmobDescriptor *d = scm_get_smob_descriptor(t[i]); CHECK(d && strcmp(d->name, nm[i]) == 0, "and keeps its name"); }
  REACH("end");
}
// ---- equality
static int eq_calls;
static S eq_low(S a, S b) { eq_calls++; return mkbool(((data1(a) ^ data1(b)) & 0xff) == 0); }
H(equal) {
  long t[2] = { scm_make_smob_type("alpha", 0), scm_make_smob_type("beta", 0) };
  bool own[2] = { choose(2, "own_equality") == 1, choose(2, "own_equality") == 1 };
  for (int i = 0; i < 2; i++) if (own[i]) scm_set_smob_equalp(t[i], eq_low);
  int ta = choose(2, "type"), tb = choose(2, "type"); int64_t x = sym64("x"), y = sym64("y");
  int64_t p = sym64("p"), q = sym64("q");
  S a = scm_make_smob_with_data3(t[ta], x, p, q), b = choose(2, "same_object") ? a : scm_make_smob_with_data3(t[tb], y, choose(2, "same_rest") ? p : sym64("r"), q);
  bool ident = a == b, want = ident ? true : ta == tb && own[ta] ? ((x ^ y) & 0xff) == 0 : false;
  def("a", a); def("b", b);
  static const char *E[] = { "(equal? a b)", "(equal? (list 1 a) (list 1 b))", "(equal? (vector a 2) (vector b 2))", "(equal? (cons 1 a) (cons 1 b))", "(pair? (member a (list 1 b)))", "(pair? (assoc a (list (cons 1 2) (cons b 3))))", "(equal? (list (list a)) (list (list b)))" };
  S r = ev(E[choose(7, "where")]);
  CHECK(isboolv(r) && isT(r) == want, "equal? is the type's equality, identity by default");
  CHECK(isT(ev("(eq? a b)")) == ident && isT(ev("(eqv? a b)")) == ident && (ev("(memq a (list 1 b))"), isT(ev("(pair? (memq a (list 1 b)))")) == ident), "eq? and eqv? are identity");
  CHECK(isF(ev("(or (equal? a 1) (equal? 'a a) (equal? a (list a)) (equal? \"alpha\" a) (equal? a #f) (equal? '() a))")), "a smob equals nothing else");
  REACH("end");
}
H(table) {
  long t = scm_make_smob_type("alpha", 0); int64_t x = sym64("x"), v = sym64("v"), w = sym64("w");
  def("a", scm_make_smob_with_data(t, x)); def("b", scm_make_smob_with_data(t, x)); defn("v", v); defn("w", w);
  static const char *SET[] = { "hashq-set!", "hashv-set!", "hash-set!" }, *REF[] = { "hashq-ref", "hashv-ref", "hash-ref" };
  int k = choose(3, "kind"); bool first = choose(2, "order");
  ev("(define h (make-hash-table 5))");
  evf("(%s h %s v)", SET[k], first ? "a" : "b"); evf("(%s h %s w)", SET[k], first ? "b" : "a"); evf("(%s h 'z 0)", SET[k]);
  CHECK(isnumv(evf("(%s h a)", REF[k]), first ? v : w) && isnumv(evf("(%s h b)", REF[k]), first ? w : v), "smobs are keys by identity");
  REACH("end");
}
// ---- application
static int ap_calls, ap_n; static S ap_self, ap_arg[3];
static S ap0(S s) { ap_calls++; ap_n = 0; ap_self = s; return mksym("r0"); }
static S ap1(S s, S a) { ap_calls++; ap_n = 1; ap_self = s; ap_arg[0] = a; return mksym("r1"); }
static S ap2(S s, S a, S b) { ap_calls++; ap_n = 2; ap_self = s; ap_arg[0] = a; ap_arg[1] = b; return mksym("r2"); }
static S ap3(S s, S a, S b, S c) { ap_calls++; ap_n = 3; ap_self = s; ap_arg[0] = a; ap_arg[1] = b; ap_arg[2] = c; return mksym("r3"); }
H(apply_) {
  long t = scm_make_smob_type("alpha", 0), other = scm_make_smob_type("beta", 0);
  int m = choose(16, "functions"), n = choose(6, "given"), head = choose(6, "head"), kind_ = choose(3, "arguments");
  scm_set_smob_apply(t, m & 1 ? ap0 : nullptr, m & 2 ? ap1 : nullptr, m & 4 ? ap2 : nullptr, m & 8 ? ap3 : nullptr);
  S s = scm_make_smob_with_data(t, sym64("x")); def("s", s); def("o", scm_make_smob_with_data(other, 1));
  int64_t v[5]; S a[5]; char e[160] = ""; int k = 0;
  ev("(define log '())");
  for (int i = 0; i < n; i++) {
    v[i] = sym64("v"); S sy[2] = { mksym("car"), mksym("zz") };
    a[i] = kind_ == 0 ? mknum(v[i]) : kind_ == 1 ? mksym("zz") : list_of(sy, 2);
    char nm[8]; snprintf(nm, 8, "a%d", i); def(nm, a[i]);
    k += snprintf(e + k, sizeof e - k, " (begin (set! log (cons %d log)) a%d)", i, i);
  }
  S r = head == 0 ? evf("(s%s)", e) : head == 1 ? evf("(let ((f s)) (f%s))", e) : head == 2 ? evf("((car (list s))%s)", e) : head == 3 ? evf("((lambda (g) (g%s)) s)", e) : head == 4 ? evf("(begin (define (h) s) ((h)%s))", e) : evf("(let loop ((i 0)) (if (< i 1) (loop (+ i 1)) (s%s)))", e);
  if (n <= 3 && (m >> n & 1)) {
    char want[4] = { 'r', (char)('0' + n), 0 };
    CHECK(r && issymn(r, want) && ap_calls == 1 && ap_n == n && ap_self && ap_self->value == s->value, "the function for that many arguments is called with the smob");
    for (int i = 0; i < n; i++) CHECK(ap_arg[i] && ap_arg[i]->type == a[i]->type && ap_arg[i]->value == a[i]->value, "and the values of the arguments");
    S l = ev("(reverse log)"); CHECK(lenof(l) == n, "each evaluated once");
    for (int i = 0; i < n && i < lenof(l); i++) CHECK(isnumv(nth(l, i), i), "from left to right");
  } else { CHECK(!r && sx_err("error"), "no function for that many arguments: an error"); CHECK(ap_calls == 0, "and none is called"); }
  CHECK(!ev("(o)") && !ev("(o 1)") && !ev("((car (list o)) 1 2)") && ap_calls <= 1, "a type without apply functions is not applicable");
  REACH("end");
}
// ---- printing
static int pr_calls, pr_write; static S pr_obj;
static void pr(S s, S port, scm_print_state *p) { pr_calls++; pr_obj = s; pr_write = p ? p->writingp : -1; printf("<own>"); }
H(print) {
  static const int64_t X[] = { 0, 1, -1, 42, INT64_MAX, INT64_MIN, INT32_MIN, (int64_t)1 << 32 };
  static const char *SX[] = { "0", "1", "-1", "42", "9223372036854775807", "-9223372036854775808", "-2147483648", "4294967296" };
  static const char *N[] = { "alpha", "a b", "" };
  int ni = choose(3, "name"), x = choose(8, "data"), own = choose(2, "own_print"), w = choose(2, "write"), where = choose(4, "where");
  long t = scm_make_smob_type(N[ni], 0), u = scm_make_smob_type("other", 0);
  if (own) scm_set_smob_print(t, pr);
  (void)u;
  S s = scm_make_smob_with_data2(t, X[x], 7); def("s", s);
  char one[64], all[160];
  if (own) strcpy(one, "<own>"); else snprintf(one, sizeof one, "#<%s %s>", N[ni], SX[x]);
  static const char *F[] = { "%s", "(1 %s)", "#(%s x)", "(%s . 2)" };
  snprintf(all, sizeof all, F[where], one);
  static const char *E[] = { "s", "(list 1 s)", "(vector s 'x)", "(cons s 2)" };
  sx_capture_stdout(1);
  S r = evf("(%s %s)", w ? "write" : "display", E[where]);
  size_t n; const char *d = sx_stdout_data(&n);
  CHECK(r != nullptr, "it prints");
  CHECK(n == strlen(all) && memcmp(d, all, n) == 0, "a smob prints as its type says");
  if (own) CHECK(pr_calls == 1 && pr_obj && pr_obj->value == s->value, "its print function is given the object");
  if (own && where == 0) CHECK(pr_write == w, "and whether it is written or displayed");
  REACH("end");
}
H(print_port) {
  static const int64_t X[] = { 0, -1, INT64_MAX };
  static const char *SX[] = { "#<alpha 0>", "#<alpha -1>", "#<alpha 9223372036854775807>" };
  int x = choose(3, "data"); long t = scm_make_smob_type("alpha", 0); def("s", scm_make_smob_with_data(t, X[x]));
  sx_capture_stdout(1);
  S r = choose(2, "how") ? ev("(let ((p (open-output-string))) (display s p) (get-output-string p))") : ev("(call-with-output-string (lambda (p) (write s p)))");
  size_t n; sx_stdout_data(&n);
  CHECK(stris(r, SX[x]), "printing to a string port goes to the port"); CHECK(n == 0, "and nowhere else");
  REACH("end");
}
// ---- variables
H(variables) {
  int n = (int)sx_param("vops", 3); bool bound[2] = { true, false }; int64_t cur[2] = { sym64("init"), 0 };
  S var[2]; defn("tmp", cur[0]);
  var[0] = choose(2, "made_by") ? ev("(make-variable tmp)") : pscm_make_variable(mknum(cur[0]));
  var[1] = choose(2, "made_by2") ? ev("(make-undefined-variable)") : pscm_make_undefined_variable();
  def("x", var[0]); def("y", var[1]); def("l", list_of(var, 2));
  for (int i = 0; i < n; i++) {
    int k = choose(2, "variable"), op = choose(4, "operation"); int64_t v = sym64("v"); defn("tmp", v);
    static const char *NMS[] = { "x", "y" }, *L[] = { "(car l)", "(cadr l)" };
    if (op == 0) { CHECK(evf("(variable-set! %s tmp)", NMS[k]), "set"); cur[k] = v; bound[k] = true; }
    else if (op == 1) { S t = mknum(v); S vv = var[k]; guardl([&]() -> S { return scm_variable_set_x(vv, t); }); CHECK(!thrown, "set from C"); cur[k] = v; bound[k] = true; }
    else if (op == 2) { S r = evf("(variable-ref %s)", L[k]); if (bound[k]) CHECK(isnumv(r, cur[k]), "a variable holds what was last stored in it"); else CHECK(!r, "an unbound one holds nothing"); }
    else { S vv = var[k]; S r = guardl([&]() -> S { return pscm_variable_ref(vv); }); if (bound[k]) CHECK(!thrown && isnumv(r, cur[k]), "seen from C"); else CHECK(thrown, "an unbound one is an error in C"); }
  }
  CHECK(isT(ev("(variable-bound? x)")) == bound[0] && isT(ev("(variable-bound? (cadr l))")) == bound[1], "bound?");
  CHECK(isT(ev("(and (variable? x) (variable? y) (eq? x (car l)) (not (eq? x y)) (not (procedure? x)) (not (pair? x)))")), "variables are objects of their own");
  CHECK(!ev("(x)") && sx_err("error") && !ev("(y 1)"), "and not procedures");
  for (int k = 0; k < 2; k++) { S vv = var[k]; S r = guardl([&]() -> S { return pscm_variable_ref(vv); }); CHECK(bound[k] ? !thrown && isnumv(r, cur[k]) : thrown, "the last value stored"); }
  REACH("end");
}
// ---- misuse
H(misuse) {
  static const char *F[] = { "(scm-smob-data o)", "(scm-make-smob o 1)", "(scm-make-smob tag o)", "(scm-make-smob-type o 0)", "(scm-make-smob-type \"n\" o)", "(variable-ref o)", "(variable-set! o 1)", "(variable-bound? o)" };
  long t = scm_make_smob_type("alpha", 0); defn("tag", t); defn("i", sym64("i"));
  any_few = 2;
  S o = any("o"); def("o", o); int k = choose(8, "operation");
  S r = ev(F[k]);
  bool num = isnum(o), str = isstr(o);
  bool ok = k == 2 || k == 4 ? num : k == 3 ? str : false;
  if (k >= 5 && o->type == SCM::VARIABLE) { REACH("end"); return; }
  CHECK((r != nullptr) == ok, "an operation on a value of another type is an error");
  CHECK(isT(ev("(scm-smob? o)")) == (o->type == SCM::SMOB) && isT(ev("(variable? o)")) == (o->type == SCM::VARIABLE), "the predicates tell them apart");
  S x = scm_make_smob_with_data(t, 3);
  guardl([&]() -> S { scm_smob_data(o); return nullptr; }); CHECK(thrown == (o->type != SCM::SMOB), "C accessors check their argument");
  guardl([&]() -> S { scm_set_smob_data2(o, 1); return nullptr; }); CHECK(thrown == (o->type != SCM::SMOB), "setters, too");
  guardl([&]() -> S { scm_assert_smob_type(t, o); return nullptr; }); CHECK(thrown, "type assertion");
  guardl([&]() -> S { scm_assert_smob_type(t, x); return nullptr; }); CHECK(!thrown, "type assertion on the right type");
  REACH("end");
}
