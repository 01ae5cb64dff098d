// Modules: whose variable a name denotes in each module, after any history of definitions, exports, uses and assignments.
// @bound history: 3 modules, one name, from 5 starting situations, every history of 3 (thorough: 4) further operations among define, export, set!, use, define-public in any of the modules; values any 64-bit integer
// @bound shadow: every fourth (thorough: every) builtin procedure redefined in a module by any of 5 definition forms; observed from the module, from a user of it, from an unrelated module and from the root
// @bound files: 4 module files (one using another, two using one another, one failing after k definitions, one exporting before defining), three autoload clauses used in every order; loaded by use-modules, resolve-module, #:use-module, #:autoload or a C call, once or twice, from 3 current modules
// @bound scope: closures, nested lambdas, macros and eval of a module, called with any of 4 other modules current, each binding any subset of the same names
// @bound capi: C calls into a module by scm_c_call_with_current_module and scm_c_define_module returning, throwing or escaping
// @assume the names of special forms, including the procedures the evaluator treats as such (apply, map, for-each, call/cc, call-with-values, dynamic-wind), are reserved
// @assume variables imported into the root module do not override builtins of the same name (only definitions do)
// @quick_timeout 200
// @thorough_timeout 1800
#include "any.h"
static const char *NM[4] = { "(ma)", "(mb)", "(mc)", "(pscm-user)" };
static S mods[4];
static void mk3() {
  for (int i = 0; i < 3; i++) { evf("(define-module %s)", NM[i]); mods[i] = scm_current_module(); }
  mods[3] = g_root_module;
  scm_set_current_module(mods[3]);
}
static void in(int m) { scm_set_current_module(mods[m]); }

// ---- reference: modules own variables (cells), share exported ones with their interface
static int64_t cell[32]; static int ncell;
struct M { int own; bool exported, iface; int icell; int uses[16], nu; };
static M R[3];
static int seen_through(int u) { return R[u].iface ? R[u].icell : R[u].own; }
static int visible(int m) {
  if (R[m].own >= 0) return R[m].own;
  for (int i = R[m].nu - 1; i >= 0; i--) { int c = seen_through(R[m].uses[i]); if (c >= 0) return c; }
  return -1;
}
static void r_define(int m, int64_t v) {
  if (R[m].own >= 0) { cell[R[m].own] = v; return; }
  cell[ncell] = v; R[m].own = ncell++;
  if (R[m].exported) R[m].icell = R[m].own;
}
static void r_export(int m) {
  R[m].exported = R[m].iface = true;
  int c = visible(m);
  if (c >= 0) R[m].icell = c;
}
static void r_use(int m, int u) { R[m].uses[R[m].nu++] = u; }
enum { DEF, EXP, SET, USE, PUB };
static int nval;
static void op(int k, int m, int u) {
  in(m);
  char b[16]; snprintf(b, 16, "v%d", nval);
  switch (k) {
  case DEF: { int64_t v = sym64(b); nval++; S x[3] = { mksym("define"), mksym("x"), mknum(v) }; pscm_eval(list_of(x, 3)); r_define(m, v); break; }
  case PUB: { int64_t v = sym64(b); nval++; S x[3] = { mksym("define-public"), mksym("x"), mknum(v) }; pscm_eval(list_of(x, 3)); r_define(m, v); r_export(m); break; }
  case SET: {
    int c = visible(m);
    if (c < 0) return;
    int64_t v = sym64(b); nval++;
    S x[3] = { mksym("set!"), mksym("x"), mknum(v) }; pscm_eval(list_of(x, 3)); cell[c] = v; break;
  }
  case EXP: ev("(export x)"); r_export(m); break;
  case USE: evf("(use-modules %s)", NM[u]); r_use(m, u); break;
  }
}
static void observe() {
  for (int m = 0; m < 3; m++) {
    in(m);
    int c = visible(m);
    S sym = mksym("x"), a[3] = { mods[m], sym, mksym("none") };
    S direct = ev("x"), bound = apply("module-bound?", a, 2), ref = apply("module-ref", a, 3);
    if (c < 0) {
      CHECK(direct == nullptr, "a name is not visible without a definition or an import");
      CHECK(isF(bound), "module-bound? of a name that is not visible");
      CHECK(issymn(ref, "none"), "module-ref of a name that is not visible");
    } else {
      CHECK(isnumv(direct, cell[c]), "a name denotes the variable of its module, or that of the module used last");
      CHECK(isT(bound), "module-bound? of a visible name");
      CHECK(isnumv(ref, cell[c]), "module-ref of a visible name");
      CHECK(isnumv(ev("(+ x 0)"), (int64_t)cell[c]), "a name in an operand");
      CHECK(isnumv(ev("(getx)"), visible(0) >= 0 ? cell[visible(0)] : 0) || visible(0) < 0, "a procedure sees the variables of its own module");
    }
  }
  in(3);
  CHECK(ev("x") == nullptr, "the root module does not see the variables of other modules");
}
static void start(int s) {
  ncell = 0; nval = 0;
  for (int m = 0; m < 3; m++) { R[m].own = R[m].icell = -1; R[m].exported = R[m].iface = false; R[m].nu = 0; }
  mk3();
  in(0); ev("(define (getx) x)"); def("rootmark", mknum(1));
  S g = ev("getx"); in(3); ev("(define getx #f)");
  S a[3] = { mods[3], mksym("getx"), g };
  scm_module_define(a[0], a[1], a[2]);
  switch (s) {
  case 0: break;
  case 1: op(PUB, 0, 0); op(USE, 1, 0); break;
  case 2: op(EXP, 0, 0); op(USE, 1, 0); break;
  case 3: op(DEF, 0, 0); op(DEF, 2, 0); op(USE, 1, 0); op(USE, 1, 2); break;
  case 4: op(PUB, 0, 0); op(USE, 1, 0); op(EXP, 1, 0); op(USE, 2, 1); break;
  }
}
static void any_op() {
  int k = choose(15 + 3, "op");
  if (k < 3) op(DEF, k, 0);
  else if (k < 6) op(EXP, k - 3, 0);
  else if (k < 9) op(SET, k - 6, 0);
  else if (k < 15) op(USE, (k - 9) / 2, ((k - 9) / 2 + 1 + (k - 9) % 2) % 3);
  else op(PUB, k - 15, 0);
}
static void history(int s) {
  start(s);
  int n = sx_param("thorough", 0) ? 4 : 3;
  for (int i = 0; i < n; i++) any_op();
  observe();
  REACH("end");
}
H(history_0) { history(0); }
H(history_1) { history(1); }
H(history_2) { history(2); }
H(history_3) { history(3); }
H(history_4) { history(4); }

// ---- definitions in a module shadow builtins there, and only there
static const char *all_builtins[300]; static int nbuiltin;
static void builtins() {
  nbuiltin = 0;
  for (auto l = g_env.dummy.next; l; l = l->next) if (is_func(l->data->value) && nbuiltin < 300) all_builtins[nbuiltin++] = l->data->key;
}
H(shadow) {
  builtins();
  int n = nbuiltin;
  int part = sx_param("thorough", 0) ? 1 : 4;
  int b = choose((n + part - 1) / part, "builtin") * part;
  ASSUME(b < n);
  const char *f = all_builtins[b];
  static const char *const reserved[] = { "apply", "call/cc", "call-with-current-continuation", "call-with-values", "dynamic-wind", "for-each", "map", "map-in-order" };
  for (auto r : reserved) ASSUME(strcmp(f, r) != 0);
  S orig = scm_env_exist(&g_env, cast<SCM_Symbol>(mksym(f)));
  mk3();
  in(0);
  int form = choose(5, "form");
  switch (form) {
  case 0: evf("(define (%s . args) 'mine)", f); break;
  case 1: evf("(define %s (lambda args 'mine))", f); break;
  case 2: evf("(define-public (%s . args) 'mine)", f); break;
  case 3: evf("(define-macro (%s . args) ''mine)", f); break;
  default: evf("(define ((%s . args) . more) 'mine)", f); break;
  }
  S m = form == 4 ? evf("((%s 1) 2)", f) : evf("(%s 1 2)", f);
  CHECK(issymn(m, "mine"), "a definition in a module shadows the builtin there");
  if (form != 3) CHECK(evf("%s", f) != orig, "a definition in a module shadows the builtin there, as a value");
  in(2);
  CHECK(evf("%s", f) == orig, "a definition in one module does not change a builtin for the others");
  in(3);
  CHECK(evf("%s", f) == orig, "a definition in a module does not change a builtin for the root");
  if (form != 4) {
    in(1);
    ev("(use-modules (ma))");
    S r = evf("(%s 1 2)", f);
    CHECK(issymn(r, "mine"), "an import shadows the builtin in the using module");
  }
  REACH("end");
}

// ---- scope: code belongs to the module it is written in
H(scope) {
  mk3();
  int64_t v[4];
  in(0);
  int nosecret = choose(2, "plain");
  v[0] = sym64("v0"); def("secret", mknum(v[0]));
  ev("(define (helper n) (+ n 1))");
  ev("(define-public (get) secret)");
  ev("(define-public (put! y) (set! secret y))");
  ev("(define-public (maker) (lambda () (let ((k 1)) (cons secret (helper k)))))");
  ev("(define-public (deep) (map (lambda (i) (let loop ((j i)) (if (= j 0) secret (loop (- j 1))))) '(0 1)))");
  ev("(define-macro (mac a) `(list ,a ,secret ,(helper 5)))"); ev("(export mac)");
  ev("(define-public (use-mac y) (mac y))");
  ev("(define-public (late) (later))"); ev("(define (later) 'later)");
  ev("(define-public (prom) (delay secret))");
  // the other module, with its own variables of the same names or not
  int cur = 1 + choose(3, "current");
  in(cur);
  ev("(use-modules (ma))");
  int mask = choose(8, "own");
  if (mask & 1) { v[1] = sym64("v1"); def("secret", mknum(v[1])); }
  if (mask & 2) ev("(define (helper n) 'wrong)");
  if (mask & 4) ev("(define (later) 'wrong)");
  (void)nosecret;
  CHECK(isnumv(ev("(get)"), v[0]), "a procedure reads the variables of its module");
  S mk = ev("((maker))");
  CHECK(mk && is_pair(mk) && isnumv(car(mk), v[0]) && isnumv(cdr(mk), 2), "closures belong to the module of the code");
  S dp = ev("(deep)");
  CHECK(lenof(dp) == 2 && isnumv(nth(dp, 0), v[0]) && isnumv(nth(dp, 1), v[0]), "nested procedures belong to the module of the code");
  S um = ev("(use-mac 3)");
  CHECK(lenof(um) == 3 && isnumv(nth(um, 1), v[0]) && isnumv(nth(um, 2), 6), "a macro used in its module");
  S mm = ev("(mac 4)");
  CHECK(lenof(mm) == 3 && isnumv(nth(mm, 0), 4) && isnumv(nth(mm, 1), v[0]) && isnumv(nth(mm, 2), 6), "a transformer sees the variables of its module");
  CHECK(issymn(ev("(late)"), "later"), "a definition made after the procedure is seen");
  CHECK(isnumv(ev("(force (prom))"), v[0]), "a promise belongs to the module of the code");
  int64_t nv = sym64("nv"); S a[2] = { mksym("put!"), mknum(nv) }; pscm_eval(list_of(a, 2));
  CHECK(isnumv(ev("(get)"), nv), "set! changes the variable of the module of the code");
  if (mask & 1) CHECK(isnumv(ev("secret"), v[1]), "and not the one of the current module");
  else CHECK(ev("secret") == nullptr, "a variable that is not exported is not visible");
  REACH("end");
}
// root procedures see root variables, whatever module is current
H(root_scope) {
  mk3();
  in(3);
  int64_t r = sym64("r"), o = sym64("o");
  def("gv", mknum(r)); ev("(define (get) gv)"); ev("(define (put! y) (set! gv y))"); ev("(define-macro (gm) `(list gv ,gv))"); ev("(define (use-gm) (gm))");
  int cur = choose(3, "current");
  in(cur);
  bool own = choose(2, "own");
  if (own) { def("gv", mknum(o)); ev("(define-macro (gm) ''wrong)"); }
  CHECK(isnumv(ev("(get)"), r), "a procedure of the root module reads its variables");
  CHECK(isnumv(ev("gv"), own ? o : r), "the root module is searched after the module itself");
  S l = ev("(use-gm)");
  CHECK(lenof(l) == 2 && isnumv(nth(l, 0), r) && isnumv(nth(l, 1), r), "macros are looked up in the module of the code");
  int64_t n = sym64("n"); S a[2] = { mksym("put!"), mknum(n) }; pscm_eval(list_of(a, 2));
  CHECK(isnumv(ev("(get)"), n), "a procedure of the root module assigns its variables");
  CHECK(isnumv(ev("gv"), own ? o : n), "and no others");
  in(3);
  CHECK(isnumv(ev("gv"), n), "the variable of the root module");
  REACH("end");
}
// ---- define-module options, re-export, interfaces as values
H(options) {
  mk3();
  int64_t a = sym64("a"), b = sym64("b"), c = sym64("c");
  int how = choose(4, "export");
  switch (how) {
  case 0: ev("(define-module (ma) #:export (p q))"); break;
  case 1: ev("(define-module (ma) #:export p q)"); break;
  case 2: ev("(define-module (ma))"); ev("(export p)"); ev("(export q)"); break;
  default: ev("(define-module (ma))"); break;
  }
  in(0);
  def("p", mknum(a)); def("q", mknum(b)); def("r", mknum(c));
  if (how == 3) ev("(export p q)");
  switch (choose(4, "use")) {
  case 0: ev("(define-module (mb) #:use-module (ma))"); break;
  case 1: ev("(define-module (mb))"); ev("(use-modules (ma))"); break;
  case 2: in(1); ev("(module-use! (current-module) (resolve-module '(ma)))"); break;
  default: in(1); ev("(module-use! (current-module) (module-ref (resolve-module '(ma)) '%module-public-interface))"); break;
  }
  CHECK(scm_current_module() == mods[1], "define-module of an existing module makes it current");
  CHECK(isnumv(ev("p"), a) && isnumv(ev("q"), b), "exported variables are visible");
  CHECK(ev("r") == nullptr, "a variable that is not exported is not visible");
  // a name of one's own comes first; a module used later comes before one used earlier
  int64_t n = sym64("n");
  in(2); def("p", mknum(n)); ev("(export p)");
  in(1); ev("(use-modules (mc))");
  CHECK(isnumv(ev("p"), n), "the module used last comes first");
  CHECK(isnumv(ev("q"), b), "other names stay visible");
  ev("(re-export q)");
  int64_t own = sym64("own"); def("p", mknum(own));
  CHECK(isnumv(ev("p"), own), "the module's own variable comes first");
  in(3); ev("(use-modules (mb))");
  CHECK(isnumv(ev("q"), b), "a re-exported variable is visible");
  CHECK(ev("p") == nullptr, "imports are not passed on unless re-exported");
  in(0); int64_t nb = sym64("nb"); S st[3] = { mksym("set!"), mksym("q"), mknum(nb) }; pscm_eval(list_of(st, 3));
  in(3); CHECK(isnumv(ev("q"), nb), "a re-exported variable is the same variable");
  REACH("end");
}
// values of any type, notably #f, () and unspecified, are found
H(values) {
  mk3();
  S v = any("v");
  in(0); S a[3] = { mods[0], mksym("x"), v };
  scm_module_define(a[0], a[1], a[2]);
  int exp = choose(2, "export");
  if (exp) ev("(export x)");
  in(1); ev("(use-modules (ma))");
  S q[2] = { mods[1], mksym("x") };
  CHECK(isT(apply("module-bound?", q, 2)), "module-bound? whatever the value");
  S r = apply("module-ref", q, 2);
  CHECK(r && r->type == v->type && r->value == v->value, "module-ref gives the value");
  S d = ev("x");
  CHECK(d && d->type == v->type && d->value == v->value, "the variable has the value");
  S l = ev("(module-map (lambda (k v) (cons k (list v))) (resolve-module '(ma)))");
  CHECK(lenof(l) == 1 && issymn(car(nth(l, 0)), "x"), "module-map visits each variable once");
  S mv = car(cdr(nth(l, 0)));
  CHECK(mv && mv->type == v->type && mv->value == v->value, "module-map gives the value");
  REACH("end");
}
// ---- files
static void files() {
#define VF(n, t) sx_vfile(n, t, strlen(t))
  VF("fa.scm", "(define-module (fa) #:export (va fa-f va2)) (set! loads (+ loads 1)) (define va seed) (define hidden 3) (define (fa-f y) (cons hidden (+ y va))) (define va2 (current-module))");
  VF("fb.scm", "(define-module (fb) #:use-module (fa) #:export (vb)) (set! loads (+ loads 10)) (define vb (fa-f 1))");
  VF("fc.scm", "(define-module (fc) #:export (vc fc-f)) (define vc 1) (use-modules (fd)) (define (fc-f) (fd-f vc))");
  VF("fd.scm", "(define-module (fd)) (use-modules (fc)) (define-public (fd-f y) (list y vc))");
  VF("fe.scm", "(define-module (fe)) (define-public e1 1) (define-public e2 (car '())) (define-public e3 3)");
  VF("sub/ff.scm", "(define-module (sub ff)) (define-public vf 'sub)");
  VF("lp/fg.scm", "(define-module (fg)) (define-public vg 'lp)");
  VF("fg.scm", "(define-module (fg)) (define-public vg 'cwd)");
}
H(files) {
  files();
  mk3(); in(3);
  int64_t seed = sym64("seed"); def("seed", mknum(seed)); ev("(define loads 0)");
  int cur = choose(4, "current"); in(cur);
  switch (choose(5, "how")) {
  case 0: ev("(use-modules (fb))"); break;
  case 1: ev("(resolve-module '(fb))"); ev("(use-modules (fb))"); break;
  case 2: evf("(define-module %s #:use-module (fb))", NM[cur]); break;
  case 3: scm_c_use_module("(fb)"); break;
  default: evf("(define-module %s #:autoload (fb) (vb))", NM[cur]); break;
  }
  CHECK(scm_current_module() == mods[cur], "loading a module leaves the current module");
  S vb = ev("vb");
  CHECK(vb && is_pair(vb) && isnumv(car(vb), 3) && isnumv(cdr(vb), (int64_t)((uint64_t)seed + 1)), "code of a module file uses its own and imported variables");
  CHECK(scm_current_module() == mods[cur], "autoloading leaves the current module");
  CHECK(ev("hidden") == nullptr && ev("va") == nullptr, "variables of module files are not visible unless exported and used");
  ev("(use-modules (fa))");
  CHECK(isnumv(ev("loads"), 11), "a module file is loaded once");
  CHECK(isnumv(ev("va"), seed), "a variable exported before its definition");
  REACH("end");
}
H(autoloads) {
  files();
  mk3(); in(3);
  int64_t seed = sym64("seed"); def("seed", mknum(seed)); ev("(define loads 0)");
  int cur = choose(3, "current"), order = choose(6, "order");
  evf(choose(2, "sub first") ? "(define-module %s #:autoload (sub ff) (vf) #:autoload (fa) (va va2) #:autoload (fg) (vg none))" : "(define-module %s #:autoload (fg) (vg none) #:autoload (fa) (va va2) #:autoload (sub ff) (vf))", NM[cur]);
  CHECK(isnumv(ev("loads"), 0), "nothing is loaded before it is used");
  static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  for (int i = 0; i < 3; i++) switch (P[order][i]) {
    case 0: CHECK(isnumv(ev("va"), seed), "the first use of a name loads its module"); break;
    case 1: CHECK(issymn(ev("vf"), "sub"), "the first use of a name loads its module"); break;
    case 2: CHECK(issymn(ev("vg"), "cwd"), "the first use of a name loads its module"); break;
  }
  CHECK(is_module(ev("va2")), "other names of a loaded module");
  CHECK(isnumv(ev("loads"), 1), "a module is loaded once");
  CHECK(ev("none") == nullptr && ev("hidden") == nullptr, "a name the module does not export");
  CHECK(isnumv(ev("va"), seed) && issymn(ev("vg"), "cwd"), "and the others stay visible");
  CHECK(scm_current_module() == mods[cur], "autoloading leaves the current module");
  REACH("end");
}
H(files_other) {
  files();
  mk3(); in(3);
  int cur = choose(4, "current"); in(cur);
  switch (choose(4, "case")) {
  case 0: {
    ev("(use-modules (fc))"); S r = ev("(fc-f)");
    CHECK(lenof(r) == 2 && isnumv(nth(r, 0), 1) && isnumv(nth(r, 1), 1), "modules using one another");
    break;
  }
  case 1: {
    ev("(use-modules (fe))");
    CHECK(sx_err("error"), "an error in a module file reaches the user of the module");
    CHECK(scm_current_module() == mods[cur], "a module file that fails leaves the current module");
    CHECK(ev("e3") == nullptr, "the definitions after the error were not made");
    CHECK(isnumv(ev("(+ 1 2)"), 3), "evaluation goes on");
    break;
  }
  case 2: ev("(use-modules (sub ff))"); CHECK(issymn(ev("vf"), "sub"), "the parts of a module name are directories"); break;
  default: {
    int lp = choose(3, "path");
    if (lp == 1) ev("(set! %load-path '(\"lp\"))"); else if (lp == 2) ev("(set! %load-path '(\"nowhere\" 5 \"lp/\" \"other\"))");
    ev("(use-modules (fg))");
    CHECK(issymn(ev("vg"), lp ? "lp" : "cwd"), "the directories of %load-path come before the current one");
    break;
  }
  }
  REACH("end");
}
// ---- from C
static int64_t act; static S where;
static S body(void *d) {
  where = scm_current_module();
  pscm_eval_string("(define in-c 1)");
  switch (act) {
  case 0: return mknum(*(int64_t *)d);
  case 1: return scm_throw(mksym("mykey"), list_of(nullptr, 0));
  default: eval_error("failed"); return nullptr;
  }
}
static void initf(void *d) { body(d); }
static S guarded(void *d) {
  switch (*(int *)d) {
  case 0: return scm_c_call_with_current_module(mods[0], body, &act);
  default: return scm_c_define_module("(newmod)", initf, &act);
  }
}
static S handler(void *, S tag, S) { return tag; }
H(capi) {
  mk3();
  int cur = choose(4, "current"); in(cur);
  act = choose(3, "act");
  int which = choose(2, "which");
  S r = scm_c_catch(scm_bool_true(), guarded, &which, handler, nullptr);
  CHECK(scm_current_module() == mods[cur], "a C call into a module restores the current module, however it ends");
  CHECK(which ? where == scm_c_resolve_module("(newmod)") : where == mods[0], "the module is current during the call");
  if (act == 1) CHECK(issymn(r, "mykey"), "a throw passes through");
  if (act == 2) CHECK(issymn(r, "error"), "an error passes through");
  S m = which ? scm_c_resolve_module("(newmod)") : mods[0];
  CHECK(isnumv(scm_variable_ref(scm_c_module_lookup(m, "in-c")), 1), "definitions made by the call belong to the module");
  if (which || cur != 0) CHECK(ev("in-c") == nullptr, "and to no other");
  int64_t v = sym64("v"); scm_c_module_define(m, "cv", mknum(v));
  scm_set_current_module(m);
  CHECK(isnumv(ev("cv"), v), "a variable defined from C");
  CHECK(isnumv(scm_variable_ref(scm_c_lookup("cv")), v), "scm_c_lookup finds the variables of the current module");
  REACH("end");
}
H(binder) {
  mk3(); in(0);
  int64_t v = sym64("v"); def("bv", mknum(v));
  int k = choose(4, "kind");
  ev("(define calls 0)");
  evf("(set-module-binder! (current-module) (lambda (m s d) (set! calls (+ calls 1)) (if (eq? s 'dyn) (case %d ((0) (make-variable bv)) ((1) #f) ((2) (throw 'bk)) (else (car 5))) #f)))", k);
  for (int i = 0; i < 2; i++) {
    S r = ev("(catch #t (lambda () dyn) (lambda (k . a) k))");
    if (k == 0) CHECK(isnumv(r, v), "the binder provides the variable");
    else if (k == 2) CHECK(issymn(r, "bk"), "a throw of the binder passes through");
    else CHECK(issymn(r, "error"), "the binder does not provide the variable");
  }
  CHECK(isnumv(ev("calls"), 2), "the binder is asked each time, also after it has thrown");
  in(1);
  CHECK(ev("dyn") == nullptr, "the binder of another module is not asked");
  REACH("end");
}
