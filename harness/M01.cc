// Macros and quasiquotation.
// @bound templates: every quasiquote template of depth 2 (thorough: 3) out of integers, symbols, (), unquote, unquote-splicing, pairs (proper and improper), vectors and nested quasiquote; each evaluated twice with any integers and spliced lists of 0..2 elements
// @bound splice: spliced values of 18 symbolic types, before 3 kinds of rest
// @bound operands: 0..3 required macro parameters with or without a rest parameter, 0..4 operands, each any integer, a symbol, (), a call, a string or #f, in 4 ways of defining the macro
// @bound expansions: 12 macros in 12 calling contexts, with integers within +-10^6; macro-defining macros, recursive macros to depth 4, generated names
// @quick_timeout 200
// @thorough_timeout 2000
#include "any.h"
// ---- quasiquote templates
struct Q { int k; Q *a, *b; int64_t i; S leaf; };
enum { LEAFQ, NILB, UNQ, PAIRQ, VECQ, QQ, SPL };
static Q g_q[128]; static int g_nq;
static Q *mkq(int k, Q *a = nullptr, Q *b = nullptr) { Q *q = &g_q[g_nq++]; q->k = k; q->a = a; q->b = b; return q; }
enum { EX = 0, EL = 1, EC = 2 };
static Q *expr() { Q *q = mkq(100); q->i = choose(2, "expression"); return q; }
static Q *tmpl(const char *nm, int depth, int lv) {
  char t[40]; snprintf(t, 40, "%s_k", nm);
  int k = choose(depth > 0 ? 6 : 2, t);
  Q *q;
  snprintf(t, 40, "%sA", nm);
  switch (k) {
  case 0: { S a[2] = { mksym("s"), scm_nil() }; q = mkq(LEAFQ); q->leaf = any_of(nm, a, 2); return q; }  // an integer, a symbol or ()
  case 1: return lv == 1 ? mkq(UNQ, expr()) : mkq(UNQ, tmpl(t, depth > 0 ? depth - 1 : 0, lv - 1));
  case 2: { Q *a = tmpl(t, depth - 1, lv); snprintf(t, 40, "%sD", nm); return mkq(PAIRQ, a, tmpl(t, depth - 1, lv)); }
  case 3: { Q *s = mkq(SPL, lv == 1 ? nullptr : tmpl(t, depth - 1, lv - 1)); snprintf(t, 40, "%sD", nm); return mkq(PAIRQ, s, tmpl(t, depth - 1, lv)); }
  case 4: { snprintf(t, 40, "%s_n", nm); int n = choose(3, t); Q *l = mkq(NILB);
    for (int i = 0; i < n; i++) { snprintf(t, 40, "%sV%d", nm, i); int sp = lv == 1 ? choose(2, "spliced") : 0; Q *e = sp ? mkq(SPL) : tmpl(t, depth - 1, lv); l = mkq(PAIRQ, e, l); }
    return mkq(VECQ, l); }
  default: return mkq(QQ, tmpl(t, depth - 1, lv + 1));
  }
}
static S two(const char *s, S v) { S l[2] = { mksym(s), v }; return list_of(l, 2); }
static S data(Q *q) {
  switch (q->k) {
  case 100: return q->i == EX ? mksym("x") : q->i == EL ? mksym("l") : scm_cons(mksym("cons"), scm_cons(mksym("x"), scm_cons(mksym("l"), scm_nil())));
  case LEAFQ: return q->leaf;
  case NILB: return scm_nil();
  case UNQ: return two("unquote", data(q->a));
  case SPL: return two("unquote-splicing", q->a ? data(q->a) : mksym("l"));
  case PAIRQ: { S a = data(q->a); return scm_cons(a, data(q->b)); }
  case QQ: return two("quasiquote", data(q->a));
  default: { def("tmp-l", data(q->a)); return ev("(list->vector tmp-l)"); }
  }
}
static int64_t vx, vl[2]; static int nl;
static S tail_of(S s) { return is_pair(s) ? cdr(s) : nullptr; }
static bool is_l(S s) {
  for (int i = 0; i < nl; i++) { if (!is_pair(s) || !isnumv(car(s), vl[i])) return false; s = cdr(s); }
  return isnil(s);
}
static bool qm(Q *q, int lv, S s) {
  if (!s) return false;
  switch (q->k) {
  case 100: return q->i == EX ? isnumv(s, vx) : q->i == EL ? is_l(s) : is_pair(s) && isnumv(car(s), vx) && is_l(cdr(s));
  case LEAFQ: return (s->type == q->leaf->type) & ((s->value == q->leaf->value) | (s->type != SCM::NUM));
  case NILB: return isnil(s);
  case UNQ: if (lv == 1) return qm(q->a, lv, s); return lenof(s) == 2 && issymn(nth(s, 0), "unquote") && qm(q->a, lv - 1, nth(s, 1));
  case QQ: return lenof(s) == 2 && issymn(nth(s, 0), "quasiquote") && qm(q->a, lv + 1, nth(s, 1));
  case PAIRQ:
    if (q->a->k == SPL) {
      if (lv == 1) {
        for (int i = 0; i < nl; i++) { if (!is_pair(s) || !isnumv(car(s), vl[i])) return false; s = cdr(s); }
        return qm(q->b, lv, s);
      }
      S c = is_pair(s) ? car(s) : nullptr;
      return c && lenof(c) == 2 && issymn(nth(c, 0), "unquote-splicing") && qm(q->a->a, lv - 1, nth(c, 1)) && qm(q->b, lv, cdr(s));
    }
    return is_pair(s) && qm(q->a, lv, car(s)) && qm(q->b, lv, cdr(s));
  default:
    if (!is_vector(s)) return false;
    def("tmp-v", s);
    return qm(q->a, lv, ev("(vector->list tmp-v)"));
  }
}
static void templates(int kind) {
  g_nq = 0;
  int depth = sx_param("thorough", 0) ? 3 : 2;
  Q *q;
  // the outermost constructor is fixed by the harness
  switch (kind) {
  case 0: q = mkq(PAIRQ, tmpl("A", depth - 1, 1), tmpl("D", 1, 1)); break;
  case 1: q = mkq(PAIRQ, mkq(SPL), tmpl("D", depth, 1)); break;
  case 2: q = mkq(QQ, tmpl("A", depth, 2)); break;
  case 3: { Q *e = choose(2, "spliced") ? mkq(SPL) : tmpl("A", depth - 1, 1); Q *f = choose(2, "spliced") ? mkq(SPL) : tmpl("B", 1, 1); q = mkq(VECQ, mkq(PAIRQ, e, mkq(PAIRQ, f, mkq(NILB)))); break; }
  default: q = tmpl("A", 1, 1); break;
  }
  def("tm", two("quasiquote", data(q)));
  ev("(define-macro (wrap) tm)");
  if (!ev("(define qf (lambda (x l) (wrap)))")) sx_kill("define");
  S r[2]; int64_t kx[2], kl[2][2]; int kn[2];
  for (int c = 0; c < 2; c++) {
    kx[c] = sym64(c ? "x1" : "x0"); kn[c] = c ? 2 - kn[0] : choose(3, "list");
    kl[c][0] = sym64(c ? "l10" : "l00"); kl[c][1] = sym64(c ? "l11" : "l01");
    defn("gx", kx[c]);
    S l[2] = { mknum(kl[c][0]), mknum(kl[c][1]) };
    def("gl", list_of(l, kn[c]));
    r[c] = ev("(qf gx gl)");
    CHECK(r[c] != nullptr, "a template evaluates");
  }
  for (int c = 0; c < 2; c++) {
    vx = kx[c]; nl = kn[c]; vl[0] = kl[c][0]; vl[1] = kl[c][1];
    CHECK(qm(q, 1, r[c]), "the template with its holes filled");
  }
  REACH("end");
}
H(quasi_pair) { templates(0); }
H(quasi_splice) { templates(1); }
H(quasi_nested) { templates(2); }
H(quasi_vector) { templates(3); }
H(quasi_other) { templates(4); }
H(splice) {
  def("v", any("v"));
  S v = ev("v");
  int k = choose(4, "rest");
  static const char *T[] = { "`(,@v 5)", "`(0 ,@v . 5)", "`(,@v ,@(list 5))", "`#(,@v 5)" };
  S r = ev(T[k]);
  S l = k == 3 && r ? apply("vector->list", &r, 1) : r;
  if (isnil(v)) { if (k == 1) CHECK(is_pair(l) && isnumv(car(l), 0) && isnumv(cdr(l), 5), "nothing spliced"); else CHECK(lenof(l) == 1 && isnumv(nth(l, 0), 5), "nothing spliced"); }
  else if (v->type == SCM::LIST && lenof(v) == 2) {
    if (k == 1) CHECK(is_pair(l) && is_pair(cdr(l)) && is_pair(cdr(cdr(l))) && isnumv(cdr(cdr(cdr(l))), 5), "spliced before a dotted tail");
    else CHECK(lenof(l) == 3 && isnumv(nth(l, 0), 1) && issymn(nth(l, 1), "q") && isnumv(nth(l, 2), 5), "spliced");
  } else CHECK(r == nullptr, "splicing what is not a list is an error");
  REACH("end");
}
// ---- macro calls
static int cat(char *t, int l, const char *f, int i) { return l + snprintf(t + l, 600 - l, f, i); }
static S operand(const char *nm) {
  S l[2] = { mksym("car"), mknum(1) };
  S a[5] = { mksym("ga"), scm_nil(), list_of(l, 2), mkstr("st", 2), mkbool(false) };
  return any_of(nm, a, 5);
}
static bool as_written(S want, S got) {
  if (!got) return false;
  if (!(want->type == got->type)) return false;
  if (got->type == SCM::LIST) return lenof(got) == 2 && issymn(nth(got, 0), "car") && isnumv(nth(got, 1), 1);
  if (got->type == SCM::SYM) return issymn(got, "ga");
  if (got->type == SCM::STR) return stris(got, "st", 2);
  return want->value == got->value;
}
// the operands reach the macro as they are written, and the parameters get them in order
static void operands(int p, bool rest) {
  int n = choose(5, "operands"), via = choose(4, "definition");
  char t[600], ps[100], body[100]; int l = 0;
  for (int i = 0; i < p; i++) l += snprintf(ps + l, 100 - l, "p%d ", i);
  ps[l] = 0;
  if (rest) snprintf(ps + l, 100 - l, ". r");
  l = snprintf(body, 100, "(list 'quote (list ");
  for (int i = 0; i < p; i++) l += snprintf(body + l, 100 - l, "p%d ", i);
  snprintf(body + l, 100 - l, rest ? "r))" : "))");
  const char *lam = p == 0 && rest ? "r" : nullptr;
  char lp[120];
  if (lam) strcpy(lp, lam); else snprintf(lp, 120, "(%s)", ps);
  switch (via) {
  case 0: snprintf(t, 600, "(define-macro (m %s) %s)", ps, body); break;
  case 1: snprintf(t, 600, "(define-macro m (lambda %s %s))", lp, body); break;
  case 2: snprintf(t, 600, "(define-macro m (let ((k 1)) (lambda %s (set! k (+ k 1)) %s)))", lp, body); break;
  default: snprintf(t, 600, "(define (in a) (define-macro (m %s) %s) (m . ops))", ps, body); break;
  }
  for (int i = 0; i < p; i++) evf("(define p%d 'outer)", i);
  ev("(define r 'outer)");
  S sv[4];
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "o%d", i); sv[i] = operand(nm); }
  S call = scm_cons(mksym("m"), list_of(sv, n));
  S v;
  if (via == 3) {
    // the call stands inside the procedure that defines the macro
    def("call-form", call);
    char *q = strstr(t, "(m . ops)"); strcpy(q, "(splice-call))");
    ev("(define-macro (splice-call) call-form)");
    if (!ev(t)) sx_kill(t);
    v = ev("(in 1)");
  } else {
    if (!ev(t)) sx_kill(t);
    v = pscm_eval(call);
  }
  if (n < p || (!rest && n > p)) { CHECK(v == nullptr, "a wrong number of operands is an error"); REACH("end"); return; }
  CHECK(v != nullptr && lenof(v) == p + rest, "expanded");
  for (int i = 0; i < p; i++) CHECK(as_written(sv[i], nth(v, i)), "operands are passed unevaluated");
  if (rest) {
    S x = nth(v, p);
    CHECK(lenof(x) == n - p, "the rest parameter gets the remaining operands");
    for (int i = p; i < n; i++) CHECK(as_written(sv[i], nth(x, i - p)), "operands are passed unevaluated, in order");
  }
  if (via == 3) CHECK(ev("(m)") == nullptr, "a local macro is not visible outside");
  REACH("end");
}
H(operands_0) { operands(0, choose(2, "rest")); }
H(operands_1) { operands(1, choose(2, "rest")); }
H(operands_2) { operands(2, choose(2, "rest")); }
H(operands_3) { operands(3, choose(2, "rest")); }
static int64_t rg(const char *n) { int64_t v = symrange(n, -1000000, 1000000); return v; }
// the expansion is evaluated once, where the call stands
H(expand) {
  int64_t a = rg("a"), b = rg("b"), g = rg("g");
  defn("ga", a); defn("gb", b); defn("x", g); defn("y", g);
  ev("(define n 0)"); ev("(define (tick v) (set! n (+ n 1)) v)");
  static const char *M[] = {
    "(define-macro (m u v) `(- ,u ,v))",                              // operands each evaluated once
    "(define-macro (m u v) `(begin (set! ,u (- ,u ,v)) ,u))",        // assigns the caller's variable
    "(define-macro (m u v) `(let ((x 5)) (- ,u ,v)))",               // not hygienic: a binding of x in the expansion captures
    "(define-macro (m u v) `((lambda (k) (- k ,v)) ,u))",
    "(define-macro (m u v) (let ((x 77) (y 78)) `(- ,u ,v)))",       // bindings of the transformer are not those of the call
    "(define-macro (m u v) `(m2 ,v ,u))",
    "(define-macro (m u v) `(cond ((< ,u 0) (- ,u ,v)) (else (- ,u ,v))))",
    "(define-macro (m u v) (if (equal? u v) 0 `(- ,u ,v)))",         // compares the text
  };
  ev("(define-macro (m2 u v) (list '- v u))");
  int k = choose(8, "macro"), c = choose(9, "context");
  ev(M[k]);
  static const char *C[] = {
    "((lambda (x y) (m x y)) ga gb)",
    "(let ((x ga) (y gb)) (m x y))",
    "(let loop ((i 0) (x ga) (y gb)) (if (< i 1) (loop (+ i 1) x y) (m x y)))",
    "(do ((x ga x) (y gb y) (i 0 (+ i 1)) (r 0 (if (= i 1) (m x y) r))) ((= i 2) r))",
    "(let ((x ga)) (let ((y gb)) (car (list (m x y)))))",
    "(letrec ((f (lambda (x) (lambda (y) (m x y))))) ((f ga) gb))",
    "(begin (define (f x y) (define z (m x y)) z) (f ga gb))",
    "(let* ((x ga) (y gb)) (cond ((m x y) => (lambda (v) v)) (else 'no)))",
    "(let ((x ga) (y gb)) (apply (lambda (v) v) (list (m x y))))",
  };
  S v = ev(C[c]);
  int64_t x = k == 2 ? 5 : a;
  CHECK(isnumv(v, x - b), "the expansion has the value its text has at the call");
  CHECK(isnumv(ev("x"), g) && isnumv(ev("y"), g), "global variables of the same names are untouched");
  // operands are evaluated where the expansion puts them
  ev("(set! n 0)");
  if (k != 1 && k != 6) {
    S w = ev("(m (tick ga) (tick gb))");
    CHECK(isnumv(w, a - b), "operands with effects");
    CHECK(isnumv(ev("n"), 2), "each operand is evaluated where the expansion uses it");
  }
  REACH("end");
}
// the value of an expansion is not evaluated again
H(once) {
  int64_t a = rg("a");
  defn("ga", a);
  ev("(define d (list 'car (list 'quote (list ga 2))))"); ev("(define s 'd)");
  ev("(define-macro (same e) e)");
  S v = ev("(same d)");
  CHECK(lenof(v) == 2 && issymn(nth(v, 0), "car"), "a list value stays");
  CHECK(issymn(ev("(same s)"), "d"), "a symbol value stays");
  CHECK(issymn(ev("(same 's)"), "s"), "a quoted operand");
  CHECK(isnumv(ev("(same (same (same ga)))"), a), "nested calls");
  v = ev("(same (quote (same ga)))");
  CHECK(lenof(v) == 2 && issymn(nth(v, 0), "same"), "quoted text is not expanded");
  v = ev("`(same ,(same ga))");
  CHECK(lenof(v) == 2 && issymn(nth(v, 0), "same") && isnumv(nth(v, 1), a), "a template is not expanded, its holes are");
  ev("(define-macro (txt . f) (list 'quote f))");
  v = ev("(txt d (same ga) . s)");
  CHECK(is_pair(v) && issymn(car(v), "d") && lenof(nth(v, 1)) == 2, "operands unexpanded");
  REACH("end");
}
// every evaluation of a call expands it anew, from unchanged text
H(anew) {
  int64_t a = rg("a");
  int n = choose(4, "calls");
  defn("ga", a); defn("gn", n + 1);
  ev("(define count 0)"); ev("(define off 0)");
  ev("(define-macro (next e) (set! count (+ count 1)) `(+ ,e ,count))");
  ev("(define (f v) (next v))");
  ev("(define out '())");
  ev("(do ((i 0 (+ i 1))) ((= i gn)) (set! out (cons (f ga) out)))");
  S o = ev("(reverse out)");
  CHECK(lenof(o) == n + 1, "calls");
  int64_t first = numv(nth(o, 0)) - a;
  CHECK(first == 1, "first expansion");
  CHECK(isnumv(ev("count"), n + 1) || isnumv(ev("count"), 1), "expanded once per call or once");
  // private state of a transformer
  ev("(define-macro ctr (let ((k 10)) (lambda (e) (set! k (+ k 1)) (list '+ e k))))");
  CHECK(isnumv(ev("(ctr ga)"), a + 11) && isnumv(ev("(ctr ga)"), a + 12), "a transformer is a closure");
  CHECK(ev("k") == nullptr, "its variables stay its own");
  // redefinition
  ev("(define-macro (next e) `(* ,e 2))");
  CHECK(isnumv(ev("(f ga)"), a * 2), "a redefined macro is used by later calls");
  ev("(define (next e) (- e 1))");
  CHECK(isnumv(ev("(next ga)"), a - 1), "a procedure may take over the name");
  REACH("end");
}
// a transformer may change its list of remaining operands without changing the program
H(own_operands) {
  int64_t a = rg("a"), b = rg("b"); defn("ga", a); defn("gb", b);
  static const char *M[] = { "(define-macro (m . r) (set-car! r (list '+ (car r) 1)) (cons '- r))", "(define-macro (m . r) (set-cdr! r (list (list '+ (cadr r) -1))) (cons '- r))",
    "(define-macro (m u . r) (set-car! r (list '+ (car r) -1)) (cons '- (cons u r)))", "(define-macro m (lambda r (set-cdr! (cdr r) (list -1)) (set-car! r (car r)) (cons '- r)))" };
  int k = choose(4, "macro"), c = choose(3, "calls");
  ev(M[k]);
  ev("(define (f) (m ga gb))");
  for (int i = 0; i <= c; i++) CHECK(isnumv(ev("(f)"), a - b + 1), "every call expands the text as it was written");
  ev("(define text (list 'm 'ga 'gb))"); ev("(eval text)");
  S t = ev("text");
  CHECK(lenof(t) == 3 && issymn(nth(t, 0), "m") && issymn(nth(t, 1), "ga") && issymn(nth(t, 2), "gb"), "the evaluated text is unchanged");
  REACH("end");
}
// names: locals shadow macros, transformers see their definition, expansions see the call
H(scope) {
  int64_t a = rg("a"), b = rg("b");
  defn("ga", a); defn("gb", b);
  ev("(define-macro (m e) `(+ ,e 1000))");
  CHECK(isnumv(ev("(let ((m (lambda (e) (- e 1)))) (m ga))"), a - 1), "a local procedure shadows a macro");
  CHECK(isnumv(ev("((lambda (m) (m ga)) (lambda (e) (- e 2)))"), a - 2), "a parameter shadows a macro");
  CHECK(isnumv(ev("(let () (define (m e) (- e 3)) (m ga))"), a - 3), "an internal definition shadows a macro");
  CHECK(isnumv(ev("(m ga)"), a + 1000), "outside it is the macro again");
  ev("(define (helper e) (list '+ e 1))");
  ev("(define-macro (h e) (helper e))");
  CHECK(isnumv(ev("(let ((helper (lambda (e) 'wrong))) (h ga))"), a + 1), "the transformer sees its own definition environment");
  ev("(define (run e) (* e 2))");
  ev("(define-macro (r e) `(run ,e))");
  CHECK(isnumv(ev("(let ((run (lambda (e) (* e 3)))) (r ga))"), a * 3), "the expansion sees the environment of the call");
  CHECK(isnumv(ev("(r ga)"), a * 2), "and the global one elsewhere");
  CHECK(isnumv(ev("(let ((z ga)) (define-macro (loc e) `(- ,e z)) (let ((z gb)) (loc 0)))"), -b), "a local macro");
  CHECK(isnumv(ev("(let ((z ga)) (define-macro (loc e) (- z e)) (let ((z gb)) (loc 1)))"), a - 1), "a local macro's transformer sees the scope around its definition");
  ev("(define (g) (define-macro (inner e) `(* ,e 5)) (inner ga))");
  CHECK(isnumv(ev("(g)"), a * 5) && isnumv(ev("(g)"), a * 5), "a macro of a procedure body");
  CHECK(ev("(inner 1)") == nullptr, "is local");
  REACH("end");
}
// macros that define: definitions, macros, recursion
H(defining) {
  int64_t a = rg("a"), b = rg("b");
  defn("ga", a); defn("gb", b);
  ev("(define-macro (def n v) `(define ,n ,v))");
  ev("(def new ga)");
  CHECK(isnumv(ev("new"), a), "a macro may define a global variable");
  CHECK(isnumv(ev("((lambda () (def new gb) new))"), b), "or a local one");
  CHECK(isnumv(ev("new"), a), "which leaves the global one alone");
  ev("(define-macro (defm n op) `(define-macro (,n u) (list ',op u ,10)))");
  ev("(defm sub -)");
  CHECK(isnumv(ev("(sub ga)"), a - 10), "a macro may define a macro");
  ev("(define-macro (my-or . es) (if (null? es) #f `(let ((t ,(car es))) (if t t (my-or ,@(cdr es))))))");
  int n = choose(5, "operands"), w = n ? choose(n, "true") : 0;
  char t[200]; int l = snprintf(t, 200, "(my-or");
  for (int i = 0; i < n; i++) l += snprintf(t + l, 200 - l, i == w ? " ga" : i < w ? " #f" : " (car 1)");
  snprintf(t + l, 200 - l, ")");
  S v = ev(t);
  CHECK(n ? isnumv(v, a) : isF(v), "a recursive macro");
  ev("(define-macro (while c . body) `(let lp () (if ,c (begin ,@body (lp)) 'done)))");
  int64_t k = choose(4, "rounds"); defn("gk", k);
  ev("(define i 0)"); ev("(define s 0)");
  CHECK(issymn(ev("(while (< i gk) (set! s (+ s ga)) (set! i (+ i 1)))"), "done") && isnumv(ev("i"), k) && isnumv(ev("s"), a * k), "a looping macro");
  ev("(define-macro (swap! u v) (let ((t (gensym))) `(let ((,t ,u)) (set! ,u ,v) (set! ,v ,t))))");
  v = ev("(let ((t ga) (u gb)) (swap! t u) (list t u))");
  CHECK(isnumv(nth(v, 0), b) && isnumv(nth(v, 1), a), "generated names capture nothing");
  v = ev("(let ((u ga) (v gb)) (swap! u v) (swap! v u) (list u v))");
  CHECK(isnumv(nth(v, 0), a) && isnumv(nth(v, 1), b), "twice");
  REACH("end");
}
H(expansion_functions) {
  int64_t a = rg("a");
  defn("ga", a);
  ev("(define-macro (m e) `(n ,e 1))"); ev("(define-macro (n e f) `(- ,e ,f))");
  S v = ev("(macroexpand-1 '(m ga))");
  CHECK(lenof(v) == 3 && issymn(nth(v, 0), "n") && issymn(nth(v, 1), "ga"), "one step");
  v = ev("(macroexpand '(m ga))");
  CHECK(lenof(v) == 3 && issymn(nth(v, 0), "-") && issymn(nth(v, 1), "ga") && isnumv(nth(v, 2), 1), "to the end");
  def("form", any("form"));
  S f = ev("form");
  v = ev("(macroexpand form)");
  CHECK(v != nullptr && v->type == f->type && (v->value == f->value), "what is not a macro call stays");
  CHECK(isnumv(ev("(m ga)"), a - 1), "the call");
  REACH("end");
}
