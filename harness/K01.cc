// call/cc: a continuation is the rest of the computation, however often and from wherever it is invoked.
// @bound contexts: 50 contexts around a call/cc (every special form and calls through apply, map, for-each, eval, force, call-with-values, catch, dynamic-wind), its continuation first returned through, then re-entered 0..2 (thorough 0..4) further times with arbitrary integers
// @bound escapes: 20 constructs escaped from after 0..3 steps, with any value; nested continuations; generators and coroutines exchanging continuations over lists and trees of 0..4 elements
// @assume one top-level form: invoking a continuation captured by an earlier top-level form is outside
// @quick_timeout 200
// @param_thorough reenter=5
#include "control.h"
#ifndef LOW
#define LOW -1000
#endif
// ---- re-entry: the context computes (F v); pre-effects happen once, post-effects once per entry
struct Cx { const char *t; int k; };   // H is the hole, P logs 1 (before), Q logs 2 (after)
static const Cx CX[] = {
  { "(let ((v (+ P (+ H 1)))) Q v)", 1 },
  { "(let ((v (+ 1 H))) Q v)", 1 },
  { "(let ((a P) (b H)) Q (+ a b 1))", 1 },
  { "(let* ((a P) (b (+ H a)) (c (+ b 1))) Q c)", 1 },
  { "(letrec ((a H) (f (lambda () (+ a 1)))) Q (f))", 1 },
  { "(let loop ((a H) (i 0)) (if (= i 1) (begin Q a) (loop (+ a 1) (+ i 1))))", 1 },
  { "(begin P (let ((v H)) Q (+ v 1)))", 1 },
  { "(begin P (if (= 7 H) (begin Q 8) (begin Q (+ 1 last))))", 1 },
  { "(begin P (cond ((= 5 6) 1) ((+ 1 H) => (lambda (v) Q v)) (else 3)))", 1 },
  { "(begin P (case (if (> H 0) 1 2) ((1) Q (+ 1 last)) (else Q (+ last 1))))", 1 },
  { "(begin P (let ((v (and 1 H))) Q (+ v 1)))", 1 },
  { "(begin P (let ((v (or #f H))) Q (+ v 1)))", 1 },
  { "(let ((a 1)) P (set! a (+ a H)) Q a)", 1 },
  { "((lambda () (define a P) (define b (+ H 1)) Q b))", 1 },
  { "(do ((i H (+ i 1)) (n 0 (+ n 1))) ((= n 1) Q i))", 1 },
  { "(do ((i 0 (+ 1 H)) (n 0 (+ n 1))) ((= n 1) Q i) P)", 1 },
  { "(begin P (let ((v (apply + (list 1 H)))) Q v))", 1 },
  { "(begin P (let ((v (apply + H '(1)))) Q v))", 1 },
  { "(begin P (let ((v (car (map (lambda (z) (+ z H)) '(1))))) Q v))", 1 },
  { "(begin P (let ((v (cadr (map (lambda (z) (if (= z 1) (+ z H) z)) '(0 1 5))))) Q v))", 1 },
  { "(let ((s 1)) P (for-each (lambda (z) (if (= z 1) (let ((h H)) (set! s (+ h 1))))) '(0 1 2)) Q s)", 1 },
  { "(begin P (let ((v (eval (list '+ 1 H)))) Q v))", 1 },
  { "(begin P (let ((v (call-with-values (lambda () (+ 1 H)) (lambda (q) q)))) Q v))", 1 },
  { "(begin P (let ((v (call-with-values (lambda () (values 1 H)) +))) Q v))", 1 },
  { "(begin P (let ((v (catch 'a (lambda () (+ 1 H)) (lambda l 0)))) Q v))", 1 },
  { "(begin P (let ((v (catch 'a (lambda () (throw 'a H)) (lambda (k v) (+ v 1))))) Q v))", 1 },
  { "(begin P (let ((v (catch 'a (lambda () (throw 'a 1)) (lambda (k v) (+ v H))))) Q v))", 1 },
  { "(let ((v (dynamic-wind (lambda () P2) (lambda () (+ 1 H)) (lambda () Q)))) v)", 2 },
  { "(begin P (let ((v (cadr `(1 ,(+ 1 H) 3)))) Q v))", 1 },
  { "(begin P (let ((v (vector-ref (vector 1 (+ 1 H) 3) 1))) Q v))", 1 },
  { "(begin P (let ((v ((lambda (a . r) (+ a (car r))) 1 H))) Q v))", 1 },
  { "(begin P (let ((v ((if (> H 0) + +) last 1))) Q v))", 1 },
  { "(letrec ((f (lambda (i) (if (= i 3) H (let ((r (f (+ i 1)))) (+ r (if (= i 0) 1 0))))))) P (let ((v (f 0))) Q v))", 1 },
  { "(let ((v (let ((x 1)) (+ x H)))) Q v)", 1 },
  { "(begin P (let ((v (string-length (make-string (+ 1 (remainder (abs H) 3)) #\\a)))) Q (+ (- v v) last 1)))", 1 },
  { "(begin P (let ((l (list 1 H))) Q (+ (car l) (cadr l))))", 1 },
  { "(begin P (let ((v (let ((c (cons 1 2))) (set-cdr! c H) (+ (car c) (cdr c))))) Q v))", 1 },
  { "(begin P (let ((v (force (delay (+ 1 H))))) Q (+ last 1)))", 1 },
  { "(begin P (let ((v (apply (lambda (a b) (+ a b)) 1 (list H)))) Q v))", 1 },
  { "(begin P (let ((v (call/cc (lambda (e) (e (+ 1 H)))))) Q v))", 1 },
  { "(begin P (let ((v (call/cc (lambda (e) (+ 1 H))))) Q v))", 1 },
  { "(begin P (let ((g (lambda () (let ((h H)) (lambda () (+ h 1)))))) (let ((c (g))) Q (c))))", 1 },
  { "(begin P (let ((v (if (not (eq? H #f)) (+ 1 last) 0))) Q v))", 1 },
  { "(let ((a (list 0))) P (set-car! a (+ 1 H)) Q (car a))", 1 },
  { "(let ((s 0)) P (for-each (lambda (z) (if (= z 1) (set! s H) (if (= z 2) (set! s (+ s 1))))) '(0 1 2)) Q s)", 1 },
  { "(let ((s 0)) P (for-each (lambda (z y) (if (= z 0) (set! s H) (set! s (+ s y)))) '(0 3 4) '(7 2 -1)) Q s)", 1 },
  { "(begin P (let ((v (apply + (map (lambda (z) (if (= z 0) H z)) '(0 4 -3))))) Q v))", 1 },
  { "(begin P (let ((v (apply + (map (lambda (z y) (if (= z 1) H y)) '(0 1 2) '(-2 0 3))))) Q v))", 1 },
  { "(begin P (let ((v (apply + (append (list 1 H) (list 2 -2))))) Q v))", 1 },
  { "(let ((s 0)) P (do ((i 0 (+ i 1))) ((= i 3)) (if (= i 1) (set! s H) (if (= i 2) (set! s (+ s 1))))) Q s)", 1 },
};
static const int NCX = sizeof CX / sizeof *CX;
static void fill(const char *t) {
  tl = 0;
  put("(let ((r ");
  for (; *t; t++) {
    if (*t == 'H') put("(let ((h (call/cc (lambda (c) (set! k0 c) x0)))) (set! last h) h)");
    else if (*t == 'P' && t[1] == '2') { put("(begin (set! tr (cons 1 tr)) 0)"); t++; }
    else if (*t == 'P') put("(begin (set! tr (cons 1 tr)) 0)");
    else if (*t == 'Q') put("(set! tr (cons 2 tr))");
    else { txt[tl++] = *t; txt[tl] = 0; }
  }
  put(")) (set! tr (cons r tr)) (set! n (+ n 1)) (if (< n m) (k0 (if (= n 1) x1 (if (= n 2) x2 (if (= n 3) x3 x4))))) 'done)");
}
static void reenter(int from, int to) {
  int c = from + choose(to - from, "context");
  int64_t m = symrange("entries", 1, sx_param("reenter", 3)), x[5];
  for (int i = 0; i < 5; i++) { char b[8]; snprintf(b, 8, "x%d", i); x[i] = symrange(b, LOW, 1000); defn(b, x[i]); }
  ev("(define tr '())"); ev("(define k0 #f)"); ev("(define n 0)"); ev("(define last 0)"); defn("m", m);
  fill(CX[c].t);
  bool pre = strchr(CX[c].t, 'P') != nullptr;
  S r = EVP(txt);
  CHECK(issymn(r, "done"), "the form ends once");
  S t = ev("(reverse tr)");
  int len = lenof(t), p = 0;
  for (int i = 0; i < m; i++) {
    if ((i == 0 && pre) || (CX[c].k == 2)) { CHECK(p < len && isnumv(nth(t, p), 1), "what precedes the capture happens once"); p++; }
    CHECK(p < len && isnumv(nth(t, p), 2), "what follows happens for every entry"); p++;
    CHECK(p < len && isnumv(nth(t, p), x[i] + 1), "value for every entry"); p++;
  }
  CHECK(p == len, "nothing else happens");
  REACH("end");
}
H(re_1) { reenter(0, 9); }
H(re_2) { reenter(9, 18); }
H(re_3) { reenter(18, 27); }
H(re_4) { reenter(27, 36); }
H(re_5) { reenter(36, NCX); }
// ---- escapes
H(escape) {
  static const char *C[] = {
    "(map (lambda (i) (if (= i n) (k x) i)) '(0 1 2 3))",
    "(for-each (lambda (i) (if (= i n) (k x))) '(0 1 2 3))",
    "(do ((i 0 (+ i 1))) ((= i n) (k x)) #t)",
    "(let ((i n)) (+ 1 (k x)))",
    "(apply (lambda (i . r) (k x)) (list n 2 3))",
    "(list 1 2 (k x) 4)",
    "(force (delay (k x)))",
    "(call-with-values (lambda () (k x)) list)",
    "(call-with-values (lambda () (values n 1)) (lambda (i j) (k x)))",
    "(letrec ((f (lambda (i) (if (= i 9) (k x) (+ 1 (f (+ i 1))))))) (f 0))",
    "(case (k x) ((1) 2) (else 3))",
    "(and 1 (or #f (k x)) 2)",
    "(begin (set! z (k x)) 1)",
    "((k x) 1)",
    "(call/cc (lambda (k2) (k x)))",
    "(k (call/cc (lambda (k2) (+ 1000 (k2 x)))))",
    "(eval (list k x))",
    "(let loop ((i 0)) (if (= i n) (k x) (loop (+ i 1))))",
    "(apply k (list x))",
    "(apply k x '())",
    "(map k (list x 1 2))",
    "(for-each k (list x 1 2))",
    "(call-with-values (lambda () x) k)",
    "(catch 'a (lambda () (k x)) (lambda l 0))",
    "(catch 'a (lambda () (throw 'a x)) (lambda (key v) (k v)))",
    "(let ((k3 k)) (set! k #f) (k3 x))",
  };
  int c = choose((int)(sizeof C / sizeof *C), "construct");
  int64_t n = symrange("n", 0, 3), x = symrange("x", -100000, 100000), y = symrange("y", -100000, 100000);
  defn("n", n); defn("x", x); defn("y", y); ev("(define z 77)");
  S r = evf("(+ y (call-with-current-continuation (lambda (k) %s 5)))", C[c]);
  CHECK(isnumv(r, y + x), "the value given to the continuation is the value of the call/cc form");
  CHECK(isnumv(ev("z"), 77), "the escaped computation does not go on");
  CHECK(isnumv(ev("(+ y (call/cc (lambda (k) x)))"), x + y), "a receiver that returns");
  prelude(); check_clean();
  REACH("end");
}
H(nested) {
  int64_t a = symrange("a", 0, 3), x = symrange("x", -1000, 1000); defn("a", a); defn("x", x);
  S r = ev("(+ 1 (call/cc (lambda (k1) (+ 10 (call/cc (lambda (k2) (+ 100 (call/cc (lambda (k3) (+ 1000 ((cond ((= a 0) k1) ((= a 1) k2) ((= a 2) k3) (else +)) x)))))))))))");
  CHECK(isnumv(r, x + (a == 0 ? 1 : a == 1 ? 11 : a == 2 ? 111 : 1111)), "each continuation returns to its own call/cc");
  REACH("end");
}
H(multiple_values) {
  int n = choose(4, "count"); char l[64] = "";
  int64_t a[4];
  for (int i = 0; i < n; i++) { a[i] = symrange("a", -1000, 1000); char b[8]; snprintf(b, 8, "a%d", i); defn(b, a[i]); strcat(l, " "); strcat(l, b); }
  S r = choose(2, "how") ? evf("(call-with-values (lambda () (call/cc (lambda (k) (apply k (list%s))))) list)", l) : evf("(call-with-values (lambda () (call/cc (lambda (k) (k%s)))) list)", l);
  CHECK(lenof(r) == n, "every value passed to a continuation arrives");
  for (int i = 0; i < n && i < lenof(r); i++) CHECK(isnumv(nth(r, i), a[i]), "in order");
  REACH("end");
}
// ---- data-driven early exit: the first element that satisfies the test
H(first_match) {
  int n = choose(5, "length"); int64_t v[4], lim = symrange("lim", -10, 10); S e[4];
  for (int i = 0; i < n; i++) { v[i] = symrange("v", -20, 20); e[i] = mknum(v[i]); }
  def("l", list_of(e, n)); defn("lim", lim);
  ev("(define seen 0)");
  S r = ev("(call/cc (lambda (return) (for-each (lambda (v) (set! seen (+ seen 1)) (if (> v lim) (return v))) l) 'none))");
  int i = 0; while (i < n && !(v[i] > lim)) i++;
  if (i == n) { CHECK(issymn(r, "none"), "no match"); CHECK(isnumv(ev("seen"), n), "all seen"); }
  else { CHECK(isnumv(r, v[i]), "first match"); CHECK(isnumv(ev("seen"), i + 1), "stops there"); }
  REACH("end");
}
// ---- generators: two loops that pass control by re-entering each other
H(generator) {
  int n = choose(5, "length"), m = choose(6, "pulls"); S e[4]; int64_t v[4];
  for (int i = 0; i < n; i++) { v[i] = symrange("v", -1000, 1000); e[i] = mknum(v[i]); }
  def("l", list_of(e, n)); defn("m", m);
  ev("(define (make-gen l) (define return #f) (define resume #f)"
     " (lambda () (call/cc (lambda (r) (set! return r)"
     "  (if resume (resume 'go)"
     "   (begin (for-each (lambda (v) (call/cc (lambda (next) (set! resume next) (return v)))) l)"
     "          (set! resume (lambda (z) (return 'end))) (return 'end)))))))");
  S r = ev("(let ((g (make-gen l))) (let loop ((i 0) (acc '())) (if (= i m) (reverse acc) (loop (+ i 1) (cons (g) acc)))))");
  CHECK(lenof(r) == m, "one value per pull");
  for (int i = 0; i < m && i < lenof(r); i++) if (i < n) CHECK(isnumv(nth(r, i), v[i]), "elements in order"); else CHECK(issymn(nth(r, i), "end"), "then the end");
  REACH("end");
}
H(same_fringe) {
  static const char *T[] = { "(a (b c))", "((a b) c)", "((a (b)) (c))", "(a (c b))", "((a) b)", "()", "(a b c (d))" };
  static const char *F[] = { "abc", "abc", "abc", "acb", "ab", "", "abcd" };
  int i = choose(7, "left"), j = choose(7, "right");
  ev("(define (gen t) (define return #f) (define (walk t) (cond ((null? t) 0) ((pair? t) (walk (car t)) (walk (cdr t))) (else (call/cc (lambda (next) (set! resume (lambda () (next 0))) (return t))))))"
     " (define resume (lambda () (walk t) (return '*))) (lambda () (call/cc (lambda (r) (set! return r) (resume)))))");
  ev("(define (same a b) (let ((x (gen a)) (y (gen b))) (let loop () (let* ((p (x)) (q (y))) (if (eq? p q) (if (eq? p '*) #t (loop)) #f)))))");
  S r = evf("(same '%s '%s)", T[i], T[j]);
  CHECK(strcmp(F[i], F[j]) == 0 ? isT(r) : isF(r), "coroutines walk both trees in step");
  REACH("end");
}
// ---- backtracking: amb finds the first solution in order
H(amb) {
  int64_t s = symrange("s", 0, 8); defn("s", s);
  ev("(define fail #f)");
  ev("(define (amb l) (let ((old fail)) (call/cc (lambda (k) (for-each (lambda (v) (call/cc (lambda (next) (set! fail (lambda () (next 0))) (k v)))) l) (set! fail old) (fail)))))");
  S r = ev("(call/cc (lambda (top) (set! fail (lambda () (top 'none))) (let* ((a (amb '(0 1 2))) (b (amb '(0 2 5)))) (if (= (+ a b) s) (+ (* 10 a) b) (fail)))))");
  static const int A[] = { 0, 1, 2 }, B[] = { 0, 2, 5 };
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (A[i] + B[j] == s) { CHECK(isnumv(r, 10 * A[i] + B[j]), "the first choice that works"); REACH("end"); return; }
  CHECK(issymn(r, "none"), "no choice works");
  REACH("end");
}
// ---- tree of continuations against the machine, without dynamic-wind
static const int CS[] = { CC0, CC1, SEQ, CATA, IFX, -1 };
static void tree_(int force) { g_cons = CS; control_program((int)sx_param("depth", 2), force); }
H(t_cc0) { tree_(CC0); }
H(t_cc1) { tree_(CC1); }
H(t_seq) { tree_(SEQ); }
