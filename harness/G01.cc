// Garbage collection is invisible: no object in use is reclaimed or changed, whenever a collection happens, and what is not in use is reclaimed.
// @bound schedules: a collection before the program and one at every 4th allocation of it, from the first, second, third or fourth (thorough: before any one allocation, and again up to 30 allocations later)
// @bound programs: 61 programs over every data type, special form and allocating builtin; 50 call/cc contexts re-entered up to twice (schedules: every 16th allocation, from 4 starts); every control program (catch, throw, dynamic-wind, call/cc, sequencing, conditional) of depth 1 (every 22nd, from 2 starts); reading a text of every kind of datum; modules loaded from files; values any integers of 1..1000
// @bound kept: 28 sets of objects of every kind made before one or two collections and used after or during them; modules with exports, re-exports, uses and autoloads
// @bound host: objects held by C local variables, registered roots, smobs, variable objects and module variables, C procedures called back from Scheme, by a host that has not named its stack base
// @bound words: a stack word holding any address within 40 bytes of the start and end of the heap, of live objects and of the last block, or the address of an object of 12 kinds reclaimed before
// @bound heap growth: every sequence of three objects of 1, 3, 4 and 9 MB, each kept or dropped, with collections between
// @bound allocator: every choice of 2 + 2 (thorough: 3 + 2) blocks of 5 sizes, of which some are dropped between collections
// @assume what is reclaimed is overwritten at once (the harness wipes every block as it is swept)
// @assume memory is not exhausted; collections are triggered by allocations or (gc)
// @quick_timeout 500
// @thorough_timeout 2400
// @max_instr 400000000
// @param_thorough single=1
static struct SCM *gc_ev(const char *);
#define EVP gc_ev
#define LOW 1
#include "K01.cc"
#include "smob.h"
extern "C" void *__real__Z8gc_alloc7TypeTagm(TypeTag, size_t);
static long g_at, g_again, g_every, g_n, g_done; static bool g_armed;
static int g_swept[GC_TYPE_COUNT]; static SweepFn g_orig[GC_TYPE_COUNT];
static void *g_addr[4096]; static int g_naddr;
template <int T> static void wipe(GCBlock *b) {
  if (g_orig[T]) g_orig[T](b);
  g_swept[T]++;
  if (g_naddr < 4096) g_addr[g_naddr++] = b;
  if (T != GC_VECTOR && T != GC_HASH) memset(block_to_obj(b), 0, b->size);
}
template <int T> static void hook() { g_orig[T] = sweep_fns[T]; sweep_fns[T] = wipe<T>; if constexpr (T > 0) hook<T - 1>(); }
void sx_boot() { gc_set_stack_top(nullptr); pscm_init(); }
void sx_setup() { hook<GC_TYPE_COUNT - 1>(); }
static void collect() { bool a = g_armed; g_armed = false; run_gc(); g_armed = a; g_done++; }
extern "C" void *__wrap__Z8gc_alloc7TypeTagm(TypeTag t, size_t s) {
  if (g_armed) {
    g_n++;
    if (g_every ? g_n % g_every == g_at : (g_n == g_at || g_n == g_at + g_again)) collect();
  }
  return __real__Z8gc_alloc7TypeTagm(t, s);
}
static void schedule(long n, int every, int step = 1) {
  g_n = 0; g_done = 0; g_again = 0; g_every = every;
  if (sx_param("single", 0)) { g_every = 0; g_at = symrange("at", 1, n); g_again = choose(4, "again") * 10; }
  else g_at = choose(every / step, "at") * step;
}
static int g_period = 16, g_step = 4;
static S gc_ev(const char *t) {
  schedule(400, g_period, g_step);
  run_gc();
  g_armed = true;
  S r = ev(t);
  g_armed = false;
  return r;
}
// ---- stored continuations and control state
H(cx_1) { reenter(0, 9); }
H(cx_2) { reenter(9, 18); }
H(cx_3) { reenter(18, 27); }
H(cx_4) { reenter(27, 36); }
H(cx_5) { reenter(36, NCX); }
static const int GS[] = { CATA, CATT, WIND, CC0, SEQ, -1 };
static void ctl(int force) { g_period = 22; g_step = 11; g_cons = GS; control_program(1, force); }
H(c_cata) { ctl(CATA); }
H(c_wind) { ctl(WIND); }
H(c_cc0) { ctl(CC0); }
H(c_seq) { ctl(SEQ); }
// ---- a value written down outside the heap
static int64_t tokA[1500], tokB[1500];
static int snap(S v, int64_t *o, int n, int d = 0) {
  if (n > 1400 || d > 12) return n;
  if (!v) { o[n++] = -1; return n; }
  o[n++] = 100 + (int)v->type;
  switch (v->type) {
  case SCM::NUM: case SCM::FLOAT: case SCM::CHAR: case SCM::BOOL: o[n++] = (int64_t)v->value; break;
  case SCM::STR: case SCM::SYM: { int k = v->type == SCM::STR ? strl(v) : ((SCM_Symbol *)v->value)->len; const char *p = v->type == SCM::STR ? strd(v) : ((SCM_Symbol *)v->value)->data;
    o[n++] = k; for (int i = 0; i < k && n < 1400; i++) o[n++] = p[i]; break; }
  case SCM::RATIO: o[n++] = ((SCM_Rational *)v->value)->numerator; o[n++] = ((SCM_Rational *)v->value)->denominator; break;
  case SCM::LIST: for (SCM_List *l = (SCM_List *)v->value; l; l = l->next) { if (l->is_dotted) o[n++] = -2; n = snap(l->data, o, n, d + 1); } o[n++] = -3; break;
  case SCM::VECTOR: { SCM_Vector *w = (SCM_Vector *)v->value; o[n++] = w->length; for (size_t i = 0; i < w->length; i++) n = snap(w->elements[i], o, n, d + 1); break; }
  default: break;
  }
  return n;
}
static void same(S v, int na, const char *what) {
  int nb = snap(v, tokB, 0);
  CHECK(na == nb, what);
  for (int i = 0; i < na && i < nb; i++) CHECK(tokA[i] == tokB[i], what);
}
__attribute__((noinline)) static void burn() { volatile char z[2048]; for (int i = 0; i < 2048; i++) z[i] = 0; for (int i = 0; i < 12; i++) ev("(list 9 9 (vector 8 8) \"zzz\" (lambda () 7))"); }
// ---- programs
static const char *PROGS[] = {
  // lists
  "(let ((l (list a b \"s\"))) (append l (reverse l) (map (lambda (x) (list x a)) l)))",
  "(let loop ((i 0) (l '())) (if (= i 4) l (loop (+ i 1) (cons (list i a) l))))",
  "(let ((l (list a b))) (set-cdr! (cdr l) (list (list a) 3)) (set-car! l (vector b)) (list l (list-head l 2) (list-tail l 1) (last-pair l)))",
  "(let ((al (acons 'k (list a) '()))) (set! al (assoc-set! al \"z\" (list b))) (set! al (assq-set! al 'k (vector a))) (list al (assoc-ref al \"z\") (assoc-remove! al \"z\")))",
  "(apply list a (list b (list a b)))",
  "(letrec ((f (lambda (n) (if (= n 0) '() (append (f (- n 1)) (list (list n a))))))) (f 3))",
  "(let ((l (list a a a))) (for-each (lambda (x y) (set-car! l (list x y (car l)))) '(1 2) (list a b)) l)",
  "(map + (list a b) (list 1 2))",
  "(map (lambda (x . r) (cons (list x) r)) (list a b) (list b a) '(c d))",
  // numbers, characters, strings, symbols
  "(list (+ a 1/2) (* 3/4 a) (/ 7 2) (/ 2.5 2) (- 1/3 a) (max 1 2.5) (expt 3 4) (gcd 12 18) (sqrt 16))",
  "(list (number->string 12345) (number->string 255 16) (string->number \"123\") (string->number \"1/2\") (string->number \"zz\"))",
  "(let ((s (make-string 3 #\\x))) (string-set! s 1 #\\y) (list s (string-append s \"abc\" s) (substring s 1 3) (string->list s) (list->string (list #\\a #\\b)) (string #\\q #\\r)))",
  "(list (string->symbol \"foo\") (symbol->string 'bar) (string->symbol (string-append \"a\" \"b\")) (eq? 'ab (string->symbol \"ab\")))",
  "(let ((s (gensym))) (list (symbol? s) (eq? s s) a))",
  "(list (char-upcase #\\a) (integer->char 65) (char->integer #\\b))",
  // vectors and tables
  "(let ((v (make-vector 3 (list a)))) (vector-set! v 1 (list b (vector a b))) (list v (vector->list v) (list->vector (list a v)) (vector 1 (list 2) 'c)))",
  "(let ((h (make-hash-table 3))) (hash-set! h 'a (list a)) (hash-set! h \"k\" (vector b)) (hash-set! h 5 'x) (hash-remove! h 5) (set-cdr! (hash-get-handle h 'a) (list b b)) (hash-create-handle! h 'n (list a)) (list (hash-ref h 'a) (hash-ref h \"k\") (hash-ref h 'n) (hash-ref h 5) (hash-fold (lambda (k v n) (+ n 1)) 0 h)))",
  "(let ((h (make-hash-table 2)) (k (list 1 2))) (hashq-set! h 'a (list a)) (hashv-set! h 7 (list b)) (hash-set! h k (list a b)) (list (hashq-ref h 'a) (hashv-ref h 7) (hash-ref h (list 1 2))))",
  // procedures
  "(let* ((mk (lambda (n) (lambda () (set! n (+ n 1)) (list n a)))) (f (mk a)) (g (mk b))) (f) (g) (list (f) (g)))",
  "(begin (define (gf x . r) (define y (list x)) (define (in z) (cons z y)) (in r)) (gf a b (list 1)))",
  "(let f ((x (list a)) (n 3)) (if (= n 0) x (f (list x n) (- n 1))))",
  "((lambda (a b . c) (list a b c)) (list 1) (list a) (list 2) (list b))",
  "(do ((i 0 (+ i 1)) (l '() (cons (lambda () (list i a)) l))) ((= i 3) (map (lambda (f) (f)) l)))",
  "(let* ((x (list a)) (y (list x b)) (z (list y x))) (list z y x))",
  "(letrec ((ev? (lambda (n) (if (= n 0) (list 'even a) (od? (- n 1))))) (od? (lambda (n) (if (= n 0) (list 'odd b) (ev? (- n 1)))))) (list (ev? 4) (od? 4)))",
  "(list (cond ((assv 'b (list (list 'a 1) (list 'b a))) => cadr) (else 2)) (case (* 2 3) ((2 3) 1) ((6) (list a))) (and 1 (list a)) (or #f (list b)))",
  "(begin (define gv (list a)) (set! gv (cons b gv)) (define gv2 gv) (set! gv 1) gv2)",
  "(call-with-values (lambda () (values (list a) (list b))) (lambda (x y) (list y x)))",
  "(eval (list 'let (list (list 'x (list '+ a 1))) (list 'list 'x 'x)))",
  "(eval '(begin (define ge (list 1 2)) (map (lambda (x) (+ x 1)) ge)))",
  "(list (force (delay (list a))) (let ((p (delay (list a b)))) (force p) (force p)) (let ((p (delay (force (delay (vector a)))))) (force p)))",
  "(letrec ((s (lambda (n) (cons n (delay (s (+ n 1))))))) (let ((x (s a))) (list (car x) (car (force (cdr x))) (car (force (cdr (force (cdr x))))))))",
  // macros and quasiquote
  "(begin (define-macro (gm x . r) `(list ,x ',x ,@r (quote ,r))) (list (gm a b) (gm (+ a 1) (list b) 3)))",
  "(begin (define-macro (gw t . body) `(let loop ((i 0)) (if ,t (begin ,@body (loop (+ i 1))) (list i acc)))) (let ((acc '())) (gw (< i 3) (set! acc (cons (list i a) acc)))))",
  "(let ((k (list a b))) `(1 ,a (,@k . x) #(,a ,@k) ,@k ,(list a)))",
  "`(1 `(2 ,(3 ,a)) . ,(list b))",
  "(begin (define-macro (gdef n v) `(define ,n (list ,v ,v))) (gdef gx1 a) gx1)",
  "(macroexpand-1 '(gm x y))",
  // throws
  "(catch 'k (lambda () (list 1 (throw 'k (list a) (vector b)))) (lambda (key . r) (list key r)))",
  "(catch #t (lambda () (car (list))) (lambda (key . r) (list key (list a))))",
  "(catch 'k (lambda () (catch 'j (lambda () (throw 'k (list a))) (lambda l (list 'no l)))) (lambda l (list 'yes l)))",
  "(let ((t '())) (catch 'k (lambda () (dynamic-wind (lambda () (set! t (cons 'in t))) (lambda () (throw 'k (list a))) (lambda () (set! t (cons (list 'out b) t))))) (lambda l (set! t (cons l t)))) t)",
  "(catch #t (lambda () (undefined-thing a)) (lambda (k . r) (list k 'caught)))",
  "(catch #t (lambda () (apply car (list a b))) (lambda (k . r) (list k 'caught)))",
  // continuations
  "(list (call/cc (lambda (k) (list 1 (k (list a))))) (call/cc (lambda (k) (list b))))",
  "(let ((k #f) (n 0) (l '())) (let ((v (call/cc (lambda (c) (set! k c) (list a))))) (set! l (cons v l)) (set! n (+ n 1)) (if (< n 3) (k (list n b)) l)))",
  "(let ((k #f) (n 0)) (let ((r (list (list a) (call/cc (lambda (c) (set! k c) (list b))) (list 3)))) (set! n (+ n 1)) (if (< n 3) (k (list n)) r)))",
  "(let ((k #f) (n 0)) (let ((r (map (lambda (x) (call/cc (lambda (c) (if (= x 2) (set! k c)) (list x a)))) '(1 2 3)))) (set! n (+ n 1)) (if (< n 3) (k (list n)) r)))",
  "(let ((t '()) (k #f) (n 0)) (dynamic-wind (lambda () (set! t (cons (list 'in n) t))) (lambda () (call/cc (lambda (c) (set! k c))) (set! n (+ n 1))) (lambda () (set! t (cons 'out t)))) (if (< n 3) (k 1) t))",
  "(begin (define (gen l) (define ret #f) (define res #f) (lambda () (call/cc (lambda (r) (set! ret r) (if res (res 'go) (begin (for-each (lambda (v) (call/cc (lambda (n) (set! res n) (ret (list v a))))) l) (ret 'end))))))) (let ((g (gen (list a b)))) (list (g) (g) (g))))",
  // ports
  "(let ((p (open-input-string \"(1 (2 a) \\\"s\\\" #(1 2)) foo 12\"))) (let* ((x (read p)) (y (read p)) (c (read-char p)) (d (peek-char p))) (list x y c d (read p) (eof-object? (read p)))))",
  "(let ((p (open-output-string))) (write '(1 \"a\" #\\b) p) (display \"xyz\" p) (write-char #\\! p) (newline p) (get-output-string p))",
  "(call-with-output-string (lambda (p) (write (list 1 (vector 2 'x)) p)))",
  "(call-with-input-string \"(x y) z\" (lambda (p) (let ((q (read p))) (list q (read p)))))",
  "(let* ((acc '()) (p (make-soft-port (vector (lambda (c) (set! acc (cons (list c) acc))) (lambda (s) (set! acc (cons (list s a) acc))) (lambda () #t) (lambda () #\\z) (lambda () #t)) \"rw\"))) (write-char #\\q p) (display \"ab\" p) (list acc (read-char p)))",
  "(let ((o (current-output-port)) (p (open-output-string))) (set-current-output-port p) (display \"hi\") (set-current-output-port o) (list (get-output-string p) (list a)))",
  // the rest
  "(list (procedure? car) (module? (current-module)) (let ((v (make-variable (list a)))) (variable-set! v (list b (variable-ref v))) (variable-ref v)))",
  "(list (eval '(let ((x (list 1 2))) (cons 3 x))) (list a))",
  "(let ((v (make-vector 2 0))) (vector-set! v 0 v) (vector-set! v 1 (list a)) (vector-ref (vector-ref v 0) 1))",
  "(let ((l (list 1 2 a))) (gc) (let ((m (list b))) (gc) (list l m)))",
  "(let ((x (list a))) (define (g) (gc) (list x)) (list (g) (begin (gc) (list b)) (g)))",
};
enum { NPROG = sizeof PROGS / sizeof *PROGS };
__attribute__((noinline)) static void program1(int part) {
  enum { PER = 10 };
  int hi = NPROG - part * PER; if (hi > PER) hi = PER;
  int c = part * PER + choose(hi, "program");
  int64_t a = symrange("a", 1, 1000), b = symrange("b", 1, 1000); defn("a", a); defn("b", b);
  g_n = 0; g_every = 0; g_at = g_again = -1; g_armed = true;
  S r = ev(PROGS[c]);
  g_armed = false;
  CHECK(r != nullptr, "the program has a value");
  int na = snap(r, tokA, 0); r = nullptr;
  schedule(g_n, 4);
  run_gc();
  g_armed = true;
  r = ev(PROGS[c]);
  g_armed = false;
  same(r, na, "a collection changes no result");
  run_gc();
  same(r, na, "the result survives a collection");
  r = ev(PROGS[c]);
  same(r, na, "the program runs as before afterwards");
  CHECK(isnumv(ev("a"), a) & isnumv(ev("b"), b), "variables keep their values");
  REACH("end");
}
static void program(int part) {
  volatile long marker = 0; if (part & 1) gc_set_stack_top((void *)&marker);   // as the pscm command does
  program1(part);
  marker = 1;
}
H(prog_0) { program(0); }
H(prog_1) { program(1); }
H(prog_2) { program(2); }
H(prog_3) { program(3); }
H(prog_4) { program(4); }
H(prog_5) { program(5); }
H(prog_6) { program(6); }
static_assert(NPROG > 60 && NPROG <= 70, "prog_N");
// ---- the reader
H(reader) {
  static const char *T[] = {
    "(a \"str\" #\\x 12 1.5 3/4 #t () (b . c) #(1 (2) \"v\") 'q `(u ,v ,@w))",
    "(define (f x) ; comment\n (let ((y '(1 2))) (string-append \"a\\n\" \"b\")))",
    "((((deep) er) #(#(1) (2 . 3))) . tail)",
  };
  int c = choose(3, "text");
  int na = snap(pscm_parse(T[c]), tokA, 0);
  schedule(200, 3);
  run_gc();
  g_armed = true;
  S v = pscm_parse(T[c]);
  g_armed = false;
  same(v, na, "what is read survives collections while reading");
  run_gc();
  same(v, na, "what is read survives a collection");
  sx_vfile("g.scm", "(define gf1 (list 1 \"two\" 'three))\n(define (gf2 x) (vector x gf1))\n(define gf3 (gf2 7))\n", strlen("(define gf1 (list 1 \"two\" 'three))\n(define (gf2 x) (vector x gf1))\n(define gf3 (gf2 7))\n"));
  g_n = 0; g_armed = true;
  if (c == 0) ev("(load \"g.scm\")"); else if (c == 1) ev("(primitive-load \"g.scm\")"); else pscm_eval_file("g.scm");
  g_armed = false;
  run_gc();
  S r = ev("(equal? gf3 (vector 7 (list 1 \"two\" 'three)))");
  CHECK(isT(r), "a file is loaded as without collections");
  REACH("end");
}
// ---- modules
H(modules) {
  static const char *F = "(define-module (gm one) #:export (f v bump))\n(define v (list 1 2))\n(define hidden (list 'h v))\n(define (f x) (list x v hidden))\n(define (bump!) (set! v (cons 0 v)))\n(define bump bump!)\n";
  sx_vfile("gm/one.scm", F, strlen(F));
  int64_t a = symrange("a", 1, 1000); defn("a", a);
  schedule(400, 6);
  run_gc();
  g_armed = true;
  ev("(use-modules (gm one))");
  S r1 = ev("(f a)");
  ev("(bump)");
  S r2 = ev("(f (list a))");
  g_armed = false;
  run_gc();
  CHECK(lenof(r1) == 3 && isnumv(nth(r1, 0), a) && lenof(nth(r1, 1)) == 2 && isnumv(nth(nth(r1, 1), 1), 2) && issymn(nth(nth(r1, 2), 0), "h"), "a module procedure before");
  CHECK(lenof(r2) == 3 && isnumv(nth(nth(r2, 0), 0), a) && lenof(nth(r2, 1)) == 3 && lenof(nth(nth(r2, 2), 1)) == 2, "and after");
  CHECK(isT(ev("(module? (resolve-module '(gm one)))")) && lenof(ev("v")) == 3, "the module and its variables stay");
  REACH("end");
}
// ---- objects of every kind made before a collection and used after it
static const char *const KEEP[][2] = {
  { "(define acc '()) (define p (make-soft-port (vector (lambda (c) (set! acc (cons (list a c) acc))) (lambda (s) (set! acc (cons (list s b) acc))) (lambda () #t) #f #f) \"w\"))", "(begin (display \"hi\" p) (write-char #\\c p) (let ((r acc)) (set! acc '()) r))" },
  { "(define src (list #\\a #\\b)) (define p (make-soft-port (vector #f #f #f (lambda () (if (null? src) #f (let ((c (car src))) (set! src (cdr src)) c))) (lambda () #t)) \"r\"))", "(let* ((x (read-char p)) (y (read-char p))) (list x y))" },
  { "(define p (open-input-string \"(1 2 (3 . 4)) foo\"))", "(let* ((x (read p)) (y (read p))) (list x y))" },
  { "(define p (open-output-string)) (write (list a b) p)", "(begin (write 'more p) (get-output-string p))" },
  { "(define s (delay (list a (vector b))))", "(list (force s) (force s))" },
  { "(define s (delay (list a (vector b)))) (force s)", "(list (force s) (force s))" },
  { "(define v (make-vector 3 (list a))) (vector-set! v 2 (vector b (list a)))", "(begin (vector-set! v 0 (cons (vector-ref v 0) (vector-ref v 2))) (let ((r (vector->list v))) (vector-set! v 0 1) r))" },
  { "(define h (make-hash-table 2)) (for-each (lambda (i) (hash-set! h i (list i a)) (if (< i 5) (hash-remove! h i))) '(1 2 3 4 5 6 7 8))", "(list (hash-ref h 1) (hash-ref h 5) (hash-ref h 8) (hash-fold (lambda (k v n) (+ n (car v))) 0 h))" },
  { "(define h (make-hash-table 1)) (hash-set! h (list 1 \"k\") (list a)) (hash-set! h \"s\" b) (hash-set! h 1/2 'half)", "(list (hash-ref h (list 1 \"k\")) (hash-ref h \"s\") (hash-ref h 1/2) (hash-get-handle h \"s\"))" },
  { "(define h (make-hash-table 3)) (hashq-create-handle! h 'a (list a)) (set-cdr! (hashq-get-handle h 'a) (vector b))", "(list (hashq-ref h 'a) (hashq-get-handle h 'a))" },
  { "(define d (cons a (vector b (cons 1 (list 2)))))", "(list d (cdr d))" },
  { "(define d (append (list 1 (list a)) (cons 2 \"tail\")))", "(list d (cddr d))" },
  { "(define q '(1 (2 \"three\" #\\4) #(5 (6)) 7/8))", "(list q (equal? q '(1 (2 \"three\" #\\4) #(5 (6)) 7/8)))" },
  { "(define fr (list (/ 5 1001) (/ 1 3) 2.5 a))", "(list fr (+ (cadr fr) 1))" },
  { "(define (mk n) (lambda () (set! n (+ n 1)) (let ((x n)) (lambda (y) (let ((z (list x y n))) (lambda (w) (list w z x n)))))))\n(define f (((mk a)) b))", "(f (list 1))" },
  { "(define f (let loop ((i 0) (k (lambda (x) (list x a)))) (if (= i 4) k (loop (+ i 1) (lambda (x) (k (cons i x)))))))", "(f (list b))" },
  { "(define (f x) (define y (list x)) (define (g z) (if (= z 0) y (g (- z 1)))) g)\n(define g (f a))", "(list (g 2) ((f b) 1))" },
  { "(define-macro (tw x . r) `(list ,x ,x (quote ,r)))\n(define (use z) (tw z (1 2) y))", "(list (use a) (tw (+ a b) q))" },
  { "(define use #f) (let ((hid (list a))) (define-macro (lm x) (list 'cons x ''k)) (set! use (lambda (z) (list (lm z) hid))))", "(use b)" },
  { "(define k #f) (define n 0) (define (run) (set! n 0) (let ((v (list (list a) (call/cc (lambda (c) (set! k c) (list b)))))) (set! n (+ n 1)) (if (< n 3) (k (list n v)) v)))", "(run)" },
  { "(define wl '()) (define (w) (dynamic-wind (lambda () (set! wl (cons (list 'in a) wl))) (lambda () (list b)) (lambda () (set! wl (cons (list 'out b) wl)))))", "(begin (set! wl '()) (list (w) wl))" },
  { "(define var (make-variable (list a (list b)))) ", "(begin (variable-set! var (list (variable-ref var) 1)) (let ((r (variable-ref var))) (variable-set! var (car r)) r))" },
  { "(define sy (string->symbol \"made here\")) (define st (symbol->string 'sym)) (define gs (gensym))", "(list sy st (eq? sy (string->symbol \"made here\")) (eq? gs gs) (symbol? gs))" },
  { "(define st (make-string 3 #\\x)) (string-set! st 1 #\\y) (define su (string-append st (number->string a)))", "(list st su (substring su 1 3))" },
  { "(define fs (list car cons (lambda x x) apply))", "((cadr fs) ((car fs) (list a b)) ((car (cdr (cdr (cdr fs)))) (caddr fs) (list b)))" },
  { "(define (ha . l) (list 'caught l a)) (define (th) (throw 'k (list b) \"m\"))", "(list (catch 'k th ha) (catch #t (lambda () (car 1)) (lambda (k . r) k)))" },
  { "(define ev1 '(let loop ((i 0)) (if (< i 3) (loop (+ i 1)) (list i a))))", "(list (eval ev1) (eval (list 'quote ev1)))" },
  { "(define al (acons 'x (list a) (acons \"y\" (vector b) '())))", "(begin (set-cdr! (assq 'x al) (list a a)) (list al (assoc-ref al \"y\")))" },
};
enum { NKEEP = sizeof KEEP / sizeof *KEEP };
static void run_all(const char *t) { char b[1200]; snprintf(b, sizeof b, "(begin %s 0)", t); ev(b); }
H(keep) {
  int c = choose(NKEEP, "object"), when = choose(3, "when");
  int64_t a = symrange("a", 1, 1000), b = symrange("b", 1, 1000); defn("a", a); defn("b", b);
  run_all(KEEP[c][0]);
  S r = ev(KEEP[c][1]);
  CHECK(r != nullptr, "the use has a value");
  int na = snap(r, tokA, 0); r = nullptr;
  run_all(KEEP[c][0]);
  collect();
  if (when >= 1) { burn(); collect(); burn(); }
  if (when == 2) { schedule(40, 8, 4); g_armed = true; }
  r = ev(KEEP[c][1]);
  g_armed = false;
  same(r, na, "an object made before a collection is the same after it");
  if (when == 0) { collect(); burn(); collect(); same(r, na, "and so is what was made of it"); }
  REACH("end");
}
// every part of a module that has exports and uses others
H(module_parts) {
  static const char *F1 = "(define-module (gm one) #:export (f1 m1) #:use-module (gm zero))\n(re-export z0)\n(define hid (list 'h z0))\n(define (f1 x) (list x hid (g0 x)))\n(define-macro (m1 x) (list 'list x 'hid))\n";
  static const char *F0 = "(define-module (gm zero) #:export (z0 g0))\n(define z0 (list 1 \"z\"))\n(define (g0 x) (cons x z0))\n(define own (list 'own))\n";
  static const char *FA = "(define-module (gm auto) #:export (au))\n(define (au x) (list 'auto x))\n";
  sx_vfile("gm/zero.scm", F0, strlen(F0)); sx_vfile("gm/one.scm", F1, strlen(F1)); sx_vfile("gm/auto.scm", FA, strlen(FA));
  int64_t a = symrange("a", 1, 1000);
  ev("(define-module (gm main) #:use-module (gm one) #:autoload (gm auto) (au) #:export (mine))");
  defn("a", a);
  ev("(define mine (lambda (x) (f1 (list x a))))");
  ev("(define-module (gm user) #:use-module (gm main))");
  defn("a", a);
  if (choose(2, "churn")) burn();
  collect(); burn(); collect(); burn();
  switch (choose(5, "use")) {
  case 0: { S r = ev("(mine 'q)"); CHECK(lenof(r) == 3 && issymn(nth(nth(r, 0), 0), "q") && isnumv(nth(nth(r, 0), 1), a) && issymn(nth(nth(r, 1), 0), "h") && lenof(nth(r, 2)) == 3, "a procedure through two modules"); break; }
  case 1: { scm_set_current_module(scm_c_resolve_module("(gm main)")); S r = ev("(au (list a))"); CHECK(lenof(r) == 2 && issymn(nth(r, 0), "auto") && isnumv(nth(nth(r, 1), 0), a), "an autoload"); break; }
  case 2: { scm_set_current_module(scm_c_resolve_module("(gm main)")); S r = ev("(list z0 (f1 a) (mine a))"); CHECK(lenof(r) == 3 && stris(nth(nth(r, 0), 1), "z") && isnumv(nth(nth(r, 1), 0), a), "exported and re-exported names"); break; }
  case 3: { scm_set_current_module(scm_c_resolve_module("(gm zero)")); S r = ev("(list own z0 (g0 own))"); CHECK(lenof(r) == 3 && issymn(nth(nth(r, 0), 0), "own") && lenof(nth(r, 2)) == 3, "variables of a module nobody exports"); break; }
  case 4: { S r = ev("(begin (use-modules (gm one) (gm auto)) (list (f1 2) (au 3)))"); CHECK(lenof(r) == 2 && isnumv(nth(nth(r, 0), 0), 2) && isnumv(nth(nth(r, 1), 1), 3), "modules used again"); break; }
  }
  REACH("end");
}
// ---- C hosts
static S g_root1; static S callback(S x) {
  S t = list_of(&x, 1);                         // held by this frame only
  S u = pscm_eval_string("(list 'inner (vector 1 2))");
  collect();
  S w[3] = { t, u, x };
  return list_of(w, 3);
}
__attribute__((noinline)) static S host_make(int64_t a) { defn("a", a); return ev("(list a (vector a \"s\") 'sym (lambda (x) (cons x a)))"); }
H(host_locals) {
  int64_t a = symrange("a", 1, 1000);
  S v = host_make(a), s = ev("(string-append \"ab\" \"cd\")"), e = pscm_parse("(+ 1 (car (list 41 2)))");
  S p = nth(v, 3);
  collect(); burn(); collect();
  CHECK(lenof(v) == 4 && isnumv(nth(v, 0), a) && issymn(nth(v, 2), "sym"), "a list held by the host");
  CHECK(stris(s, "abcd"), "a string held by the host");
  CHECK(isnumv(pscm_eval(e), 42), "an expression held by the host");
  S arg = mknum(5), r = scm_call_1(p, arg);
  CHECK(r && r->type == SCM::LIST && isnumv(((SCM_List *)r->value)->data, 5), "a procedure held by the host");
  REACH("end");
}
H(host_roots) {
  int64_t a = symrange("a", 1, 1000); defn("a", a);
  int how = choose(6, "where");
  long tag = 0; static S var; gc_register_root(&g_root1, "r"); gc_register_root(&var, "v");
  switch (how) {
  case 0: g_root1 = ev("(list a 'x)"); break;
  case 1: scm_c_define("hv", ev("(list a 'x)")); break;
  case 2: tag = scm_make_smob_type("gs", 8); scm_c_define("sm", scm_make_smob(tag, ev("(list a 'x)"))); break;
  case 3: tag = scm_make_smob_type("gs", 8); scm_c_define("sm", scm_make_smob_with_data3(tag, 1, (int64_t)ev("(list a 'y)"), (int64_t)ev("(list a 'x)"))); break;
  case 4: var = ev("(make-variable (list a 'x))"); break;
  case 5: ev("(define ht (make-hash-table 2))"); ev("(hash-set! ht 'k (list a 'x))"); break;
  }
  burn(); collect(); burn(); collect(); burn();
  S r = nullptr;
  switch (how) {
  case 0: r = g_root1; break;
  case 1: r = ev("hv"); break;
  case 2: r = (S)scm_smob_data(ev("sm")); break;
  case 3: r = (S)scm_smob_data3(ev("sm")); CHECK(issymn(nth((S)scm_smob_data2(ev("sm")), 1), "y"), "the second field of a smob"); break;
  case 4: def("var", var); r = ev("(variable-ref var)"); break;
  case 5: r = ev("(hash-ref ht 'k)"); break;
  }
  CHECK(lenof(r) == 2 && isnumv(nth(r, 0), a) && issymn(nth(r, 1), "x"), "an object the host keeps survives");
  REACH("end");
}
H(host_callback) {
  int64_t a = symrange("a", 1, 1000); defn("a", a);
  scm_c_define_gsubr("cb", 1, 0, 0, (SCM *(*)(void))callback);
  schedule(200, 6);
  g_armed = true;
  S r = ev("(let ((l (list a a))) (map cb (list l (list 3))))");
  g_armed = false;
  collect();
  CHECK(lenof(r) == 2, "length");
  S x = nth(r, 0);
  CHECK(lenof(x) == 3 && lenof(nth(x, 0)) == 1 && lenof(nth(nth(x, 0), 0)) == 2 && isnumv(nth(nth(nth(x, 0), 0), 1), a), "a list built by C");
  CHECK(issymn(nth(nth(x, 1), 0), "inner") && isnumv(nth(nth(x, 2), 0), a), "a result obtained by C and the argument");
  CHECK(isnumv(nth(nth(nth(r, 1), 2), 0), 3), "the second call");
  REACH("end");
}
// ---- what is not in use is reclaimed, released once and used again
H(reclaim) {
  static const struct { const char *make; int tag, per; } K[] = {
    { "(list 1 2 3)", GC_LIST, 3 }, { "(vector 1 2)", GC_VECTOR, 1 }, { "(string-append \"a\" \"b\")", GC_STRING, 1 }, { "(lambda (x) x)", GC_PROC, 1 },
    { "(delay 1)", GC_PROMISE, 1 }, { "(make-hash-table 3)", GC_HASH, 1 }, { "(open-input-string \"abc\")", GC_PORT, 1 }, { "(/ 1 3)", GC_NUMBER, 1 },
    { "((lambda (z) 1) 2)", GC_ENV, 1 }, { "(make-variable 1)", GC_VARIABLE, 1 }, { "(call/cc (lambda (k) k))", GC_CONT, 1 }, { "(list \"s\" 'q)", GC_SCM, 4 } };
  int c = choose(12, "kind"); int n = (int)symrange("n", 20, 24); defn("n", n);
  run_gc(); run_gc();
  int before = g_swept[K[c].tag];
  evf("(do ((i 0 (+ i 1))) ((= i n) 0) %s)", K[c].make);
  burn();
  run_gc();
  int got = g_swept[K[c].tag] - before;
  CHECK(got >= (n - 10) * K[c].per, "what nothing refers to is reclaimed");
  g_naddr = 0;
  evf("(do ((i 0 (+ i 1))) ((= i n) 0) %s)", K[c].make);
  run_gc();
  bool again = false;
  for (int i = 0; i < 10; i++) {
    char *o = (char *)__real__Z8gc_alloc7TypeTagm(GC_NUMBER, 16);
    for (int j = 0; j < g_naddr; j++) again |= g_addr[j] == (void *)obj_to_block(o);
  }
  CHECK(again || g_naddr == 0 || K[c].tag == GC_CONT, "reclaimed storage is used again");
  CHECK(isnumv(ev("(apply + (list 1 2 n))"), n + 3), "evaluation goes on");
  REACH("end");
}
// ---- a word that happens to hold the address of something reclaimed long ago
__attribute__((noinline)) static uintptr_t stale_make(int c) {
  static const char *M[] = { "(list 1 2 3)", "(vector 1 2 3)", "(make-hash-table 3)", "(string-append \"a\" \"b\")", "(lambda (x) x)", "(delay 1)", "(open-input-string \"abc\")", "(call/cc (lambda (k) k))",
    "(make-variable 1)", "(/ 1 3)", "(open-output-string)", "(make-soft-port (vector #f #f #f #f #f) \"r\")" };
  S r = ev(M[c]);
  return ~(uintptr_t)r->value;
}
H(stale) {
  int c = choose(12, "kind"), when = choose(2, "when"); int64_t a = symrange("a", 1, 1000); defn("a", a);
  uintptr_t h = stale_make(c);
  burn(); collect();
  if (when) { burn(); collect(); }
  volatile uintptr_t w = ~h;
  collect(); burn(); collect();
  S r = ev("(list (vector a 1) (make-hash-table 3) (list a 2))");
  collect();
  CHECK(isnumv(nth(nth(r, 2), 0), a) && nth(r, 0)->type == SCM::VECTOR, "evaluation goes on");
  CHECK(w == ~h, "the word is the program's");
  REACH("end");
}
// ---- a word that happens to hold any address in or near the heap
H(word) {
  int64_t a = symrange("a", 1, 1000); defn("a", a);
  S v = ev("(list a (vector 1 \"s\") (/ 1 3) (make-hash-table 3))");
  int na = snap(v, tokA, 0);
  char *base = nullptr;
  switch (choose(5, "where")) {
  case 0: base = g_heap_start; break;
  case 1: base = g_heap_end; break;
  case 2: base = (char *)v; break;
  case 3: base = (char *)v->value; break;
  case 4: base = (char *)__real__Z8gc_alloc7TypeTagm(GC_NUMBER, 16); break;   // next to the last block handed out
  }
  volatile uintptr_t w = (uintptr_t)base + symrange("offset", -40, 40);
  uintptr_t u = w;
  collect(); burn(); collect();
  same(v, na, "a collection changes nothing");
  CHECK(w == u, "the word is the program's");
  REACH("end");
}
// ---- growing the heap
H(grow) {
  static S big[4]; for (S &b : big) gc_register_root(&b, "big");
  int64_t a = symrange("a", 1, 1000); defn("a", a);
  S v = ev("(list a (vector 1 \"s\") (/ 1 3))");
  int na = snap(v, tokA, 0);
  static const size_t SZ[] = { 1 << 20, 3 << 20, (4 << 20) + 4096, 9 << 20 };
  size_t z[3];
  for (int i = 0; i < 3; i++) {
    z[i] = SZ[choose(4, "size")];
    char *e = g_heap_end;
    char *p = (char *)__real__Z8gc_alloc7TypeTagm(GC_NUMBER, z[i]);
    CHECK(p && (char *)p >= g_heap_start && p + z[i] <= g_heap_end, "inside the heap");
    p[0] = 'a' + i; p[z[i] / 2] = 'A' + i; p[z[i] - 1] = '0' + i;
    big[i] = (S)p;
    volatile uintptr_t w = e != g_heap_end ? (uintptr_t)e + 32 : 1;   // between two segments, or past the end of the heap
    if (choose(2, "drop")) { big[i] = nullptr; }
    collect();
    CHECK(w != 0, "the word");
  }
  S u = ev("(map (lambda (x) (list x (vector a x))) '(1 2 3))");
  collect(); burn(); collect();
  for (int i = 0; i < 3; i++) { char *p = (char *)big[i]; if (p) CHECK(p[0] == 'a' + i && p[z[i] / 2] == 'A' + i && p[z[i] - 1] == '0' + i, "a large object keeps its contents"); }
  same(v, na, "what was made before the heap grew");
  CHECK(lenof(u) == 3 && isnumv(nth(nth(u, 2), 0), 3) && nth(nth(u, 2), 1)->type == SCM::VECTOR, "what was made after");
  for (S &b : big) b = nullptr;
  REACH("end");
}
// ---- the allocator
H(alloc) {
  static const int SZ[] = { 8, 40, 136, 264, 520 };
  static S slot[6]; static int sz[6]; static bool init; int first = sx_param("single", 0) ? 3 : 2, k = first + 2;
  for (int i = 0; i < k; i++) { slot[i] = nullptr; if (!init) gc_register_root(&slot[i], "slot"); }
  init = true;
  int mask = 0;
  for (int i = 0; i < k; i++) {
    sz[i] = SZ[choose(5, "size")];
    unsigned char *p = (unsigned char *)__real__Z8gc_alloc7TypeTagm(GC_NUMBER, sz[i]);
    CHECK(p != nullptr && ((uintptr_t)p & 7) == 0, "aligned");
    for (int j = 0; j < sz[i]; j++) CHECK(p[j] == 0, "fresh storage is zero");
    memset(p, 0x40 + i, sz[i]);
    slot[i] = (S)p;
    if (i == first - 1) { mask = choose(1 << first, "dropped"); for (int d = 0; d < first; d++) if (mask >> d & 1) slot[d] = nullptr; run_gc(); }
    if (i == first) run_gc();
  }
  run_gc();
  for (int i = 0; i < k; i++) if (slot[i]) for (int j = 0; j < sz[i]; j++) CHECK(((unsigned char *)slot[i])[j] == 0x40 + i, "live storage is untouched");
  for (int i = 0; i < k; i++) slot[i] = nullptr;
  int before = g_swept[GC_NUMBER];
  run_gc();
  CHECK(g_swept[GC_NUMBER] - before >= 1, "dropped storage is reclaimed");
  CHECK(isnumv(ev("(car (map (lambda (x) (+ x 1)) '(1 2)))"), 2), "evaluation goes on");
  REACH("end");
}
