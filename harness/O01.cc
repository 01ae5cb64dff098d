// Ports.
// @bound input: texts of up to 3 arbitrary bytes, every sequence of 4 (quick) / 6 (thorough) read-char, peek-char, char-ready? and end-of-file tests on string, file and soft ports, two ports interleaved
// @bound output: every sequence of 3 (quick) / 4 (thorough) write-char, write, display, newline to two string ports, a file, a soft port or the current output port; buffers around every doubling up to 2049 bytes
// @bound outside: ports on standard input, file system errors other than a missing file, files larger than memory
// @quick_timeout 150
// @param_thorough in=6 out=4 inter=6
#include "sx.h"
static unsigned char tx[2][8]; static int tn[2], pos[2];
static void text(int p, int n) {
  tn[p] = n; pos[p] = 0;
  for (int i = 0; i < n; i++) { char nm[12]; snprintf(nm, 12, "t%d_%d", p, i); tx[p][i] = sym8(nm); }
}
static const char *pn(int p) { return p ? "q" : "p"; }
// open input port number p on its text; kind 0 string 1 file 2 soft
static void open_in(int p, int kind) {
  S s = mkstr((char *)tx[p], tn[p]);
  def(p ? "sq" : "sp", s);
  if (kind == 0) evf("(define %s (open-input-string s%s))", pn(p), pn(p));
  else if (kind == 1) {
    char f[16]; snprintf(f, 16, "in%d.txt", p);
    sx_vfile(f, (char *)tx[p], tn[p]);
    evf("(define %s (open-input-file \"%s\"))", pn(p), f);
  } else {
    evf("(define i%s 0)", pn(p));
    evf("(define %s (make-soft-port (vector #f #f #f (lambda () (if (< i%s (string-length s%s)) (begin (set! i%s (+ i%s 1)) (string-ref s%s (- i%s 1))) #f)) #f) \"r\"))", pn(p), pn(p), pn(p), pn(p), pn(p), pn(p), pn(p));
  }
}
// one operation checked against the model; kind of the port tells whether char-ready? is defined
static void in_op(int p, int op, int kind) {
  bool eof = pos[p] >= tn[p];
  if (op == 0 || op == 1) {
    S r = evf(op ? "(peek-char %s)" : "(read-char %s)", pn(p));
    CHECK(r != nullptr, "no error");
    def("r", r);
    CHECK(isT(ev("(eof-object? r)")) == eof, "the end of file exactly at the end");
    if (!eof) {
      CHECK(ischr(r), "a character");
      CHECK(chrv(r) == tx[p][pos[p]], "the next character");
      if (op == 0) pos[p]++;
    }
  } else if (kind != 2) {
    S r = evf("(char-ready? %s)", pn(p));
    CHECK(eof ? r != nullptr : isT(r), "a character is ready while there is one");
  }
}
H(input) {
  int kind = choose(3, "kind");
  text(0, choose(4, "n"));
  open_in(0, kind);
  CHECK(isT(ev("(input-port? p)")), "an input port");
  if (kind == 0 && tn[0]) ev("(string-set! sp 0 #\\!)"); // the port has its own copy
  int ops = (int)sx_param("in", 4);
  for (int i = 0; i < ops; i++) { char nm[8]; snprintf(nm, 8, "op%d", i); in_op(0, choose(kind == 2 ? 2 : 3, nm), kind); }
  REACH("end");
}
H(two_inputs) {
  int k0 = choose(3, "k0"), k1 = choose(3, "k1");
  text(0, 2); text(1, 2);
  open_in(0, k0); open_in(1, k1);
  int ops = (int)sx_param("inter", 4);
  for (int i = 0; i < ops; i++) {
    char nm[8]; snprintf(nm, 8, "w%d", i); int p = choose(2, nm);
    snprintf(nm, 8, "op%d", i); in_op(p, choose(2, nm), p ? k1 : k0);
  }
  REACH("end");
}
// read and read-char on the same port share one position
H(read_mix) {
  unsigned char c = sym8("c"), d = sym8("d");
  ASSUME((c >= 'a') & (c <= 'z')); ASSUME((d > 0) & (d < 127));
  int kind = choose(3, "kind"), first = choose(2, "first");
  tn[0] = 8; pos[0] = 0;
  snprintf((char *)tx[0], 8, "(%c) %c)x", c, d); tx[0][4] = d; tn[0] = 7;
  open_in(0, kind);
  S r;
  if (first) { r = ev("(peek-char p)"); CHECK(ischr(r) && chrv(r) == '(', "peek before read"); }
  r = ev("(read p)");
  CHECK(lenof(r) == 1, "the datum");
  CHECK(issym(nth(r, 0)) && ((SCM_Symbol *)nth(r, 0)->value)->data[0] == (char)c, "its element");
  r = ev("(read-char p)");
  CHECK(ischr(r) && chrv(r) == ' ', "read stops right after the datum");
  r = ev("(read-char p)");
  CHECK(ischr(r) && chrv(r) == d, "then the next character");
  r = ev("(read-char p)"); CHECK(ischr(r) && chrv(r) == ')', "and the next");
  r = ev("(read p)"); CHECK(issymn(r, "x"), "an atom at the end");
  r = ev("(read p)"); def("r", r); CHECK(isT(ev("(eof-object? r)")), "end of file");
  REACH("end");
}
// closing an input port ends it; others go on
H(close_in) {
  text(0, 2); text(1, 2);
  int k = choose(3, "kind"), before = choose(2, "before");
  open_in(0, k); open_in(1, k);
  if (before) in_op(0, 0, k);
  CHECK(ev("(close-input-port p)") != nullptr, "closes");
  S r = ev("(read-char p)");
  CHECK(!r || !ischr(r), "a closed port delivers nothing");
  CHECK(ev("(close-input-port p)") != nullptr, "closing twice is harmless");
  for (int i = 0; i < 3; i++) in_op(1, 0, k);
  REACH("end");
}
// ---- output
struct Out { char b[64]; int n; } o[5];
static void put(int p, const char *d, int n) { memcpy(o[p].b + o[p].n, d, n); o[p].n += n; }
static void check_out(int p, S got, const char *l) {
  CHECK(isstr(got), l);
  CHECK(stris(got, o[p].b, o[p].n), l);
}
static const char *dest[] = {"a", "b", "f", "s"};
static void out_op(int i, int ndest) {
  char nm[12];
  snprintf(nm, 12, "op%d", i); int op = choose(4, nm);
  snprintf(nm, 12, "to%d", i); int d = choose(ndest + 1, nm); // the last one: no port given
  snprintf(nm, 12, "c%d", i);
  const char *port = d < 4 && d < ndest ? dest[d] : "";
  int to = d < ndest ? d : 4;
  if (op == 0) { unsigned char c = sym8(nm); def("x", mkchr(c)); evf("(write-char x %s)", port); put(to, (char *)&c, 1); }
  else if (op == 1) { evf("(newline %s)", port); put(to, "\n", 1); }
  else {
    int k = choose(3, nm);
    char t[12];
    snprintf(t, 12, "v%d", i);
    if (k == 0) { unsigned char c = sym8(t); char q[4] = {'"', (char)c, '"', 0}; ASSUME((c >= 32) & (c < 127) & (c != '"') & (c != '\\')); def("x", mkstr((char *)&c, 1)); if (op == 2) put(to, (char *)&c, 1); else put(to, q, 3); }
    else if (k == 1) { S e[2] = {mknum(7), mkchr('z')}; def("x", list_of(e, 2)); put(to, "(7 #\\z)", 7); }
    else { def("x", mkstr("pq\n", 3)); if (op == 2) put(to, "pq\n", 3); else put(to, "\"pq\\n\"", 6); }
    CHECK(evf(op == 2 ? "(display x %s)" : "(write x %s)", port) != nullptr, "printing succeeds");
  }
}
static S file_text(const char *f) {
  return evf("(call-with-input-file \"%s\" (lambda (p) (define (go c l) (if (eof-object? c) (list->string (reverse l)) (go (read-char p) (cons c l)))) (go (read-char p) '())))", f);
}
static void out_open(int ndest) {
  memset(o, 0, sizeof o);
  ev("(define a (open-output-string))");
  ev("(define b (open-output-string))");
  if (ndest > 2) ev("(define f (open-output-file \"out.txt\"))");
  if (ndest > 3) {
    ev("(define acc \"\")");
    ev("(define s (make-soft-port (vector (lambda (c) (set! acc (string-append acc (string c)))) (lambda (t) (set! acc (string-append acc t))) #f #f #f) \"w\"))");
  }
  CHECK(isT(ev("(output-port? a)")), "an output port");
}
static void out_done(int ndest) {
  check_out(0, ev("(get-output-string a)"), "first string port has its text");
  check_out(1, ev("(get-output-string b)"), "second string port has its text");
  if (ndest > 2) { CHECK(ev("(close-output-port f)") != nullptr, "closes"); check_out(2, file_text("out.txt"), "the file has its text"); }
  if (ndest > 3) check_out(3, ev("acc"), "the soft port has its text");
}
H(output) {
  out_open(4);
  sx_capture_stdout(1);
  int ops = (int)sx_param("out", 2);
  for (int i = 0; i < ops; i++) out_op(i, 4);
  size_t n; const char *d = sx_stdout_data(&n);
  sx_capture_stdout(0);
  out_done(4);
  CHECK((int)n == o[4].n && memcmp(d, o[4].b, n) == 0, "standard output has its text");
  REACH("end");
}
H(output_long) {
  out_open(2);
  sx_capture_stdout(1);
  int ops = (int)sx_param("out", 3);
  for (int i = 0; i < ops; i++) out_op(i, 2);
  size_t n; const char *d = sx_stdout_data(&n);
  sx_capture_stdout(0);
  out_done(2);
  CHECK((int)n == o[4].n && memcmp(d, o[4].b, n) == 0, "standard output has its text");
  REACH("end");
}
// the current output port
H(current) {
  out_open(4);
  int k = choose(4, "k");
  evf("(define old (set-current-output-port %s))", dest[k]);
  CHECK(isT(evf("(eq? (current-output-port) %s)", dest[k])), "the current port is the one set");
  unsigned char c = sym8("c");
  def("x", mkchr(c));
  sx_capture_stdout(1);
  int op = choose(4, "op");
  if (op == 0) { ev("(write-char x)"); put(k, (char *)&c, 1); }
  else if (op == 1) { ev("(display \"hi\")"); put(k, "hi", 2); }
  else if (op == 2) { ev("(write \"hi\")"); put(k, "\"hi\"", 4); }
  else { ev("(newline)"); put(k, "\n", 1); }
  if (choose(2, "err")) ev("(car 1)"); // an error in between does not change the current port
  ev("(display 12)"); put(k, "12", 2);
  ev("(set-current-output-port old)");
  ev("(display 3)"); put(4, "3", 1);
  size_t n; const char *d = sx_stdout_data(&n);
  sx_capture_stdout(0);
  out_done(4);
  CHECK((int)n == o[4].n && memcmp(d, o[4].b, n) == 0, "output goes back to the old port");
  REACH("end");
}
// an error while printing to a port leaves every port usable
H(print_error) {
  out_open(2);
  sx_capture_stdout(1);
  int k = choose(3, "k");
  if (k == 0) ev("(display 1 'notaport)");
  else if (k == 1) ev("(call-with-output-string (lambda (p) (display \"x\" p) (car 1)))");
  else ev("(write-char \"no\" a)");
  ev("(display 2)"); ev("(display 1 a)");
  put(4, "2", 1); put(0, "1", 1);
  size_t n; const char *d = sx_stdout_data(&n);
  sx_capture_stdout(0);
  out_done(2);
  CHECK((int)n >= 1 && d[n - 1] == '2', "standard output still works");
  REACH("end");
}
// contents survive growth of the buffer
H(growth) {
  static const int L[] = {1, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 2047, 2049};
  int n = L[choose(12, "n")], how = choose(3, "how");
  ASSUME(how < 2 || n <= 513);
  static char b[2100];
  memset(b, 'a', n); b[n - 1] = 'z'; b[n / 2] = 'm';
  b[(choose(3, "where") * (n - 1)) / 2] = (char)sym8("c");
  def("t", mkstr(b, n));
  ev("(define a (open-output-string))");
  if (how == 0) ev("(display t a)");
  else if (how == 1) { defn("h", n / 2); ev("(display (substring t 0 h) a)"); ev("(display (substring t h (string-length t)) a)"); }
  else ev("(for-each (lambda (c) (write-char c a)) (string->list t))");
  S r = ev("(get-output-string a)");
  CHECK(isstr(r) && stris(r, b, n), "everything written is there");
  ev("(write-char #\\! a)");
  CHECK(stris(r, b, n), "a string taken earlier is not changed");
  def("r", r);
  if (n > 1) ev("(string-set! r 0 #\\Z)");
  S r2 = ev("(get-output-string a)");
  CHECK(isstr(r2) && strl(r2) == n + 1, "taking the text does not consume it");
  CHECK(memcmp(strd(r2), b, n) == 0 && strd(r2)[n] == '!', "and it is independent of strings taken earlier");
  REACH("end");
}
// what is written to a file is what is read back
H(files) {
  int n = choose(4, "n");
  char b[4];
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "b%d", i); b[i] = (char)sym8(nm); }
  def("t", mkstr(b, n));
  int how = choose(3, "how");
  if (how == 0) ev("(call-with-output-file \"x.txt\" (lambda (p) (display t p)))");
  else if (how == 1) { ev("(define p (open-output-file \"x.txt\"))"); ev("(for-each (lambda (c) (write-char c p)) (string->list t))"); ev("(close-output-port p)"); }
  else { ev("(define p (open-output-file \"x.txt\"))"); ev("(display \"old contents\" p)"); ev("(close-output-port p)"); ev("(call-with-output-file \"x.txt\" (lambda (p) (display t p)))"); }
  S r = file_text("x.txt");
  CHECK(isstr(r) && stris(r, b, n), "the bytes written are the bytes read");
  if (how == 1) { ev("(write-char #\\x p)"); r = file_text("x.txt"); CHECK(isstr(r) && stris(r, b, n), "a closed port writes nothing"); }
  CHECK(!ev("(open-input-file \"missing.txt\")"), "a missing file is an error");
  REACH("end");
}
// direction and type of the port are checked
H(direction) {
  text(0, 1);
  open_in(0, choose(3, "kind"));
  out_open(4);
  ev("(define h (open-output-string))");
  static const char *B[] = {
    "(read-char %s)", "(peek-char %s)", "(read %s)", "(char-ready? %s)", "(close-input-port %s)", "(set-current-input-port %s)"};
  static const char *W[] = {"(write-char #\\a %s)", "(display 1 %s)", "(write 1 %s)", "(newline %s)", "(get-output-string %s)", "(close-output-port %s)", "(set-current-output-port %s)", "(force-output %s)"};
  static const char *X[] = {"5", "\"str\"", "'p", "#f", "car"};
  int w = choose(3, "w");
  if (w == 0) CHECK(!evf(B[choose(6, "op")], dest[choose(4, "d")]), "reading from an output port is an error");
  else if (w == 1) CHECK(!evf(W[choose(8, "op")], "p"), "writing to an input port is an error");
  else {
    int op = choose(14, "op");
    CHECK(!evf(op < 6 ? B[op] : W[op - 6], X[choose(5, "x")]), "not a port");
  }
  in_op(0, 0, 2); in_op(0, 0, 2);
  out_done(4);
  REACH("end");
}
// the result of the with-port procedures
H(call_with) {
  int64_t v = sym64("v");
  defn("v", v);
  CHECK(isnumv(ev("(call-with-input-string \"abc\" (lambda (p) (read-char p) v))"), v), "result of call-with-input-string");
  sx_vfile("c.txt", "abc", 3);
  CHECK(isnumv(ev("(call-with-input-file \"c.txt\" (lambda (p) (read-char p) v))"), v), "result of call-with-input-file");
  CHECK(isnumv(ev("(call-with-output-file \"d.txt\" (lambda (p) (write-char #\\a p) v))"), v), "result of call-with-output-file");
  CHECK(stris(ev("(call-with-output-string (lambda (p) (display \"x\" p) (call-with-output-string (lambda (q) (display \"y\" q) (display \"z\" p))) v))"), "xz"), "nested string ports");
  REACH("end");
}
// soft ports call the procedures they were given, also for both directions
H(soft) {
  ev("(define log '())");
  ev("(define in (list #\\a #\\b))");
  evf("(define s (make-soft-port (vector (lambda (c) (set! log (cons c log))) (lambda (t) (set! log (cons t log))) (lambda () (set! log (cons 'flush log))) (lambda () (if (null? in) #f (let ((c (car in))) (set! in (cdr in)) c))) (lambda () (set! log (cons 'close log)))) \"%s\"))", "rw");
  CHECK(isT(ev("(and (input-port? s) (output-port? s))")), "a port for both directions");
  int n = 0, exp[6], k = (int)sx_param("out", 3);
  int left = 2;
  for (int i = 0; i < k; i++) {
    char nm[8]; snprintf(nm, 8, "op%d", i);
    int op = choose(5, nm);
    if (op == 0) { ev("(write-char #\\x s)"); exp[n++] = 0; }
    else if (op == 1) { ev("(display \"t\" s)"); exp[n++] = 1; }
    else if (op == 2) { ev("(force-output s)"); exp[n++] = 2; }
    else {
      S r = ev(op == 3 ? "(read-char s)" : "(peek-char s)");
      def("r", r);
      if (left == 0) CHECK(isT(ev("(eof-object? r)")), "#f is the end of file");
      else { CHECK(ischr(r) && chrv(r) == (left == 2 ? 'a' : 'b'), "characters come from the procedure"); if (op == 3) left--; }
    }
  }
  ev(choose(2, "how") ? "(close-output-port s)" : "(close-input-port s)"); exp[n++] = 3;
  ev("(close-input-port s)"); ev("(close-output-port s)");
  ev("(write-char #\\x s)");
  S l = ev("(reverse log)");
  CHECK(lenof(l) == n, "one call for each operation");
  for (int i = 0; i < n; i++) {
    S e = nth(l, i);
    if (exp[i] == 0) CHECK(ischr(e) && chrv(e) == 'x', "character procedure");
    else if (exp[i] == 1) CHECK(isstr(e) && stris(e, "t"), "string procedure");
    else CHECK(issymn(e, exp[i] == 2 ? "flush" : "close"), "flush and close procedures");
  }
  REACH("end");
}
