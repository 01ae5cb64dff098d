// The script runner and the interactive loop: every form is run, in order, and its value shown.
// @bound scripts: files of up to 2 (thorough: 3) forms out of 11 (values, strings in write form, definitions, output, errors, throws, forms that print and then fail), with symbolic digits, separated by a newline, nothing, a space or a comment; run as FILE, -s FILE and --test FILE
// @bound command lines: every command line of up to 3 words out of -s, --test, an existing file, a missing file, a malformed file
// @bound interactive: sessions of up to 2 (thorough: 3) pieces out of 18 (expressions on one line and over several, several on a line, comments, strings and characters containing parentheses, semicolons and quotes, stray parentheses, errors), ended with or without a newline, each followed by a sentinel expression; 2 (thorough: 3) arbitrary bytes as one line; lines of 4094..4099 bytes
// @assume the values shown are compared, not the prompts, the echo of the expressions or the wording of diagnostics
// @quick_timeout 200
// @thorough_timeout 1500
#include "any.h"
#include <stdio.h>
static inline void sx_no_abort_handler() {}
#define setup_abort_handler sx_no_abort_handler_decl
#define eval pscm_main_eval
#define main pscm_main
static inline void sx_already_init() {}
#define pscm_init sx_already_init
#define my_eval pscm_main_my_eval
#define show_usage pscm_main_show_usage
#define do_eval pscm_main_do_eval
#include "../main.cc"
#undef main
#undef pscm_init
#undef eval
#undef setup_abort_handler
#undef my_eval
#undef show_usage
#undef do_eval
void sx_no_abort_handler_decl() {}
void repl();

static char file[512], want[512]; static int fl, wl;
static void fput(const char *s) { while (*s) file[fl++] = *s++; }
static void wput(const char *s) { while (*s) want[wl++] = *s++; }
// text with @ standing for the symbolic digit
static void put(char *b, int &n, const char *s, char d) { for (; *s; s++) b[n++] = *s == '@' ? d : *s; }
static int run(const char *a, const char *b = nullptr, const char *c = nullptr) {
  sx_exact_print(1);
  const char *v[5] = { "pscm", a, b, c, nullptr };
  int n = 1; while (v[n]) n++;
  return pscm_main(n, (char **)v);
}
struct Form { const char *text, *shown; };
static const Form forms[] = {
  { "@", "@\n" },
  { "\"@x\"", "\"@x\"\n" },
  { "(define v @)", "" },
  { "(display @)", "@" },
  { "(car @)", "" },
  { "(throw 'k @)", "" },
  { "'(a \"@\" #t)", "(a \"@\" #t)\n" },
  { "(begin (display \"w\") (car @))", "w" },
  { "(begin (display \"w@\") @)", "w@@\n" },
  { "undefined-thing@", "" },
  { "(if #f @)", "" },
};
enum { NFORM = sizeof forms / sizeof *forms };
static bool shown() {
  size_t n; const char *d = sx_stdout_data(&n);
  if ((int)n != wl) return false;
  bool same = true;
  for (int i = 0; i < wl; i++) same &= d[i] == want[i];
  return same;
}
H(script) {
  int k = sx_param("thorough", 0) ? 3 : 2, n = 1 + choose(k, "n");
  static const char *const sep[] = { "\n", " ", " ; c ( \" \n", "\n\n" };
  int sp = choose(4, "separator");
  fl = wl = 0;
  for (int i = 0; i < n; i++) {
    char b[8]; snprintf(b, 8, "f%d", i); int f = choose(NFORM, b);
    snprintf(b, 8, "d%d", i); char d = (char)('0' + symrange(b, 0, 9));
    put(file, fl, forms[f].text, d); put(want, wl, forms[f].shown, d);
    fput(sep[sp]);
  }
  fput("'end"); if (choose(2, "newline")) fput("\n");
  wput("end\n");
  sx_vfile("s.scm", file, fl);
  sx_capture_stdout(1);
  int how = choose(3, "how");
  int rc = how == 0 ? run("s.scm") : how == 1 ? run("-s", "s.scm") : run("--test", "s.scm");
 
  CHECK(rc == 0, "the script was run");
  CHECK(shown(), "the values and the output of every form, in order, and nothing else");
  REACH("end");
}
// definitions and assignments made before an error stay made
H(state) {
  int64_t a = symrange("a", -1000, 1000), b = symrange("b", -1000, 1000);
  defn("ga", a); defn("gb", b);
  fl = 0;
  fput("(define x ga)\n(define (f y) (set! x (+ x y)) (if (> x gb) (car 'x)) x)\n(f 1)\n(f 2)\n(begin (set! x (* 2 x)) (throw 'stop))\n(define z x)\n");
  sx_vfile("s.scm", file, fl);
  sx_capture_stdout(1); int rc = run("s.scm");
  CHECK(rc == 0 && isnumv(ev("z"), 2 * (a + 3)), "the effects of all forms, up to the error in each");
  REACH("end");
}
H(exits) {
  int code = choose(4, "code"), f = choose(NFORM, "f");
  static const int codes[] = { 0, 1, 7, 255 };
  fl = 0;
  put(file, fl, forms[f].text, '5');
  char b[64]; snprintf(b, 64, "\n(define (f) (exit %d))\n(+ 1 (f))\n(exit 99)\n", codes[code]); fput(b);
  sx_vfile("s.scm", file, fl);
  sx_expect_exit(codes[code]);
  REACH("end");
  run("s.scm");
  CHECK(false, "exit ends the process");
}
H(arguments) {
  static const char *const w[] = { "-s", "--test", "good.scm", "missing.scm", "bad.scm", nullptr };
  sx_vfile("good.scm", "'good\n", 6);
  static const char *const bad[] = { "'good (", "'good \"abc", "'good )", "(good" };
  const char *bt = bad[choose(4, "bad")];
  sx_vfile("bad.scm", bt, strlen(bt));
  int x[3]; x[0] = choose(5, "a"); x[1] = choose(6, "b"); x[2] = x[1] < 5 ? choose(6, "c") : 5;
  // reference: -s and --test take the next word as the file; exactly one file
  const char *name = nullptr; bool ok = true;
  for (int i = 0; i < 3 && x[i] < 5 && ok; i++) {
    const char *f = w[x[i]];
    if (x[i] < 2) { if (i < 2 && x[i + 1] < 5) f = w[x[++i]]; else { ok = false; break; } }
    if (name) ok = false;
    name = f;
  }
  wl = 0;
  if (ok && !strcmp(name, "good.scm")) wput("good\n"); else ok = false;
  sx_capture_stdout(1); int rc = run(w[x[0]], w[x[1]], w[x[2]]);
  if (ok) { CHECK(rc == 0, "one file is run"); CHECK(shown(), "its value"); }
  else {
    CHECK(rc != 0, "a wrong command line, a missing or a malformed file is reported by the exit status");
    size_t n; const char *d = sx_stdout_data(&n);
    CHECK(n < 5 || memcmp(d, "good\n", 5), "nothing of a malformed file is run");
  }
  REACH("end");
}
// ---- the interactive loop
static const Form pieces[] = {      // text, values shown (a comma after each)
  { "@\n", "@," },
  { "(+ @ 1 -1)\n", "@," },
  { "(+ 0\n@)\n", "@," },
  { "'(@ ; c ) ( \" \\\n @)\n", "(@ @)," },
  { "(string-length \"a(\nb;\")\n", "5," },
  { "@ (list @ 2)\n", "@,(@ 2)," },
  { "(car @)\n", "" },
  { "(begin (define v @)\n\n v)\n", "@," },
  { "; ( \" comment @\n", "" },
  { ")\n", "" },
  { "(if (eq? #\\( #\\a) 0 @)\n", "@," },
  { "(string-length \"\\\"(\\\\@\")\n", "4," },
  { "\n", "" },
  { "(throw 'a @)\n", "" },
  { "(eq? #\\; #\\;) ; @\n", "#t," },
  { "  \t@ ; )\n", "@," },
  { "(car '()) @\n", "@," },
  { "(if (eq? #\\\" #\\)) 0 (quote ; \"\n @\n))\n", "@," },
};
enum { NPIECE = sizeof pieces / sizeof *pieces };
static char got[512]; static int gl;
// the text after each " --> ", up to the end of the line
static void values() {
  size_t n; const char *d = sx_stdout_data(&n); gl = 0;
  for (size_t i = 0; i + 5 <= n; i++) {
    if (memcmp(d + i, " --> ", 5)) continue;
    for (i += 5; i < n && d[i] != '\n'; i++) got[gl++] = d[i];
    got[gl++] = ',';
  }
}
static bool same_values() {
  if (gl != wl) return false;
  bool same = true;
  for (int i = 0; i < wl; i++) same &= got[i] == want[i];
  return same;
}
static void session() {
  sx_exact_print(1);
  sx_stdin_set(file, fl);
  sx_capture_stdout(1); repl();
  values();
}
H(repl) {
  int k = sx_param("thorough", 0) ? 3 : 2, n = 1 + choose(k, "n");
  fl = wl = 0;
  for (int i = 0; i < n; i++) {
    char b[8]; snprintf(b, 8, "p%d", i); int p = choose(NPIECE, b);
    snprintf(b, 8, "d%d", i); char d = (char)('0' + symrange(b, 0, 9));
    put(file, fl, pieces[p].text, d); put(want, wl, pieces[p].shown, d);
  }
  if (choose(2, "sentinel")) { fput("(list 4 2)"); wput("(4 2),"); if (choose(2, "newline")) fput("\n"); }
  session();
  CHECK(same_values(), "the value of every expression, in order, whatever came before");
  REACH("end");
}
H(repl_bytes) {
  int n = sx_param("thorough", 0) ? 3 : 2;
  fl = 0;
  for (int i = 0; i < n; i++) { char b[8]; snprintf(b, 8, "c%d", i); unsigned char c = sym8(b); ASSUME((c != 0) & (c < 128)); file[fl++] = c; }
  fput("\n");
  session();
  fl = wl = 0; fput("(+ 40 2)\n"); wput("42,");
  session();
  CHECK(same_values(), "the interpreter is usable after any input");
  REACH("end");
}
H(repl_long) {
  static char big[4200];
  int len = 4094 + choose(6, "len"), kind = choose(3, "kind");
  char d = (char)('0' + symrange("d", 0, 9));
  int i = 0;
  if (kind == 0) { for (; i < len - 1; i++) big[i] = ' '; big[i++] = d; }
  else if (kind == 1) { big[i++] = '\''; big[i++] = '('; for (; i < len - 2; i++) big[i] = ' '; big[i++] = d; big[i++] = ')'; }
  else { big[i++] = d; big[i++] = ';'; for (; i < len; i++) big[i] = '('; }
  if (choose(2, "newline")) big[i++] = '\n';
  wl = 0; put(want, wl, kind == 1 ? "(@)," : "@,", d);
  sx_exact_print(1);
  sx_stdin_set(big, i);
  sx_capture_stdout(1); repl();
  values();
  CHECK(same_values(), "lines of any length");
  REACH("end");
}
// what one expression does is seen by the next ones, errors included
H(repl_state) {
  int64_t a = symrange("a", -1000, 1000); defn("ga", a);
  fl = wl = 0;
  fput("(define x ga)\n(begin (set! x (+ x 1))\n(car 'x))\n(begin (set! x (* x 2)) (throw 'a))\n(define (f)\n (set! x (- x 3))\n x)\n(f) (f)\n)\n");
  session();
  CHECK(isnumv(ev("x"), (a + 1) * 2 - 6), "the effects of every expression");
  REACH("end");
}
