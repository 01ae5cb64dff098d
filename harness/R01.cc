// The reader.
// @bound texts: every text of up to 3 (quick) / 4 (thorough) bytes 1..126, and of 2 arbitrary bytes inside 9 contexts (string, character, list, vector, quote, number, comment, #{}#, nested); integer literals of up to 20 digits; strings of up to 4 source bytes; data nested to depth 2 with arbitrary separators
// @bound outside: nesting deeper than the C stack, real literals other than 8 concrete ones
// @quick_timeout 150
// @param_thorough n=4 ctx=2 depth=2
#include "sx.h"
static void buf_def(const unsigned char *b, int n) { def("s", mkstr((const char *)b, n)); }
static S rd() { return ev("(call-with-input-string s read)"); }
// reading never breaks the reader: afterwards everything still reads as before
static void sane() {
  CHECK(isT(ev("(equal? '(1 (\"a\" . #\\b) #(c)) (list 1 (cons \"a\" #\\b) (vector 'c)))")), "reader still works");
}
static unsigned char byte(const char *nm) { unsigned char c = sym8(nm); ASSUME((c >= 1) & (c < 127)); return c; }
// any text: a datum or an error, nothing else
H(bytes) {
  int n = (int)sx_param("n", 3);
  n = choose(n, "n") + 1;
  char b[8];
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "b%d", i); b[i] = (char)byte(nm); }
  b[n] = 0;
  pscm_parse(b);
  sane();
  REACH("end");
}
H(context) {
  static const char *C[] = {"\"%s\"", "#\\%s", "(%s)", "#(a %s)", "'%s", "-1%s", "; %s\n5", "#{%s}#", "((a) . %s)", "(a %s b"};
  int c = choose(10, "ctx");
  char t[3], b[32];
  for (int i = 0; i < 2; i++) { char nm[8]; snprintf(nm, 8, "b%d", i); t[i] = (char)byte(nm); }
  t[2] = 0;
  const char *f = C[c];
  int o = 0;
  for (; *f; f++) if (*f == '%') { b[o++] = t[0]; b[o++] = t[1]; f++; } else b[o++] = *f;
  b[o] = 0;
  S r = pscm_parse(b);
  if (c == 6 && t[0] != '\n' && t[1] != '\n') CHECK(isnumv(r, 5), "comments are skipped");
  if (c == 9 && t[0] != ')' && t[1] != ')') CHECK(!r, "an unterminated list is an error");
  sane();
  REACH("end");
}
// integer literals denote their value; out of range is an error
H(integers) {
  int sign = choose(3, "sign"), n = choose(20, "n") + 1;
  ASSUME(n <= 3 || n >= 18);
  char b[32]; int o = 0;
  if (sign) b[o++] = sign == 1 ? '-' : '+';
  i128 v = 0;
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "d%d", i);
    int d;
    if (n > 3 && i >= 2 && i < n - 3) d = "922337203685477580799"[i + (n < 19)] - '0'; // the boundary digits
    else d = (int)symrange(nm, 0, 9);
    b[o++] = (char)('0' + d);
    v = v * 10 + d;
  }
  if (sign == 1) v = -v;
  b[o] = 0;
  S r = pscm_parse(b);
  if (fits(v)) CHECK(isnumv(r, (int64_t)v), "value of an integer literal");
  else CHECK(!r, "literal out of range is an error");
  REACH("end");
}
H(reals) {
  static const char *T[] = {"1.5", "-0.25", "1e3", "12.5e-1", "+2.0", "1.", "-1e2", "100.125"};
  static const double D[] = {1.5, -0.25, 1000, 1.25, 2, 1, -100, 100.125};
  int i = choose(8, "i");
  S r = pscm_parse(T[i]);
  CHECK(isflo(r), "a real");
  CHECK(flov(r) == D[i], "value of a real literal");
  REACH("end");
}
// string literals: escapes
H(strings) {
  int n = choose(5, "n");
  char src[24], want[8]; int o = 0;
  src[o++] = '"';
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "e%d", i);
    int e = choose(n > 2 && !sx_param("thorough", 0) ? 2 : 4, nm);
    snprintf(nm, 8, "b%d", i);
    if (e == 0) { unsigned char c = byte(nm); ASSUME((c != '"') & (c != '\\')); src[o++] = (char)c; want[i] = (char)c; }
    else if (e == 1) { // \ooo as produced by write
      int v = (int)symrange(nm, 0, 127);
      src[o++] = '\\'; src[o++] = (char)('0' + (v >> 6)); src[o++] = (char)('0' + ((v >> 3) & 7)); src[o++] = (char)('0' + (v & 7));
      want[i] = (char)v;
    } else if (e == 2) { static const char f[] = "ntr\\\"", t[] = "\n\t\r\\\""; int k = choose(5, nm); src[o++] = '\\'; src[o++] = f[k]; want[i] = t[k]; }
    else { unsigned char c = byte(nm); ASSUME((c != 'n') & (c != 't') & (c != 'r') & !((c >= '0') & (c <= '9'))); src[o++] = '\\'; src[o++] = (char)c; want[i] = (char)c; }
  }
  src[o++] = '"'; src[o] = 0;
  S r = pscm_parse(src);
  CHECK(isstr(r), "a string");
  CHECK(stris(r, want, n), "contents of a string literal");
  REACH("end");
}
// characters: every character is denoted by itself, named characters by their name in any case
H(chars) {
  unsigned char c = byte("c");
  char b[8] = {'#', '\\', (char)c, 0};
  S r = pscm_parse(b);
  CHECK(ischr(r), "a character");
  CHECK(chrv(r) == c, "value of a character literal");
  b[3] = ' '; b[4] = 'x'; b[5] = ')'; b[6] = 0;
  char l[16]; snprintf(l, 16, "("); memcpy(l + 1, b, 7);
  r = pscm_parse(l);
  CHECK(lenof(r) == 2, "a character in a list");
  CHECK(chrv(nth(r, 0)) == c && issymn(nth(r, 1), "x"), "elements");
  REACH("end");
}
H(named) {
  static const char *N[] = {"space", "newline", "tab", "ht", "nul"};
  static const int V[] = {' ', '\n', '\t', '\t', 0};
  int i = choose(5, "i");
  char b[16] = {'#', '\\'};
  int n = (int)strlen(N[i]);
  for (int j = 0; j < n; j++) { char nm[8]; snprintf(nm, 8, "u%d", j); b[2 + j] = N[i][j] - (choose(2, nm) ? 32 : 0); }
  S r = pscm_parse(b);
  CHECK(ischr(r), "a character");
  CHECK(chrv(r) == V[i], "named character");
  REACH("end");
}
// symbols: the characters of the token
H(symbols) {
  int n = choose(3, "n") + 1;
  char b[8];
  for (int i = 0; i < n; i++) {
    char nm[8]; snprintf(nm, 8, "b%d", i);
    unsigned char c = byte(nm);
    bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
    bool ex = c == '!' || c == '$' || c == '%' || c == '&' || c == '*' || c == '/' || c == ':' || c == '<' || c == '=' || c == '>' || c == '?' || c == '^' || c == '_' || c == '~';
    bool dg = i > 0 && ((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == '@');
    ASSUME(al || ex || dg);
    b[i] = (char)c;
  }
  b[n] = 0;
  S r = pscm_parse(b);
  CHECK(issym(r), "a symbol");
  CHECK(issymn(r, b), "name of a symbol");
  REACH("end");
}
// structured data with arbitrary separators between the tokens
struct T { int k; int64_t v; int n, tail; T *a[3]; };
static T tn[64]; static int ntn;
static char out[256]; static int on;
static int nsep, free_sep;
static void lit(const char *s) { while (*s) out[on++] = *s++; }
static void sep(bool must) {
  static const char *S_[] = {" ", "\n", "\t", " ; c ) \" (\n", ";\n", "  "};
  char nm[12]; snprintf(nm, 12, "sep%d", nsep++);
  if (nsep > free_sep) { if (must) lit(" "); return; } // only the first separators are free
  int k = choose(must ? 5 : 6, nm);
  if (!must && k == 5) return;
  lit(k == 4 && must ? " ;\n" : S_[k]);
}
// kinds: 0 int 1 symbol 2 string 3 char 4 nil 5 bool | 6 list 7 vector 8 quote
static T *gen(const char *nm, int depth) {
  T *t = &tn[ntn++];
  char b[40]; snprintf(b, 40, "%sk", nm);
  t->k = depth > 0 ? choose(5, b) : choose(6, b) + 3;
  if (depth > 0) t->k = (t->k + 5) % 9; // 5 6 7 8 0
  else if (t->k >= 6) t->k -= 6;
  switch (t->k) {
  case 0: { lit("-1"); t->v = -10 - symrange(nm, 0, 9); out[on++] = (char)('0' + (-t->v - 10)); break; }
  case 1: { unsigned char c = sym8(nm); ASSUME((c >= 'a') & (c <= 'z')); out[on++] = (char)c; t->v = c; break; }
  case 2: { unsigned char c = byte(nm); ASSUME((c != '"') & (c != '\\')); lit("\""); out[on++] = (char)c; lit("\""); t->v = c; break; }
  case 3: { unsigned char c = byte(nm); ASSUME(c > ' '); lit("#\\"); out[on++] = (char)c; t->v = c; break; }
  case 4: lit("("); sep(false); lit(")"); break;
  case 5: t->v = choose(2, nm); lit(t->v ? "#t" : "#f"); break;
  case 6: case 7: {
    lit(t->k == 7 ? "#(" : "(");
    sep(false);
    snprintf(b, 40, "%sn", nm); t->n = choose(2, b) + 1;
    snprintf(b, 40, "%sd", nm); t->tail = t->k == 6 && t->n == 2 ? choose(2, b) : 0;
    for (int i = 0; i < t->n; i++) {
      if (i) sep(true);
      if (t->tail && i == t->n - 1) { lit("."); sep(true); }
      snprintf(b, 40, "%s%d", nm, i); t->a[i] = gen(b, depth - 1);
    }
    sep(false);
    lit(")");
    break;
  }
  case 8: lit("'"); sep(false); snprintf(b, 40, "%sq", nm); t->a[0] = gen(b, depth - 1); break;
  }
  return t;
}
static bool match(T *t, S s) {
  switch (t->k) {
  case 0: return isnumv(s, t->v);
  case 1: return issym(s) && ((SCM_Symbol *)s->value)->len == 1 && ((SCM_Symbol *)s->value)->data[0] == (char)t->v;
  case 2: { char c = (char)t->v; return isstr(s) && stris(s, &c, 1); }
  case 3: return ischr(s) && chrv(s) == t->v;
  case 4: return isnil(s);
  case 5: return t->v ? isT(s) : isF(s);
  case 6:
    for (int i = 0; i < t->n; i++) {
      if (t->tail && i == t->n - 1) return match(t->a[i], s);
      if (!is_pair(s)) return false;
      if (!match(t->a[i], car(s))) return false;
      s = cdr(s);
    }
    return isnil(s);
  case 7: {
    if (!is_vector(s) || (int)((SCM_Vector *)s->value)->length != t->n) return false;
    for (int i = 0; i < t->n; i++) if (!match(t->a[i], ((SCM_Vector *)s->value)->elements[i])) return false;
    return true;
  }
  default: return lenof(s) == 2 && issymn(nth(s, 0), "quote") && match(t->a[0], nth(s, 1));
  }
}
static void data(int how) {
  ntn = on = nsep = 0; free_sep = sx_param("thorough", 0) ? 2 : 1;
  T *t = gen("d", (int)sx_param("depth", 1));
  int len = on;
  if (how == 0) {
    out[on] = 0;
    S r = pscm_parse(out);
    CHECK(r != nullptr, "reads");
    CHECK(match(t, r), "the datum denoted by the text");
  } else { // from a port, one datum after another
    int d = choose(3, "delim");
    lit(d == 0 ? " " : d == 1 ? "\n" : " ;x\n"); lit("(9)8");
    buf_def((unsigned char *)out, on);
    ev("(define p (open-input-string s))");
    S r = ev("(read p)");
    CHECK(r != nullptr, "reads");
    CHECK(match(t, r), "the datum read from a port");
    r = ev("(read p)");
    CHECK(lenof(r) == 1 && isnumv(nth(r, 0), 9), "the next datum");
    CHECK(isnumv(ev("(read p)"), 8), "the last datum");
    CHECK(isT(ev("(eof-object? (read p))")), "then the end of file");
  }
  (void)len;
  REACH("end");
}
H(text) { data(0); }
H(port) { data(1); }
// expressions of a file are read one after the other
H(file) {
  int a = choose(3, "a"), b = choose(3, "b");
  static const char *E[] = {"(define x 1)", "; c\n(set! x (+ x 2))", "'q"};
  char t[128];
  int n = snprintf(t, 128, "(define x 10)%s%s%s\n(set! x (* x 2))%s", a == 2 ? "" : " ", E[a], b ? "\n\n" : "", E[b]);
  int64_t x = 10;
  if (a == 0) x = 1; else if (a == 1) x += 2;
  x *= 2;
  if (b == 0) x = 1; else if (b == 1) x += 2;
  sx_vfile("prog.scm", t, n);
  SCM *r = pscm_eval_file("prog.scm");
  CHECK(r != nullptr, "loads");
  CHECK(isnumv(ev("x"), x), "all expressions in order");
  REACH("end");
}
// very long tokens and data
H(longer) {
  int n = choose(4, "n"); static const int L[] = {100, 4094, 4097, 9000};
  static char b[10000];
  int kind = choose(3, "kind");
  int o = 0;
  if (kind == 0) { b[o++] = '"'; while (o < L[n]) b[o++] = 'a'; b[o++] = '"'; }
  else if (kind == 1) { while (o < L[n]) b[o++] = 'a'; }
  else { b[o++] = '('; while (o < L[n]) { b[o++] = '1'; b[o++] = ' '; } b[o++] = ')'; }
  def("s", mkstr(b, o));
  S r = rd();
  CHECK(r != nullptr, "reads");
  if (kind == 0) CHECK(isstr(r) && strl(r) == L[n] - 1, "whole string");
  else if (kind == 1) CHECK(issym(r) && ((SCM_Symbol *)r->value)->len == L[n], "whole symbol");
  else { def("r", r); CHECK(isnumv(ev("(length r)"), (o - 2) / 2), "whole list"); }
  REACH("end");
}
