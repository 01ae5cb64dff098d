// The writer.
// @bound data: every value built from integers -9..9 (alone: -999..999, and 16 extreme ones), symbols, strings of up to 3 bytes (any byte), characters, booleans, (), halves as reals and fractions, pairs and vectors, nested to depth 2 (quick: 1, and 2 over fewer atom kinds); lists of up to 4 elements with quote forms and dotted tails
// @bound outside: circular data, real numbers needing more than 14 digits, symbols with characters outside a symbol, display of nested data
// @quick_timeout 200
// @param_thorough depth=2 atoms=8
#include "gen.h"
static void small_ints(M *m, int lim = 9) {
  if (m->k == M::INT) ASSUME((m->i >= -lim) & (m->i <= lim));
  else if (m->k == M::PAIR) { small_ints(m->a[0], lim); small_ints(m->a[1], lim); }
  else if (m->k == M::VEC) for (int i = 0; i < m->n; i++) small_ints(m->a[i], lim);
}
static S text(S v, const char *how) {
  def("v", v);
  return evf("(call-with-output-string (lambda (p) (%s v p)))", how);
}
static void trip(M *m) {
  S v = build(m);
  S t = text(v, "write");
  CHECK(isstr(t), "written");
  def("t", t);
  S r = ev("(call-with-input-string t read)");
  CHECK(r != nullptr, "what write prints can be read");
  CHECK(match_m(m, r), "reading gives back the datum");
  CHECK(match_m(m, v), "writing leaves the datum alone");
}
H(atoms) { sx_exact_print(1); M *m = gen("m", 0); small_ints(m, 999); trip(m); REACH("end"); }
H(nested1) { sx_exact_print(1); M *m = gen("m", 1, 6); small_ints(m); trip(m); REACH("end"); }
H(nested2) { sx_exact_print(1); int d = (int)sx_param("depth", 2); M *m = gen("m", d, (int)sx_param("atoms", 2)); small_ints(m); trip(m); REACH("end"); }
H(extremes) { sx_exact_print(1);
  static const int64_t EX[] = {0, 1, -1, 9, 10, -10, 99, 100, INT32_MAX, INT32_MIN, 4294967296ll, -4294967297ll, 1000000000000ll, INT64_MAX, INT64_MIN + 1, INT64_MIN};
  int64_t v = EX[choose(16, "v")];
  int how = choose(2, "how");
  def("t", text(mknum(v), how ? "write" : "display"));
  CHECK(isnumv(ev("(call-with-input-string t read)"), v), "integer reads back");
  CHECK(isnumv(ev("(string->number t)"), v), "integer is written as its numeral");
  REACH("end");
}
H(strings) { sx_exact_print(1);
  int n = choose(4, "n");
  char b[4];
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "b%d", i); b[i] = (char)sym8(nm); }
  S s = mkstr(b, n);
  S d = text(s, "display");
  CHECK(isstr(d) && stris(d, b, n), "display of a string is its contents");
  def("t", text(s, "write"));
  S r = ev("(call-with-input-string t read)");
  CHECK(isstr(r), "a string");
  CHECK(stris(r, b, n), "written string reads back");
  REACH("end");
}
H(chars) { sx_exact_print(1);
  char c = (char)sym8("c");
  S d = text(mkchr((unsigned char)c), "display");
  CHECK(isstr(d) && stris(d, &c, 1), "display of a character is that character");
  S l[3] = {mkchr((unsigned char)c), mksym("x"), mkchr((unsigned char)c)};
  def("t", text(list_of(l, 3), "write"));
  S r = ev("(call-with-input-string t read)");
  CHECK(lenof(r) == 3, "list");
  CHECK(ischr(nth(r, 0)) && chrv(nth(r, 0)) == (unsigned char)c, "character followed by another datum");
  CHECK(issymn(nth(r, 1), "x"), "the datum after a character");
  CHECK(ischr(nth(r, 2)) && chrv(nth(r, 2)) == (unsigned char)c, "character before a parenthesis");
  REACH("end");
}
// lists made by the list procedures (not pair by pair), with any tail, and quotation forms
H(lists) { sx_exact_print(1);
  int n = choose(5, "n"), tail = choose(4, "tail"); // () | atom | list | quotation
  if (n == 0) ASSUME(tail == 0);
  int q = choose(5, "q"), at = n ? choose(n, "at") : 0;
  static const char *Q[] = {nullptr, "quote", "quasiquote", "unquote", "unquote-splicing"};
  S e[4]; int64_t v[4];
  for (int i = 0; i < n; i++) { char nm[8]; snprintf(nm, 8, "v%d", i); v[i] = symrange(nm, -9, 9); e[i] = mknum(v[i]); }
  if (n && q) e[at] = mksym(Q[q]);
  S tl = tail == 1 ? mksym("z") : tail == 2 ? list_of(e, 1) : ev("'(quote y)");
  S l = list_of(e, n);
  if (tail) { S a[2] = {l, tl}; l = apply("append", a, 2); }
  def("t", text(l, "write"));
  S r = ev("(call-with-input-string t read)");
  CHECK(r != nullptr, "reads");
  for (int i = 0; i < n; i++) {
    CHECK(is_pair(r), "element");
    if (q && i == at) CHECK(issymn(car(r), Q[q]), "quotation keyword");
    else CHECK(isnumv(car(r), v[i]), "element value");
    r = cdr(r);
  }
  if (tail == 0) CHECK(isnil(r), "proper");
  else if (tail == 1) CHECK(issymn(r, "z"), "dotted");
  else if (tail == 2) { CHECK(lenof(r) == 1, "list tail"); if (!(q && at == 0)) CHECK(isnumv(car(r), v[0]), "tail element"); }
  else { CHECK(lenof(r) == 2, "quotation tail"); CHECK(issymn(car(r), "quote") && issymn(nth(r, 1), "y"), "quotation tail contents"); }
  REACH("end");
}
// quotation forms nested in one another read back
H(quotes) { sx_exact_print(1);
  static const char *Q[] = {"quote", "quasiquote", "unquote", "unquote-splicing", "other"};
  int d = choose(3, "d") + 1;
  int q[3];
  S v = mknum(5);
  for (int i = 0; i < d; i++) {
    char nm[8]; snprintf(nm, 8, "q%d", i); q[i] = choose(5, nm);
    S e[2] = {mksym(Q[q[i]]), v};
    v = list_of(e, 2);
  }
  int wrap = choose(2, "wrap");
  if (wrap) v = list_of(&v, 1);
  def("t", text(v, "write"));
  S r = ev("(call-with-input-string t read)");
  if (wrap) { CHECK(lenof(r) == 1, "wrapped"); r = car(r); }
  for (int i = d - 1; i >= 0; i--) {
    CHECK(lenof(r) == 2, "form");
    CHECK(issymn(car(r), Q[q[i]]), "keyword");
    r = nth(r, 1);
  }
  CHECK(isnumv(r, 5), "datum");
  REACH("end");
}
// display of atoms
H(display) { sx_exact_print(1);
  static const char *E[] = {"#t", "#f", "()", "abc", "-17", "#(1 2)", "(1 2)", "(a . 5)", "1.5", "2.0", "1/2", "(1 (2 (3)) . 4)", "#()", "(#t . #f)"};
  int i = choose(14, "i");
  def("s", mkstr(E[i], (int)strlen(E[i])));
  def("v", ev("(call-with-input-string s read)"));
  S t = evf("(call-with-output-string (lambda (p) (%s v p)))", choose(2, "how") ? "write" : "display");
  CHECK(isstr(t) && stris(t, E[i]), "external representation");
  REACH("end");
}
// the same text reaches a port, the current output and standard output
H(same_text) { sx_exact_print(1);
  M *m = gen("m", 1, 4);
  small_ints(m);
  S v = build(m);
  const char *how = choose(2, "how") ? "write" : "display";
  S a = text(v, how);
  S b = evf("(with-output-to-string (lambda () (%s v)))", how);
  sx_capture_stdout(1);
  evf("(%s v)", how);
  size_t n; const char *o = sx_stdout_data(&n);
  sx_capture_stdout(0);
  CHECK(isstr(a), "text");
  CHECK((size_t)strl(a) == n && memcmp(strd(a), o, n) == 0, "standard output gets the text");
  if (b) CHECK(isstr(b) && (size_t)strl(b) == n && memcmp(strd(b), o, n) == 0, "redirected output gets the text");
  REACH("end");
}
