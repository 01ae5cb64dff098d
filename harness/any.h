// A Scheme value of undecided type: the type tag is symbolic and the payload depends on it, so the
// solver splits on a type exactly where the code under test asks about it.
#pragma once
#include "sx.h"
#define ANYK 21
struct AnyParts { S v[ANYK]; int n; };
static int any_few; // 1: concrete type, integers from a small set (loops over the value, number formatting); 2: one integer
static int64_t any_int(const char *nm) {
  char t[40]; snprintf(t, 40, "%s_int", nm);
  if (!any_few) return sym64(t);
  if (any_few == 2) return 5;
  static const int64_t X[] = { 0, 1, 3, -1, INT32_MAX, (int64_t)1 << 31, (int64_t)1 << 32, (int64_t)1 << 60, (int64_t)1 << 61, INT64_MAX, INT64_MIN };
  return X[choose(11, t)];
}
// alternatives: one object per type
static S any_of(const char *nm, S *alt, int n) {
  char t[40]; snprintf(t, 40, "%s_type", nm);
  if (any_few) { int k = choose(n + 1, t); return k < n ? alt[k] : mknum(any_int(nm)); }
  int64_t num = any_int(nm);
  S s = mknum(num);
  int64_t k = symrange(t, 0, n);     // n: the number
  uint64_t ty = (uint64_t)SCM::NUM, val = (uint64_t)num;
  for (int i = 0; i < n; i++) {
    uint64_t m = 0 - (uint64_t)(k == i);
    ty = (ty & ~m) | ((uint64_t)alt[i]->type & m);
    val = (val & ~m) | ((uint64_t)alt[i]->value & m);
  }
  int32_t t32 = (int32_t)ty;
  memcpy(&s->type, &t32, 4);
  s->value = (void *)val;
  return s;
}
static S eval_q(const char *p) { S r = ev(p); if (!r) sx_kill(p); return r; }
// every type the language has
static S any(const char *nm, int depth = 0) {
  S a[ANYK]; int n = 0;
  char t[40];
  a[n++] = scm_nil();
  if (depth > 0) {
    snprintf(t, 40, "%sA", nm); S x = any(t, depth - 1);
    snprintf(t, 40, "%sB", nm); S y = any(t, depth - 1);
    S l2[2] = { x, y };
    a[n++] = list_of(l2, 2);
    a[n++] = apply("vector", l2, 2);
  } else {
    S l1[1] = { mksym("q") };
    a[n++] = scm_cons(mknum(1), choose(2, "dotted") ? mknum(2) : list_of(l1, 1));
    a[n++] = ev("(vector 1 'q)");
  }
  a[n++] = ev("(lambda (z) z)");
  a[n++] = ev("car");
  a[n++] = mkflo(2.5);
  snprintf(t, 40, "%s_char", nm); a[n++] = mkchr(sym8(t));
  a[n++] = mkbool(false);
  a[n++] = mksym("s");
  a[n++] = mkstr("a1", 2);
  a[n++] = ev("(let ((h (make-hash-table 3))) (hash-set! h 's 1) h)");
  a[n++] = ev("(/ 1 2)");
  a[n++] = ev("(open-input-string \"a(\")");
  a[n++] = ev("(delay 1)");
  a[n++] = ev("(current-module)");
  a[n++] = scm_none();
  a[n++] = scm_make_variable(mknum(3));
  a[n++] = ev("(call/cc (lambda (k) k))");
  for (int i = 0; i < n; i++) if (!a[i]) sx_kill("any: alternative");
  return any_of(nm, a, n);
}
