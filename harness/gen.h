// Symbolic data generator: builds a Scheme value and an independent model of it.
#pragma once
#include "sx.h"
struct M {
  enum K { INT, FLO, CHR, BOO, NIL_, STR_, SYM_, PAIR, VEC, RAT } k;
  int64_t i; // INT value, FLO value*2, CHR, BOO, RAT numerator*2 (denominator 2)
  int n;
  unsigned char b[8];
  M *a[4];
};
static M g_m[256];
static int g_nm;
// kinds: how many of the kinds below may be chosen; atoms only at depth 0
static M *gen(const char *nm, int depth, int natoms = 8) {
  M *m = &g_m[g_nm++];
  char t[40];
  snprintf(t, 40, "%s_k", nm);
  static const M::K order[] = {M::INT, M::SYM_, M::STR_, M::CHR, M::BOO, M::NIL_, M::FLO, M::RAT, M::PAIR, M::VEC};
  int c = choose(natoms + (depth > 0 ? 2 : 0), t);
  m->k = c < natoms ? order[c] : order[8 + c - natoms];
  switch (m->k) {
  case M::INT: m->i = sym64(nm); break;
  case M::FLO: m->i = symrange(nm, -8, 8); break;
  case M::RAT: m->i = symrange(nm, -8, 8); ASSUME(m->i & 1); break;
  case M::CHR: m->i = sym8(nm); break;
  case M::BOO: m->i = symrange(nm, 0, 1); break;
  case M::NIL_: break;
  case M::STR_: case M::SYM_:
    snprintf(t, 40, "%s_n", nm);
    m->n = choose(2, t) + (m->k == M::SYM_);
    for (int i = 0; i < m->n; i++) {
      snprintf(t, 40, "%s_b%d", nm, i);
      m->b[i] = sym8(t);
      if (m->k == M::SYM_) ASSUME(m->b[i] >= 'a' && m->b[i] <= 'z');
    }
    break;
  case M::PAIR:
    snprintf(t, 40, "%sA", nm); m->a[0] = gen(t, depth - 1, natoms);
    snprintf(t, 40, "%sD", nm); m->a[1] = gen(t, depth - 1, natoms);
    break;
  case M::VEC:
    snprintf(t, 40, "%s_n", nm); m->n = choose(3, t);
    for (int i = 0; i < m->n; i++) { snprintf(t, 40, "%sV%d", nm, i); m->a[i] = gen(t, depth - 1, natoms); }
    break;
  }
  return m;
}
static S build(M *m) {
  switch (m->k) {
  case M::INT: return mknum(m->i);
  case M::FLO: return mkflo((double)m->i / 2);
  case M::RAT: { S v[2] = {mknum(m->i), mknum(2)}; return apply("/", v, 2); }
  case M::CHR: return mkchr((unsigned char)m->i);
  case M::BOO: return m->i ? scm_bool_true() : scm_bool_false();
  case M::NIL_: return scm_nil();
  case M::STR_: return mkstr((char *)m->b, m->n);
  case M::SYM_: return create_sym((char *)m->b, m->n);
  case M::PAIR: { S a = build(m->a[0]); return scm_cons(a, build(m->a[1])); }
  default: {
    S v[4];
    for (int i = 0; i < m->n; i++) v[i] = build(m->a[i]);
    return apply("vector", v, m->n);
  }
  }
}
static bool bytes_same(M *x, M *y) {
  if (x->n != y->n) return false;
  bool e = true;
  for (int i = 0; i < x->n; i++) e &= x->b[i] == y->b[i];
  return e;
}
static bool isnumk(M *x) { return x->k == M::INT || x->k == M::FLO || x->k == M::RAT; }
// atoms: numeric value for numbers (the implementation's documented choice), contents otherwise
static bool atom_same(M *x, M *y) {
  if (x->k == M::INT && y->k == M::INT) return x->i == y->i;
  if (isnumk(x) && isnumk(y)) {
    ASSUME(!(x->k == M::RAT && y->k == M::FLO) && !(x->k == M::FLO && y->k == M::RAT)); // left open
    // comparing value*2: an INT beyond the small range cannot equal a half-integer in [-4,4]
    i128 p = x->k == M::INT ? I(x->i) * 2 : I(x->i), q = y->k == M::INT ? I(y->i) * 2 : I(y->i);
    return p == q;
  }
  if (x->k != y->k) return false;
  if (x->k == M::NIL_) return true;
  if (x->k == M::STR_ || x->k == M::SYM_) return bytes_same(x, y);
  return x->i == y->i;
}
static bool atomic(M *x) { return x->k != M::PAIR && x->k != M::VEC; }
static bool equal_m(M *x, M *y) {
  if (atomic(x) || atomic(y)) return atomic(x) && atomic(y) && atom_same(x, y);
  if (x->k != y->k) return false;
  if (x->k == M::PAIR) return equal_m(x->a[0], y->a[0]) && equal_m(x->a[1], y->a[1]);
  if (x->n != y->n) return false;
  for (int i = 0; i < x->n; i++) if (!equal_m(x->a[i], y->a[i])) return false;
  return true;
}
// does the value s have exactly the structure and atoms of the model?
static bool match_m(M *m, S s) {
  switch (m->k) {
  case M::INT: return isnumv(s, m->i);
  case M::FLO: return isflo(s) && flov(s) == (double)m->i / 2;
  case M::RAT: return israt(s) && ratn(s) == m->i && ratd(s) == 2;
  case M::CHR: return ischr(s) && chrv(s) == m->i;
  case M::BOO: return m->i ? isT(s) : isF(s);
  case M::NIL_: return isnil(s);
  case M::STR_: return isstr(s) && stris(s, (char *)m->b, m->n);
  case M::SYM_: return issym(s) && ((SCM_Symbol *)s->value)->len == m->n && memcmp(((SCM_Symbol *)s->value)->data, m->b, m->n) == 0;
  case M::PAIR: return is_pair(s) && match_m(m->a[0], car(s)) && match_m(m->a[1], cdr(s));
  default:
    if (!is_vector(s) || (int)((SCM_Vector *)s->value)->length != m->n) return false;
    for (int i = 0; i < m->n; i++) if (!match_m(m->a[i], ((SCM_Vector *)s->value)->elements[i])) return false;
    return true;
  }
}
