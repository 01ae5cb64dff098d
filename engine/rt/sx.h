// Harness interface.  The same harness source is compiled twice: to bitcode for
// the symbolic executor, and natively (linked with the real objects) to replay
// counterexamples and to validate sampled paths.
#pragma once
#include "pscm_api.h"
#include "throw.h"
#include "eval.h"
#include <stdint.h>
#include <string.h>

extern "C" {
void sx_sym_(void *p, size_t n, const char *name);
int sx_choose_(int n, const char *name);
void sx_assume_(long c);
void sx_assert_(long c, const char *label);
void sx_reach(const char *label);
int sx_select(const void *table, long n);
long sx_conc_(long v);
void sx_obs_(const char *label, long v);
void sx_obsb_(const char *label, const void *p, long n);
void sx_expect_exit(int code);
long sx_param(const char *name, long dflt);
long sx_is_symbolic(long v);
void sx_kill(const char *why);
void sx_print_(const char *s, long v);
void sx_capture_stdout(int on);
const char *sx_stdout_data(size_t *n);
void sx_stdin_set(const char *d, size_t n);
void sx_vfile(const char *name, const char *data, size_t n);
void sx_exact_print(int on);
}
typedef SCM *S;
struct SxEntry { const char *name; void (*fn)(); };
extern SxEntry g_sx_table[512];
extern int g_sx_n;
struct SxReg { SxReg(const char *n, void (*f)()) { g_sx_table[g_sx_n].name = n; g_sx_table[g_sx_n].fn = f; g_sx_n++; } };
#define H(name) static void H_##name(); static SxReg R_##name(#name, H_##name); static void H_##name()

#define REACH(l) sx_reach(l)
#define ASSUME(c) sx_assume_((long)(bool)(c))
#define CHECK(c, l) sx_assert_((long)(bool)(c), l)

static inline int64_t sym64(const char *n) { int64_t v; sx_sym_(&v, 8, n); return v; }
static inline int32_t sym32(const char *n) { int32_t v; sx_sym_(&v, 4, n); return v; }
static inline unsigned char sym8(const char *n) { unsigned char v; sx_sym_(&v, 1, n); return v; }
// lo <= v <= hi without forking
static inline int64_t symrange(const char *n, int64_t lo, int64_t hi) {
  int64_t v;
  if (lo >= -128 && hi <= 127) { signed char c; sx_sym_(&c, 1, n); v = c; }
  else if (lo >= -32768 && hi <= 32767) { short c; sx_sym_(&c, 2, n); v = c; }
  else if (lo >= INT32_MIN && hi <= INT32_MAX) { int c; sx_sym_(&c, 4, n); v = c; }
  else v = sym64(n);
  sx_assume_((long)((v >= lo) & (v <= hi)));
  return v;
}
static inline int choose(int n, const char *name) { return sx_choose_(n, name); }

// ---- building Scheme values (through the library's own constructors)
static inline S mknum(int64_t v) { S s = long_to_scm(0); s->value = (void *)v; return s; }
static inline S mkflo(double d) { return scm_from_double(d); }
static inline S mkchr(unsigned char c) { return scm_from_char((char)c); }
static inline S mkstr(const char *p, int n) { return scm_from_c_string(p, n); }
static inline S mkbool(bool b) { return b ? scm_bool_true() : scm_bool_false(); }
static inline S mksym(const char *p) { return create_sym(p, (int)strlen(p)); }
static inline void def(const char *n, S v) { pscm_c_define(n, v); }
static inline void defn(const char *n, int64_t v) { pscm_c_define(n, mknum(v)); }

// ---- evaluating a concrete program over symbolically-valued variables
S ev(const char *code);       // NULL when the evaluation raised an error
bool sx_err(const char *key); // last ev() failed with this key

// ---- observing results
static inline bool isnum(S v) { return v && v->type == SCM::NUM; }
static inline int64_t numv(S v) { return (int64_t)v->value; }
static inline bool isflo(S v) { return v && v->type == SCM::FLOAT; }
static inline double flov(S v) { return ptr_to_double(v->value); }
static inline bool isT(S v) { return v && v->type == SCM::BOOL && v->value != nullptr; }
static inline bool isF(S v) { return v && v->type == SCM::BOOL && v->value == nullptr; }
static inline bool isboolv(S v) { return v && v->type == SCM::BOOL; }
static inline bool ischr(S v) { return v && v->type == SCM::CHAR; }
static inline unsigned char chrv(S v) { return (unsigned char)ptr_to_char(v->value); }
static inline bool isstr(S v) { return v && v->type == SCM::STR; }
static inline int strl(S v) { return ((SCM_String *)v->value)->len; }
static inline const char *strd(S v) { return ((SCM_String *)v->value)->data; }
static inline bool issym(S v) { return v && v->type == SCM::SYM; }
static inline bool isnil(S v) { return v && v->type == SCM::NIL; }
static inline bool issymn(S v, const char *n) {
  if (!issym(v)) return false;
  SCM_Symbol *s = (SCM_Symbol *)v->value;
  int l = (int)strlen(n);
  return s->len == l && memcmp(s->data, n, l) == 0;
}
static inline bool israt(S v) { return v && v->type == SCM::RATIO; }
static inline int64_t ratn(S v) { return ((SCM_Rational *)v->value)->numerator; }
static inline int64_t ratd(S v) { return ((SCM_Rational *)v->value)->denominator; }
static inline bool isnumv(S v, int64_t n) { return isnum(v) & (isnum(v) ? numv(v) == n : false); }
// proper list of length n (read through car/cdr on the real structure)
int lenof(S v);               // -1 when v is not a proper list (bounded at 64)
S nth(S v, int i);
bool stris(S v, const char *p, int n);
bool stris(S v, const char *p);
// ev() of a printf-style built program
S evf(const char *fmt, ...);
// apply a procedure (by name) to a C array of values, through the evaluator
S apply(const char *fn, S *args, int n);
static inline S list_of(S *v, int n) { S l = scm_nil(); for (int i = n - 1; i >= 0; i--) l = scm_cons(v[i], l); return l; }
typedef __int128 i128;
static inline i128 I(int64_t v) { return (i128)v; }
static inline bool fits(i128 v) { return (v >= -((i128)1 << 63)) & (v < ((i128)1 << 63)); }
