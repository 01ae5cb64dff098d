#include "sx.h"
SxEntry g_sx_table[512];
int g_sx_n;
static bool g_lastErr;
// main.cc defines it; the REPL calls it
SCM *eval(SCM *ast) { return pscm_eval(ast); }
S ev(const char *code) {
  S r = pscm_eval_string(code);
  g_lastErr = r == nullptr;
  if (!r) sx_obs_("ev", -1);
  else {
    sx_obs_("ev", (long)r->type);
    if (r->type == SCM::NUM || r->type == SCM::FLOAT || r->type == SCM::CHAR) sx_obs_("val", (long)r->value);
    else if (r->type == SCM::BOOL) sx_obs_("bool", r->value != nullptr);
    else if (r->type == SCM::STR) sx_obsb_("str", strd(r), strl(r));
  }
  return r;
}
#include <stdarg.h>
S evf(const char *fmt, ...) {
  char *buf = (char *)malloc(8192);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, 8192, fmt, ap);
  va_end(ap);
  return ev(buf);
}
S apply(const char *fn, S *args, int n) {
  def("sx-args", list_of(args, n));
  return evf("(apply %s sx-args)", fn);
}
bool sx_err(const char *key) {
  const char *k = pscm_get_last_error_key();
  return g_lastErr && k && strcmp(k, key) == 0;
}
int lenof(S v) {
  if (!v) return -1;
  if (v->type == SCM::NIL) return 0;
  if (v->type != SCM::LIST) return -1;
  int n = 0;
  for (SCM_List *l = (SCM_List *)v->value; l; l = l->next) {
    if (l->is_dotted) return -1;
    if (++n > 64) return -1;
  }
  return n;
}
S nth(S v, int i) {
  if (!v || v->type != SCM::LIST) return nullptr;
  SCM_List *l = (SCM_List *)v->value;
  while (l && i-- > 0) l = l->next;
  return l ? l->data : nullptr;
}
bool stris(S v, const char *p, int n) { return isstr(v) && strl(v) == n && memcmp(strd(v), p, n) == 0; }
bool stris(S v, const char *p) { return stris(v, p, (int)strlen(p)); }

#ifdef SX_ENGINE
__attribute__((weak)) void sx_setup() {}
__attribute__((weak)) void sx_boot() { pscm_init(); }
extern "C" void sx_main() {
  long marker;
  gc_set_stack_top(&marker);
  sx_boot();
  sx_setup();
  int i = sx_select(g_sx_table, g_sx_n);
  g_sx_table[i].fn();
}
#endif
