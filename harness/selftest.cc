// Engine self-test: run a whole Scheme file concretely inside the engine the
// way "pscm_cc --test FILE" does and print what it prints.
#include "sx.h"
extern "C" long sx_host_read(void *, long);
extern "C" void sx_host_write(const void *, long);
static char buf[1 << 18];
void sx_flush_out() { size_t n; const char *d = sx_stdout_data(&n); sx_host_write(d, n); sx_capture_stdout(1); }
H(selftest) {
  long n = sx_host_read(buf, sizeof buf);
  sx_vfile("in.scm", buf, n);
  sx_capture_stdout(1);
  SCM_List *l = pscm_parse_file("in.scm");
  while (l) {
    SCM *v = pscm_eval(l->data);
    if (!is_none(v)) { print_ast(v, true); printf("\n"); }
    sx_flush_out();
    l = l->next;
  }
}
