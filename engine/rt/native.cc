#include <sys/stat.h>
// Native runtime: runs one harness on the real build with recorded inputs.
#include "sx.h"
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <signal.h>
static std::map<std::string, std::deque<uint64_t>> in;
static FILE *out;
static FILE *cap;
static int expectExit = -1;
extern "C" {
static uint64_t pop(const std::string &n) {
  auto &q = in[n];
  if (q.empty()) return 0;
  uint64_t v = q.front();
  q.pop_front();
  return v;
}
void sx_sym_(void *p, size_t n, const char *name) {
  if (n <= 8) { uint64_t v = pop(name); memcpy(p, &v, n); return; }
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)pop(std::string(name) + "[" + std::to_string(i) + "]");
}
int sx_choose_(int n, const char *name) { int v = (int)pop(name); return v < n ? v : 0; }
void sx_assume_(long c) { if (!c) { fprintf(out, "ASSUME-FAIL\n"); fflush(out); _exit(78); } }
void sx_assert_(long c, const char *l) { if (!c) { fprintf(out, "ASSERT-FAIL %s\n", l); fflush(out); _exit(77); } }
void sx_reach(const char *l) { fprintf(out, "R %s\n", l); }
int sx_select(const void *, long) { return 0; }
long sx_conc_(long v) { return v; }
void sx_obs_(const char *l, long v) { fprintf(out, "O %s %llx\n", l, (unsigned long long)v); fflush(out); }
void sx_obsb_(const char *l, const void *p, long n) {
  fprintf(out, "B %s ", l);
  for (long i = 0; i < n; i++) fprintf(out, "%02x", ((const unsigned char *)p)[i]);
  fprintf(out, "\n");
  fflush(out);
}
void sx_expect_exit(int c) { expectExit = c & 255; fprintf(out, "EXPECT-EXIT %d\n", c & 255); fflush(out); }
static std::map<std::string, long> params;
long sx_param(const char *n, long d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
long sx_is_symbolic(long) { return 0; }
void sx_kill(const char *w) { fprintf(out, "KILL %s\n", w); fflush(out); _exit(79); }
void sx_print_(const char *, long) {}
static FILE *realOut;
static std::string capBuf;
void sx_capture_stdout(int on) {
  if (on) { realOut = stdout; cap = tmpfile(); stdout = cap; }
  else if (realOut) stdout = realOut;
}
const char *sx_stdout_data(size_t *n) {
  fflush(cap);
  long pos = ftell(cap);
  capBuf.resize(pos);
  rewind(cap);
  size_t k = fread(&capBuf[0], 1, pos, cap);
  fseek(cap, pos, SEEK_SET);
  *n = k;
  return capBuf.data();
}
void sx_stdin_set(const char *d, size_t n) { FILE *f = tmpfile(); fwrite(d, 1, n, f); rewind(f); stdin = f; }
void sx_vfile(const char *name, const char *data, size_t n) {
  std::string d(name); for (size_t i = d.find('/'); i != std::string::npos && i > 0; i = d.find('/', i + 1)) mkdir(d.substr(0, i).c_str(), 0777);
  FILE *f = fopen(name, "wb"); if (f) { fwrite(data, 1, n, f); fclose(f); } }
void sx_exact_print(int) {}
}
__attribute__((weak)) void sx_setup() {}
__attribute__((weak)) void sx_boot() { pscm_init(); }
int main(int argc, char **argv) {
  // argv: harness inputfile outfile [param k=v ...]
  out = fopen(argv[3], "w");
  setvbuf(out, nullptr, _IOFBF, 1 << 16);
  std::ifstream f(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 2, "I ")) continue;
    size_t q = line.rfind(' ');
    std::string n = line.substr(2, q - 2);
    if (!n.empty() && n[0] == '~') continue;
    in[n].push_back(strtoull(line.c_str() + q + 1, nullptr, 16));
  }
  for (int i = 4; i < argc; i++) { std::string p = argv[i]; auto q = p.find('='); params[p.substr(0, q)] = atol(p.c_str() + q + 1); }
  signal(SIGPIPE, SIG_IGN);
  alarm(20);
  long marker;
  gc_set_stack_top(&marker);
  sx_boot();
  sx_setup();
  for (int i = 0; i < g_sx_n; i++)
    if (!strcmp(g_sx_table[i].name, argv[1])) {
      g_sx_table[i].fn();
      fprintf(out, "DONE\n");
      fflush(out);
      _exit(0);
    }
  fprintf(stderr, "no such harness\n");
  _exit(99);
}
