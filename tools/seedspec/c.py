# C embedding, smobs, variables (C programs as demonstrations)
HEAD = '''#!/bin/bash
# run in /repo after the build: compiles a small host program with the library's sources
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ulimit -c 0
cat >"$T/host.cc" <<'EOF'
#include "pscm_api.h"
#include "eval.h"
#include "throw.h"
#include "smob.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
'''
TAIL = '''EOF
SRC=$(ls src/c/*.cc | grep -v -e /repl.cc -e /abort.cc)
clang++-18 -w -O1 -std=c++20 -Isrc/c "$T/host.cc" $SRC -o "$T/host" || { echo "does not compile"; exit 1; }
cd "$T"
timeout 60 ./host >out 2>err || { echo "exit status $?"; tail -3 err; exit 1; }
cat >want <<'EOF'
%sEOF
diff want out
'''
def host(body, want): return HEAD + body + TAIL % want
seed('locale-string-trailing-nul', 'T01', [('string.cc', '''    if (strlen(res) != len) {''', '''    if (len > 0 && strlen(res) < len - 1) {''')], '', '', 'a string whose only NUL is its last character, converted without a length', 'the C string silently loses its last character instead of being an error', raw_demo=host('''
int main() {
  pscm_init();
  for (int i = 0; i < 2; i++) {
    SCM *s = i ? scm_from_locale_stringn("ab\\0", 3) : scm_from_locale_stringn("abc", 3);
    SCM *r = scm_c_catch(scm_bool_true(), [](void *d) -> SCM * { char *p = scm_to_locale_stringn((SCM *)d, nullptr); printf("%s\\n", p); return scm_nil(); }, s,
      [](void *, SCM *, SCM *) -> SCM * { printf("error\\n"); return scm_nil(); }, nullptr);
  }
}
''', 'abc\nerror\n'))
seed('values-call-missing-first', 'T01', [('procedure.cc', '''    // No rest parameter - check for too many arguments
    if (args_iter) {''', '''    // No rest parameter - check for too many arguments
    if (args_iter && args_l) {''')], '', '', 'a procedure without parameters called from C (or as a catch handler) with arguments', 'the surplus arguments are ignored instead of being an error', raw_demo=host('''
static SCM *h(void *, SCM *, SCM *) { printf("error\\n"); return scm_nil(); }
int main() {
  pscm_init();
  SCM *p = pscm_eval_string("(lambda () 7)");
  scm_c_catch(scm_bool_true(), [](void *d) -> SCM * { print_ast(scm_call_0((SCM *)d)); puts(""); return scm_nil(); }, p, h, nullptr);
  scm_c_catch(scm_bool_true(), [](void *d) -> SCM * { print_ast(scm_call_2((SCM *)d, scm_nil(), scm_nil())); puts(""); return scm_nil(); }, p, h, nullptr);
}
''', '7\nerror\n'))
seed('last-message-kept', 'T01', [('error.cc', '''  delete[] g_last_error_message;
  delete[] g_last_error_key;
  g_last_error_message = nullptr;
  g_last_error_key = nullptr;
''', '''  delete[] g_last_error_key;
  g_last_error_key = nullptr;
  if (args && is_pair(args)) {
    delete[] g_last_error_message;
    g_last_error_message = nullptr;
  }
''')], '', '', 'a throw without arguments after a failure that had a message', 'the message of the earlier failure is reported for the new one', raw_demo=host('''
int main() {
  pscm_init();
  const char *m;
  pscm_eval_string("(throw 'first \\"one\\")"); m = pscm_get_last_error_message(); printf("%s %s\\n", pscm_get_last_error_key(), m ? m : "-");
  pscm_eval_string("(throw 'second)"); m = pscm_get_last_error_message(); printf("%s %s\\n", pscm_get_last_error_key(), m ? m : "-");
}
''', 'first one\nsecond -\n'))
seed('smob-args-evaluated-late', 'T02', [('eval.cc', '''      SCM *arg1 = eval_with_env(env, l->next->data);
      SCM *arg2 = eval_with_env(env, l->next->next->data);
      SCM *arg3 = eval_with_env(env, l->next->next->next->data);
      result = desc->apply_3(l->data, arg1, arg2, arg3);''', '''      SCM *arg1 = eval_with_env(env, l->next->data);
      SCM *arg3 = eval_with_env(env, l->next->next->next->data);
      SCM *arg2 = eval_with_env(env, l->next->next->data);
      result = desc->apply_3(l->data, arg1, arg2, arg3);''')], '', '', 'a smob applied to three arguments whose evaluation has side effects', 'the third argument is evaluated before the second', raw_demo=host('''
static SCM *ap(SCM *s, SCM *a, SCM *b, SCM *c) { print_ast(a); print_ast(b); print_ast(c); puts(""); return a; }
int main() {
  pscm_init();
  long t = scm_make_smob_type("t", 0);
  scm_set_smob_apply(t, nullptr, nullptr, nullptr, ap);
  pscm_c_define("s", scm_make_smob_with_data(t, 1));
  pscm_eval_string("(define n 0)");
  pscm_eval_string("(define (next) (set! n (+ n 1)) n)");
  pscm_eval_string("((car (list s)) (next) (next) (next))");
}
''', '123\n'))
seed('smob-equal-shortcut', 'T02', [('eq.cc', '''      // Types must match
      if (s1->tag != s2->tag) {''', '''      // Equal data means equal objects
      if (s1->tag == s2->tag && s1->data2 && s1->data == s2->data && s1->data2 == s2->data2) {
        return true;
      }
      // Types must match
      if (s1->tag != s2->tag) {''')], '', '', 'two distinct smobs with two equal non-zero data fields and no equality function', 'they are equal? although the default is identity', raw_demo=host('''
int main() {
  pscm_init();
  long t = scm_make_smob_type("t", 0);
  for (int d = 0; d < 2; d++) {
    pscm_c_define("a", scm_make_smob_with_data2(t, 5, d)); pscm_c_define("b", scm_make_smob_with_data2(t, 5, d));
    print_ast(pscm_eval_string("(list (equal? a a) (equal? a b) (equal? (list 1 a) (list 1 b)))")); puts("");
  }
}
''', '(#t #f #f)\n(#t #f #f)\n'))
seed('smob-tag-one-past', 'T02', [('smob.cc', '''  if (num < 0 || num >= g_numsmob) {
    eval_error("scm-make-smob-with-data: invalid smob tag");''', '''  if (num < 0 || num > g_numsmob) {
    eval_error("scm-make-smob-with-data: invalid smob tag");''')], '', '', 'the tag just past the last registered type', 'an object of an unregistered type is made', raw_demo=host('''
static SCM *h(void *, SCM *, SCM *) { printf("error\\n"); return scm_nil(); }
int main() {
  pscm_init();
  long t = scm_make_smob_type("t", 0);
  for (long i = 0; i < 3; i++) { long tag = t + i; scm_c_catch(scm_bool_true(), [](void *d) -> SCM * { scm_make_smob_with_data(*(long *)d, 1); printf("made\\n"); return scm_nil(); }, &tag, h, nullptr); }
}
''', 'made\nerror\nerror\n'))
seed('smob-print-narrow', 'T02', [('smob.cc', '''    printf(" %lld", (long long)(intptr_t)s->data);''', '''    printf(" %ld", (long)(int)(intptr_t)s->data);''')], '', '', 'data beyond 32 bits printed by default', 'the number shown is not the data', raw_demo=host('''
int main() {
  pscm_init();
  long t = scm_make_smob_type("t", 0);
  print_ast(scm_make_smob_with_data(t, 1234)); puts("");
  print_ast(scm_make_smob_with_data(t, 5000000001)); puts("");
}
''', '#<t 1234>\n#<t 5000000001>\n'))
