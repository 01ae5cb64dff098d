# garbage collection
HEAD = '''#!/bin/bash
# run in /repo after the build: compiles a small host program with the library's sources
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ulimit -c 0
cat >"$T/host.cc" <<'EOF'
#include "pscm_api.h"
#include "eval.h"
#include "gc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
'''
TAIL = '''EOF
SRC=$(ls src/c/*.cc | grep -v -e /repl.cc -e /abort.cc)
clang++-18 -w -O1 -std=c++20 -include limits.h -Isrc/c "$T/host.cc" $SRC -o "$T/host" || { echo "does not compile"; exit 1; }
cd "$T"
timeout 60 ./host >out 2>err || { echo "exit status $?"; tail -3 err; exit 1; }
cat >want <<'EOF'
%sEOF
diff want out
'''
def host(body, want): return HEAD + body + TAIL % want
CHURN = '(define (churn n) (if (> n 0) (begin (list n (vector n n) "abc" (/ n 7) (lambda () n)) (churn (- n 1))) 0))\n(define (fill n l) (if (> n 0) (fill (- n 1) (cons (vector n (/ n 7) (list n n)) l)) l))\n'
seed('gc-age-keeps-mark', 'G01', [('gc.cc', '''        block->mark = 0; // clear for the next cycle
''', '''        if (block->age < 3) block->age++;
        else if (block->type_tag == GC_VECTOR) { total_live_bytes += block_total; ptr += block_total; continue; }
        block->mark = 0; // clear for the next cycle
''')], CHURN + '''(define v (make-vector 2 0))
(gc) (gc) (gc) (gc) (gc)
(begin (vector-set! v 1 (list 1 (list 2 3) (/ 1 3))) 0)
(begin (churn 20) 0)
(gc)
(define keep (fill 300 '()))
(vector-ref v 1)
''', None, 'a vector that has survived four collections, an object stored into it afterwards, and one more collection', 'the old vector stays marked, so its new element is not traced and is reclaimed while in use')
seed('gc-ratio-not-traced', 'G01', [('gc.cc', '''    case SCM::RATIO:
      trace_ptr(val, stack);
''', '''      trace_ptr(val, stack);
'''), ('gc.cc', '''    case SCM::FLOAT:
    case SCM::CHAR:
    case SCM::BOOL:
    case SCM::NONE:
    case SCM::NIL:
      break;
''', '''    case SCM::RATIO:
    case SCM::FLOAT:
    case SCM::CHAR:
    case SCM::BOOL:
    case SCM::NONE:
    case SCM::NIL:
      break;
''')], CHURN + '''(define l (map (lambda (n) (/ n 7)) '(1 2 3 4 5 6)))
(begin (churn 20) 0)
(gc)
(define keep (fill 300 '()))
l
''', None, 'an exact fraction kept over a collection while others are computed', 'fractions in use are reclaimed and change their value')
seed('gc-soft-port-procedures', 'G01', [('gc.cc', '''  trace_ptr(port->soft_procedures, stack); // SCM_Vector*
''', '''  if (port->is_input) trace_ptr(port->soft_procedures, stack); // SCM_Vector*
''')], CHURN + '''(define acc '())
(define (mk n) (make-soft-port (vector (lambda (c) (set! acc (cons (list n c) acc))) (lambda (s) (set! acc (cons (list n s) acc))) (lambda () #t) #f #f) "w"))
(define p (mk (list 7 8)))
(begin (churn 20) 0)
(gc)
(define keep (fill 300 '()))
(begin (display "hello" p) acc)
''', None, 'an output-only soft port used after a collection', 'the procedures of the port are reclaimed while the port is in use')
seed('gc-module-uses', 'G01', [('gc.cc', '''  trace_ptr(mod->uses,               stack); // SCM_List*
''', '''  if (!mod->public_interface) trace_ptr(mod->uses, stack); // SCM_List*
''')], '''(define-module (dm one) #:export (f1))
(define (f1 x) (list 'f1 x))
(define-module (dm two) #:use-module (dm one) #:export (f2))
(define (f2 x) (f1 (list x)))
(define-module (dm main) #:use-module (dm two))
(define (churn n) (if (> n 0) (begin (list n (vector n n) "abc" (/ n 7) (lambda () n)) (churn (- n 1))) 0))
(define (fill n l) (if (> n 0) (fill (- n 1) (cons (vector n (/ n 7) (list n n)) l)) l))
(begin (churn 20) 0)
(gc)
(define keep (fill 300 '()))
(f2 1)
''', None, 'a module with exports that uses another module, after a collection', 'the list of used modules is reclaimed and imported names are lost')
seed('gc-large-fit', 'G01', [('gc.cc', '''      if (block->size >= size) {
''', '''      if (size_to_bucket(block->size) >= bucket) {
''')], '', '', 'a large object allocated after a smaller large one was reclaimed', 'the object overlaps its neighbours', raw_demo=host('''
static SCM *keep[3];
__attribute__((noinline)) void mk() {
  keep[0] = (SCM *)gc_alloc(GC_NUMBER, 144); keep[1] = (SCM *)gc_alloc(GC_NUMBER, 144); memset(keep[1], 0x41, 144);
  keep[0] = nullptr;
}
__attribute__((noinline)) void mk2() { keep[2] = (SCM *)gc_alloc(GC_NUMBER, 4000); memset(keep[2], 0x42, 4000); }
__attribute__((noinline)) void churn() { for (int i = 0; i < 50; i++) pscm_eval_string("(list 9 9 (vector 8 8))"); }
int main() {
  pscm_init();
  for (int i = 0; i < 3; i++) gc_register_root(&keep[i], "k");
  mk(); churn(); run_gc(); mk2();
  int ok = 1; for (int i = 0; i < 144; i++) if (((char *)keep[1])[i] != 0x41) ok = 0;
  printf("%d\\n", ok);
}
''', '1\n'))
