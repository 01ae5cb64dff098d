#include "sx.h"
H(add) {
  int64_t a = symrange("a", -1000000000000ll, 1000000000000ll), b = symrange("b", -1000000000000ll, 1000000000000ll);
  defn("a", a); defn("b", b);
  S r = ev("(+ a b)");
  CHECK(isnum(r), "num");
  CHECK(numv(r) == a + b, "sum");
  r = ev("(< a b)");
  CHECK(isboolv(r), "bool");
  CHECK(isT(r) == (a < b), "lt");
  REACH("end");
}
H(fact) {
  ev("(define (fact n) (if (= n 0) 1 (* n (fact (- n 1)))))");
  S r = ev("(fact 10)");
  CHECK(isnumv(r, 3628800), "fact");
  r = ev("(call/cc (lambda (k) (+ 1 (k 42))))");
  CHECK(isnumv(r, 42), "callcc");
  r = ev("(catch 'foo (lambda () (throw 'foo 1 2)) (lambda (k . a) (car a)))");
  CHECK(isnumv(r, 1), "catch");
  r = ev("(let loop ((i 0) (s 0)) (if (> i 10) s (loop (+ i 1) (+ s i))))");
  CHECK(isnumv(r, 55), "loop");
  r = ev("(number->string 1.5)");
  CHECK(stris(r, "1.5"), "n2s");
  REACH("end");
}
