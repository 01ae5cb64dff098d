seed('modulo-negative-zero', 'N02', [('number.cc', '''  if (ret > 0 && num2 < 0) {
    ret += num2;
  } else if (ret < 0 && num2 > 0) {
    ret += num2;
  }''', '''  // The result takes the sign of the divisor
  if ((num1 < 0) != (num2 < 0) && (ret != 0 || num1 > num2)) {
    ret += num2;
  }''')], '''(modulo -7 2)
(modulo 7 -2)
(modulo -6 3)
(modulo 6 -3)
(modulo 0 -3)
(modulo 1000000 -10)
''', '1\n-1\n0\n0\n0\n0\n', 'a positive dividend that is an exact multiple of a negative divisor', 'modulo returns the divisor itself instead of 0, so |modulo| < |divisor| fails')
seed('gcd-accumulate-early-exit', 'N02', [('number.cc', '''    int64_t val = (int64_t)arg->value;
    result = gcd(result, val);
    current = current->next;''', '''    int64_t val = (int64_t)arg->value;
    result = gcd(result, val);
    if (result <= 1) {
      break;  // cannot get any smaller
    }
    current = current->next;''')], '''(gcd 0 0 12)
(gcd 12 18)
(gcd 0 6)
''', '12\n6\n6\n', 'three or more operands whose first two are both zero', 'gcd stops at 0 as if it were final, so (gcd 0 0 n) is 0')
seed('vector-to-list-length-byte', 'V01', [('vector.cc', '''  if (idx < 0 || (size_t)idx >= v->length) {
    eval_error("vector-set!: index out of range");''', '''  if (idx < 0 || (int)idx >= (int)v->length) {
    eval_error("vector-set!: index out of range");''')], '''(define v (vector 1 2 3))
(define (try thunk) (catch #t thunk (lambda (k . a) 'error)))
(try (lambda () (vector-set! v 4294967296 9)))
v
''', "error\n#(1 2 3)\n", 'an index beyond 2^32 whose low 32 bits are inside the vector', 'vector-set! writes outside the vector instead of reporting an error')
seed('string-ci-gt-prefix', 'S02', [('string.cc', '''  // If equal up to shorter length, longer string is greater
  return (s1->len > s2->len) ? scm_bool_true() : scm_bool_false();
}

SCM *scm_c_string_ci_le''', '''  // If equal up to shorter length, longer string is greater
  return (strlen(s1->data) > strlen(s2->data)) ? scm_bool_true() : scm_bool_false();
}

SCM *scm_c_string_ci_le''')], '''(define nul (integer->char 0))
(string-ci>? (string #\\a nul) "A")
(string-ci>? "abc" "AB")
''', "#t\n#t\n", 'strings containing a NUL character that agree up to the shorter length', 'string-ci>? orders such strings by their C length')
seed('substring-shares-empty-tail', 'S01', [('string.cc', '''  int64_t len = end_idx - start_idx;
  SCM_String *result = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));''', '''  int64_t len = end_idx - start_idx;
  if (len == s->len) {
    return str;  // the whole string
  }
  SCM_String *result = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));''')], '''(define s (make-string 3 #\\a))
(define t (substring s 0 3))
(string-set! t 0 #\\z)
s
t
''', '"aaa"\n"zaa"\n', 'a slice covering the whole string followed by an update of either', 'substring returns the operand itself, so updating the copy changes the original')
seed('list-head-negative-wraps', 'L01', [('list.cc', '''  // If k is 0, return empty list regardless of lst
  if (count == 0) {''', '''  // If k is 0, return empty list regardless of lst
  if ((int)count == 0) {''')], '''(define (try thunk) (catch #t thunk (lambda (k . a) 'error)))
(try (lambda () (list-head '(1 2 3) 4294967296)))
(list-head '(1 2 3) 2)
''', "error\n(1 2)\n", 'a length that is a multiple of 2^32', 'list-head returns the empty list instead of an error')
seed('hash-remove-chain', 'H01', [('hash_table.cc', '''        if (prev) {
          prev->next = l->next;
        } else {''', '''        if (prev && l->next) {
          prev->next = l->next;
        } else if (prev) {
          prev->next = nullptr;
          *bucket_ptr = wrap(prev);
        } else {''')], '''(define h (make-hash-table 1))
(hash-set! h 'a 1)
(hash-set! h 'b 2)
(hash-set! h 'c 3)
(hash-remove! h 'a)
(hash-ref h 'a)
(hash-ref h 'b)
(hash-ref h 'c)
''', "1\n2\n3\n#f\n2\n3\n", 'three keys in one bucket, the oldest of which is removed', 'removing the last entry of a chain drops the newer entries before its predecessor')
