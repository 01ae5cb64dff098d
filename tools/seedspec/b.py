seed('force-false-not-cached', 'P01', [('delay.cc', '''  promise->value = result;
  promise->is_forced = true;
  return result;''', '''  promise->value = result;
  promise->is_forced = result && is_truthy(result);
  return result;''')], '''(define n 0)
(define p (delay (begin (set! n (+ n 1)) #f)))
(force p)
(force p)
n
''', '#f\n#f\n1\n', 'a promise whose value is #f, forced more than once', 'the promise is evaluated again by every force')
seed('out-guard-runs-inside-wind', 'K02', [('dynwind.cc', '''  // Restore old wind chain
  g_wind_chain = old_wind_chain;
  
  // Call out_guard
  scm_call_0(out_guard_val);
  
  return result;''', '''  // Call out_guard
  scm_call_0(out_guard_val);
  
  // Restore old wind chain
  g_wind_chain = old_wind_chain;
  
  return result;''')], '''(define n 0)
(catch 'k (lambda () (dynamic-wind (lambda () #f) (lambda () #f) (lambda () (set! n (+ n 1)) (if (= n 1) (throw 'k) #f)))) (lambda (k . a) 'caught))
n
(dynamic-wind (lambda () #f) (lambda () 7) (lambda () #f))
''', 'caught\n1\n7\n', 'a throw or an escape out of the leaving guard itself', 'the leaving guard runs a second time while its own exit is being unwound')
seed('catch-all-skips-quit', 'X01', [('throw.cc', '''  if (is_bool(tag) && is_true(tag)) {
    return true;
  }''', '''  if (is_bool(tag) && is_true(tag)) {
    // a request to quit is not an error
    return !(is_sym(key) && is_sym_val(key, "quit"));
  }''')], '''(catch #t (lambda () (throw 'other 1)) (lambda (k . a) (list k a)))
(catch 'quit (lambda () (catch #t (lambda () (throw 'quit 3)) (lambda (k . a) 'inner))) (lambda (k . a) 'outer))
''', '(other (1))\ninner\n', 'a throw whose key is the symbol quit under a catch-all handler', 'catch #t does not catch every key')
seed('vector-equal-middle', 'E01', [('eq.cc', '''  // Compare each element recursively using equal?
  for (size_t i = 0; i < v1->length; i++) {
    if (!_equal_recursive(v1->elements[i], v2->elements[i])) {
      return false;
    }
  }''', '''  // Compare each element recursively using equal?, from both ends inwards
  for (size_t i = 0, j = v1->length; i < j / 2; i++) {
    size_t k = j - 1 - i;
    if (!_equal_recursive(v1->elements[i], v2->elements[i]) || !_equal_recursive(v1->elements[k], v2->elements[k])) {
      return false;
    }
  }''')], '''(equal? (vector 1 2 3) (vector 1 2 3))
(equal? (vector 1 2 3) (vector 1 5 3))
(equal? (vector 1) (vector 2))
''', '#t\n#f\n#f\n', 'vectors of odd length that differ only in the middle', 'equal? calls different vectors equal')
seed('or-reevaluates', 'C01', [('eval.cc', '''    if (is_truthy(result)) {
      return result;
    }
    current = current->next;
  }
  // Evaluate and return the last expression
  if (current) {''', '''    if (is_truthy(result)) {
      // found: a constant is returned as is, anything else through the evaluator
      if (!is_pair(current->data)) {
        return result;
      }
      break;
    }
    current = current->next;
  }
  // Evaluate and return the last expression
  if (current) {''')], '''(define n 0)
(define (next!) (set! n (+ n 1)) n)
(or #f (next!) 9)
n
(or #f #f 3)
(or (memq 'b '(a b c)) 1)
''', '1\n1\n3\n(b c)\n', 'a truthy operand with a side effect that is not the last one', 'or evaluates the chosen operand twice')
seed('do-step-variable', 'C02', [('do.cc', '''    if (var_update_step) {
      // Store as a list''', '''    if (var_update_step && is_pair(var_update_step)) {
      // Store as a list''')], '''(do ((i 0 (+ i 1)) (prev 'none i)) ((= i 3) prev))
(do ((i 0 (+ i 1)) (acc '() (cons i acc))) ((= i 3) acc))
''', '2\n(2 1 0)\n', 'a do variable whose step is a plain variable or constant', 'the variable keeps its initial value in every iteration')
seed('macro-rest-shares-code', 'M01', [('macro.cc', '''    SCM_List rest_args_dummy = make_list_dummy();
    SCM_List *rest_args_tail = &rest_args_dummy;
    while (actual_args) {
      SCM_List *node = make_list(actual_args->data);
      rest_args_tail->next = node;
      rest_args_tail = node;
      actual_args = actual_args->next;
    }
    SCM *rest_args = rest_args_dummy.next ? wrap(rest_args_dummy.next) : scm_nil();''', '''    // the remaining arguments already are a list
    SCM *rest_args = actual_args ? wrap(actual_args) : scm_nil();
    actual_args = nullptr;''')], '''(define-macro (m . args) (set-car! args (+ 1 (car args))) (cons '+ args))
(define (f) (m 1 2))
(f)
(f)
''', '4\n4\n', 'a macro that updates its rest-argument list in place', 'the expansion overwrites the program text of the call')
seed('named-let-atom-inits', 'B01', [('let.cc', '''        auto arg_expr = cadr(argl_it->data);
        
        // Generate a temporary''', '''        auto arg_expr = cadr(argl_it->data);
        if (!is_pair(arg_expr)) {
          // nothing to evaluate: pass it on directly
          temp_params->next = make_list(arg_expr);
          temp_params = temp_params->next;
          argl_it = argl_it->next;
          continue;
        }
        
        // Generate a temporary''')], '''(define loop 5)
(let loop ((i loop) (n (+ 1 2))) (if (procedure? i) 'inner (list i n)))
''', '(5 3)\n', 'a named let with an initial value that is the variable named like the loop', 'the initial value is taken from the loop procedure instead of the surrounding scope')
seed('for-each-heap-cursors', 'K01', [('for_each.cc', '''  SCM_List *arg_lists[MAX_FOR_EACH_ARGS];
''', '''  SCM_List **arg_lists = (SCM_List **)calloc(arg_count, sizeof(SCM_List *));
''')], '''(define k #f)
(define seen '())
(define (go)
  (for-each (lambda (x) (call/cc (lambda (c) (if (= x 1) (set! k c) #f))) (set! seen (cons x seen))) (list 1 2 3))
  (let ((kk k)) (if kk (begin (set! k #f) (kk 'again)) (reverse seen))))
(go)
''', '(1 2 3 1 2 3)\n', 'a continuation captured during for-each and resumed after it has finished', 'the resumed iteration does not continue with the remaining elements')
seed('octal-escape-unpadded', 'R02', [('print.cc', '''              printf("\\\\%03o", (unsigned char)c);''', '''              printf("\\\\%o", (unsigned char)c);''')], '''(define s (string (integer->char 1) #\\2 #\\3))
s
(define p (open-input-string (call-with-output-string (lambda (p) (write s p)))))
(equal? (read p) s)
''', '"\\00123"\n#t\n', 'a string holding a control character followed by digits', 'the written form reads back as another string')
seed('string-escape-in-comment-newline', 'R01', [('parse.cc', '''        case '"': *dst++ = '"'; break;
        default: *dst++ = *src; break;''', '''        case '"': *dst++ = '"'; break;
        case '\\n': break;
        default: *dst++ = *src; break;''')], '''(string-length "a\\\\b")
(define s "ab\\
c")
(string-length s)
(string-ref s 2)
''', '3\n4\n#\\newline\n', 'a string literal with a backslash directly before a line end', 'the literal has the wrong length: the contents no longer match the counted characters')
seed('port-grow-late', 'O01', [('port.cc', '''    if (port->output_len + 1 >= port->output_capacity) {
      port->output_capacity *= 2;
      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
    }''', '''    if (port->output_len + 1 >= port->output_capacity) {
      char *old = port->output_buffer;
      port->output_capacity *= 2;
      port->output_buffer = (char*)malloc(port->output_capacity);
      strcpy(port->output_buffer, old);
      free(old);
    }''')], '''(define n (integer->char 0))
(define s (call-with-output-string (lambda (p) (display (make-string 3 #\\a) p) (write-char n p) (display (make-string 20000 #\\b) p))))
(string-length s)
(string-ref s 4)
(string-ref s 300)
(string-ref s 20003)
''', '20004\n#\\b\n#\\b\n#\\b\n', 'a NUL character written to a string port before its buffer grows', 'the output after the NUL is lost')
seed('autoload-drops-other-specs', 'M02', [('module.cc', '''            if (prev_spec) {
              prev_spec->next = specs->next;
            } else {
              module->autoload_specs = specs->next;
            }''', '''            module->autoload_specs = specs->next;''')], '''(call-with-output-file "ma.scm" (lambda (p) (display "(define-module (ma)) (define-public fa 1)" p)))
(call-with-output-file "mb.scm" (lambda (p) (display "(define-module (mb)) (define-public fb 2)" p)))
(define-module (main) #:autoload (ma) (fa) #:autoload (mb) (fb))
(define (try thunk) (catch #t thunk (lambda (k . a) 'error)))
(try (lambda () fa))
(try (lambda () fb))
''', None, 'two autoload clauses of which the later one is used first', 'the earlier autoload is forgotten and its name is unbound')
seed('repl-semicolon-in-string', 'D01', [('repl.cc', '''    if (*p == '"') {
      in_string = !in_string;
      continue;
    }
    
    if (in_string) {
      continue;
    }
    
    if (*p == ';') {
      in_comment = true;
      continue;
    }
    
    if (*p''', '''    if (*p == ';') {
      in_comment = true;
      continue;
    }
    
    if (*p == '"') {
      in_string = !in_string;
    }
    
    if (in_string) {
      continue;
    }
    
    if (*p''')], '', '', 'REPL input with a semicolon inside a string literal', 'the rest of the line counts as a comment, so the expression never seems complete', raw_demo='''#!/bin/bash
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$(pwd)
cd "$T"
printf '(string-length "a;b")\\n(+ 40 2)\\n' | timeout 60 "$R/_build/pscm_cc" >out 2>err || exit 1
# every line is complete: no continuation prompt
grep -q -- '--> 3$' out && grep -q -- '--> 42$' out && ! grep -qF '...>' out
''')
seed('ge-chain-nan', 'N03', [('number.cc', '''    double d_rhs = scm_to_double(rhs);
    return (d_lhs >= d_rhs) ? scm_bool_true() : scm_bool_false();''', '''    double d_rhs = scm_to_double(rhs);
    return !(d_lhs < d_rhs) ? scm_bool_true() : scm_bool_false();''')], '''(define inf (* 1e200 1e200))
(define nan (- inf inf))
(>= 1.5 nan)
(>= nan nan)
(>= 2.5 1)
(>= 1 2.5)
''', '#f\n#f\n#t\n#f\n', 'an operand that is not a number (inf - inf)', '>= holds for operands that neither < nor = orders')
seed('apply-many-args-order', 'B02', [('apply.cc', '''  current = args_before_last;
  while (current != last_arg_node) {
    SCM *arg_val;''', '''  current = args_before_last;
  while (current != last_arg_node && !is_nil(last_arg)) {
    SCM *arg_val;''')], '''(apply + 1 2 '(3))
(apply + 1 2 '())
(apply list 'a '())
''', '6\n3\n(a)\n', 'apply with leading arguments and an empty last list', 'the leading arguments are dropped')
seed('exact-ratio-times-zero', 'N04', [('number.cc', '''    // Multiply: (a/b) * (c/d) = (a*c)/(b*d)
    return scm_make_ratio(num1 * num2, den1 * den2);''', '''    // Multiply: (a/b) * (c/d) = (a*c)/(b*d); cancel what is equal first
    if (num1 == den2) {
      return scm_make_ratio(num2, den1);
    }
    if (num2 == den1 || num2 == -den1) {
      return scm_make_ratio(num1, den2);
    }
    return scm_make_ratio(num1 * num2, den1 * den2);''')], '''(* 1/2 4/3)
(* 2/3 3/5)
(* 1/2 -2/3)
(* -3/5 5/7)
''', None, 'a ratio times a ratio whose numerator is minus the first denominator', 'the product has the wrong sign')
