From 8338a37161dd98da9b26a090c9f674c402dd7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 01/78] fix: arithmetic on a non-number raises an error instead
 of aborting or reading it as zero

---
 src/c/number.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..dcd7cd7 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -78,8 +78,16 @@ SCM *scm_c_is_zero(SCM *arg) {
   return scm_bool_false();
 }
 
+static void check_number(SCM *arg) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
+    eval_error("expected number");
+  }
+}
+
 // Type promotion: if either operand is float, promote both to float
 static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
+  check_number(lhs);
+  check_number(rhs);
   return is_float(lhs) || is_float(rhs);
 }
 
@@ -292,6 +300,8 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
 }
 
 SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
+  check_number(lhs);
+  check_number(rhs);
   // Handle ratio (rational number) multiplication
   if (is_ratio(lhs) || is_ratio(rhs)) {
     // Convert both to numerator/denominator form
@@ -492,7 +502,10 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
+  if (!is_num(arg)) {
+    eval_error("abs: expected integer");
+    return nullptr;
+  }
   int64_t val = (int64_t)arg->value;
   int64_t abs_val = val < 0 ? -val : val;
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -742,8 +755,10 @@ SCM *scm_c_min(SCM_List *args) {
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
+  if (!is_num(base) || !is_num(exp)) {
+    eval_error("expt: expected integer");
+    return nullptr;
+  }
   int64_t n1 = (int64_t)base->value;
   int64_t n2 = (int64_t)exp->value;
   
@@ -887,7 +902,13 @@ SCM *scm_c_div(SCM_List *args) {
       // For floats, switch to float arithmetic
       double result = (double)result_num / (double)result_den;
       while (current) {
-        result /= scm_to_double(current->data);
+        check_number(current->data);
+        double divisor = scm_to_double(current->data);
+        if (divisor == 0.0) {
+          eval_error("/: division by zero");
+          return nullptr;
+        }
+        result /= divisor;
         current = current->next;
       }
       return scm_from_double(result);
-- 
2.43.0


From ee03182ddfa51956b6bf1e76c488c07622df2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 02/78] fix: + - and comparisons on exact fractions compute
 instead of aborting the process

---
 src/c/number.cc | 53 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index dcd7cd7..a791e50 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -7,7 +7,7 @@
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
 SCM *scm_c_is_negative(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("negative?: expected number");
     return nullptr;
   }
@@ -19,7 +19,7 @@ SCM *scm_c_is_negative(SCM *arg) {
 }
 
 SCM *scm_c_is_positive(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("positive?: expected number");
     return nullptr;
   }
@@ -91,6 +91,28 @@ static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
   return is_float(lhs) || is_float(rhs);
 }
 
+// Exact operand as a fraction (den > 0)
+static void to_fraction(SCM *arg, int64_t &num, int64_t &den) {
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    num = rat->numerator;
+    den = rat->denominator;
+  } else {
+    num = (int64_t)arg->value;
+    den = 1;
+  }
+}
+
+// Sign of lhs - rhs, exactly, when at least one of them is a ratio
+static int64_t compare_ratio(SCM *lhs, SCM *rhs) {
+  int64_t num1, den1, num2, den2;
+  to_fraction(lhs, num1, den1);
+  to_fraction(rhs, num2, den2);
+  __int128 l = (__int128)num1 * den2;
+  __int128 r = (__int128)num2 * den1;
+  return l < r ? -1 : l > r ? 1 : 0;
+}
+
 template <typename Op>
 struct BinaryOperator {
   static SCM *run(SCM *lhs, SCM *rhs) {
@@ -111,10 +133,13 @@ struct BinaryOperator {
       }
     } else {
       // Integer operation
-      assert(is_num(lhs));
-      assert(is_num(rhs));
       int64_t n_lhs = (int64_t)lhs->value;
       int64_t n_rhs = (int64_t)rhs->value;
+      if (is_ratio(lhs) || is_ratio(rhs)) {
+        // Only comparisons get here with ratios
+        n_lhs = compare_ratio(lhs, rhs);
+        n_rhs = 0;
+      }
       auto ret = Op::run(n_lhs, n_rhs);
       if constexpr (std::is_same_v<decltype(ret), bool>) {
         return ret ? scm_bool_true() : scm_bool_false();
@@ -223,6 +248,12 @@ SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs + d_rhs);
   }
+  if (is_ratio(lhs) || is_ratio(rhs)) {
+    int64_t num1, den1, num2, den2;
+    to_fraction(lhs, num1, den1);
+    to_fraction(rhs, num2, den2);
+    return scm_make_ratio(num1 * den2 + num2 * den1, den1 * den2);
+  }
   return BinaryOperator<AddOp<int64_t, int64_t>>::run(lhs, rhs);
 }
 
@@ -233,6 +264,12 @@ SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs - d_rhs);
   }
+  if (is_ratio(lhs) || is_ratio(rhs)) {
+    int64_t num1, den1, num2, den2;
+    to_fraction(lhs, num1, den1);
+    to_fraction(rhs, num2, den2);
+    return scm_make_ratio(num1 * den2 - num2 * den1, den1 * den2);
+  }
   return BinaryOperator<MinusOp<int64_t, int64_t>>::run(lhs, rhs);
 }
 
@@ -247,6 +284,9 @@ SCM *scm_c_negate_number(SCM *arg) {
     data->type = SCM::NUM;
     data->value = (void *)(-val);
     return data;
+  } else if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return scm_make_ratio(-rat->numerator, rat->denominator);
   }
   eval_error("negate: expected number");
   return nullptr;
@@ -282,10 +322,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
       return nullptr;
     }
     // Check if argument is a number
-    if (!is_num(args->data) && !is_float(args->data)) {
-      eval_error("-: expected number");
-      return nullptr;
-    }
+    check_number(args->data);
     return scm_c_negate_number(args->data);
   } else {
     // Binary or more: subtract from first
-- 
2.43.0


From 846591efdeb2990834e2cf4bc8daa99a54351787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 03/78] fix: dividing the most negative integer by -1 no longer
 traps

---
 src/c/number.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/number.cc b/src/c/number.cc
index a791e50..11b6259 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -983,6 +983,10 @@ SCM *scm_c_quotient(SCM *n1, SCM *n2) {
     eval_error("quotient: division by zero");
     return nullptr;
   }
+  if (num2 == -1 && num1 == INT64_MIN) {
+    eval_error("quotient: integer overflow");
+    return nullptr;
+  }
   
   return _create_num(num1 / num2);
 }
@@ -1004,6 +1008,9 @@ SCM *scm_c_modulo(SCM *n1, SCM *n2) {
     eval_error("modulo: division by zero");
     return nullptr;
   }
+  if (num2 == -1) {
+    return _create_num(0);  // avoids trapping on INT64_MIN / -1
+  }
   
   int64_t m = num1 / num2;
   int64_t ret = num1 - num2 * m;
@@ -1035,6 +1042,9 @@ SCM *scm_c_remainder(SCM *n1, SCM *n2) {
     eval_error("remainder: division by zero");
     return nullptr;
   }
+  if (num2 == -1) {
+    return _create_num(0);  // avoids trapping on INT64_MIN / -1
+  }
   
   int64_t m = num1 / num2;
   return _create_num(num1 - num2 * m);
-- 
2.43.0


From e08565f72e1b301ec7e491048c004bc70f225e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 04/78] fix: odd? even? max min are exact for integers beyond
 2^53

---
 src/c/number.cc | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 11b6259..006fb78 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -35,13 +35,16 @@ SCM *scm_c_is_odd(SCM *arg) {
     eval_error("odd?: expected number");
     return nullptr;
   }
-  double val = scm_to_double(arg);
-  // Check if it's an integer
-  if (val != (double)(int64_t)val) {
-    eval_error("odd?: expected integer");
-    return nullptr;
+  int64_t n = (int64_t)arg->value;
+  if (is_float(arg)) {
+    double val = scm_to_double(arg);
+    // Check if it's an integer that fits
+    if (!(val >= -0x1p63 && val < 0x1p63) || val != (double)(int64_t)val) {
+      eval_error("odd?: expected integer");
+      return nullptr;
+    }
+    n = (int64_t)val;
   }
-  int64_t n = (int64_t)val;
   if (n % 2 != 0) {
     return scm_bool_true();
   }
@@ -53,13 +56,16 @@ SCM *scm_c_is_even(SCM *arg) {
     eval_error("even?: expected number");
     return nullptr;
   }
-  double val = scm_to_double(arg);
-  // Check if it's an integer
-  if (val != (double)(int64_t)val) {
-    eval_error("even?: expected integer");
-    return nullptr;
+  int64_t n = (int64_t)arg->value;
+  if (is_float(arg)) {
+    double val = scm_to_double(arg);
+    // Check if it's an integer that fits
+    if (!(val >= -0x1p63 && val < 0x1p63) || val != (double)(int64_t)val) {
+      eval_error("even?: expected integer");
+      return nullptr;
+    }
+    n = (int64_t)val;
   }
-  int64_t n = (int64_t)val;
   if (n % 2 == 0) {
     return scm_bool_true();
   }
@@ -721,6 +727,7 @@ SCM *scm_c_max(SCM_List *args) {
   }
   
   double max_val = scm_to_double(first);
+  int64_t max_int = (int64_t)first->value;
   bool all_int = is_num(first);
   
   SCM_List *current = args->next;
@@ -737,14 +744,17 @@ SCM *scm_c_max(SCM_List *args) {
     if (val > max_val) {
       max_val = val;
     }
+    if (all_int && (int64_t)arg->value > max_int) {
+      max_int = (int64_t)arg->value;
+    }
     if (!current->next || is_nil(wrap(current->next))) {
       break;
     }
     current = current->next;
   }
   
-  if (all_int && max_val == (double)(int64_t)max_val) {
-    return _create_num((int64_t)max_val);
+  if (all_int) {
+    return _create_num(max_int);
   }
   return scm_from_double(max_val);
 }
@@ -763,6 +773,7 @@ SCM *scm_c_min(SCM_List *args) {
   }
   
   double min_val = scm_to_double(first);
+  int64_t min_int = (int64_t)first->value;
   bool all_int = is_num(first);
   
   SCM_List *current = args->next;
@@ -779,14 +790,17 @@ SCM *scm_c_min(SCM_List *args) {
     if (val < min_val) {
       min_val = val;
     }
+    if (all_int && (int64_t)arg->value < min_int) {
+      min_int = (int64_t)arg->value;
+    }
     if (!current->next || is_nil(wrap(current->next))) {
       break;
     }
     current = current->next;
   }
   
-  if (all_int && min_val == (double)(int64_t)min_val) {
-    return _create_num((int64_t)min_val);
+  if (all_int) {
+    return _create_num(min_int);
   }
   return scm_from_double(min_val);
 }
-- 
2.43.0


From 3714cb0dbb720560809d967afbcc2f10b52dbf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 05/78] fix: copying a source location onto itself no longer
 reads the freed file name

---
 src/c/source_location.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/source_location.cc b/src/c/source_location.cc
index caec318..784705f 100644
--- a/src/c/source_location.cc
+++ b/src/c/source_location.cc
@@ -23,6 +23,7 @@ void set_source_location(SCM *scm, const char *filename, int line, int column) {
 // Helper function to copy source location from one node to another
 void copy_source_location(SCM *dest, SCM *src) {
   if (!dest || !src || !src->source_loc) return;
+  if (dest->source_loc == src->source_loc) return;
   if (!dest->source_loc) {
     dest->source_loc = new SCM_SourceLocation();
     dest->source_loc->filename = nullptr;
-- 
2.43.0


From 4c4c2606fc94f3b7bd3e14d03deb4d323a0c1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 06/78] fix: string->number rejects leading white space, 0x
 prefixes, trailing garbage after NUL and overflowing integers

---
 src/c/string.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..9cee1c2 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -2,6 +2,7 @@
 #include "eval.h"
 #include <cstring>
 #include <ctype.h>
+#include <errno.h>
 
 // string-length: Return the number of characters in string
 SCM *scm_c_string_length(SCM *str) {
@@ -437,11 +438,16 @@ SCM *scm_c_string_to_number(SCM_List *args) {
   }
   
   SCM *result = nullptr;
+
+  // strtol/strtod also accept leading white space and a 0x prefix
+  const char *digits = str + (str[0] == '-' || str[0] == '+');
+  bool prefix_ok = !isspace((unsigned char)str[0]) && !(digits[0] == '0' && (digits[1] == 'x' || digits[1] == 'X') && radix <= 16);
+  errno = 0;
   
   if (is_float_str && radix == 10) {
     // Parse as float
     double val = strtod(str, &endptr);
-    if (endptr == str || *endptr != '\0') {
+    if (endptr == str || endptr != str + s->len || !prefix_ok) {
       // Failed to parse
       result = scm_bool_false();
     } else {
@@ -450,7 +456,7 @@ SCM *scm_c_string_to_number(SCM_List *args) {
   } else {
     // Parse as integer
     long val = strtol(str, &endptr, radix);
-    if (endptr == str || *endptr != '\0') {
+    if (endptr == str || endptr != str + s->len || !prefix_ok || errno == ERANGE) {
       // Failed to parse
       result = scm_bool_false();
     } else {
-- 
2.43.0


From 3089152d9279fbc40647dba9ace993d873470b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 07/78] fix: number->string of the most negative integer

---
 src/c/string.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 9cee1c2..e05b9f2 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -484,16 +484,16 @@ static char* int_to_string_radix(int64_t val, int radix) {
   
   // Handle negative numbers
   bool negative = false;
-  int64_t uval;
+  uint64_t uval;
   if (val < 0) {
     negative = true;
-    uval = -val;
+    uval = -(uint64_t)val;
   } else {
     uval = val;
   }
   
   // Calculate string length
-  int64_t temp = uval;
+  uint64_t temp = uval;
   int len = 0;
   while (temp > 0) {
     len++;
-- 
2.43.0


From eb9f35906cdc341c1b02f6e9c4fa54a59de26dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 08/78] fix: string and symbol comparisons look past NUL
 characters

---
 src/c/eq.cc     |  4 ++--
 src/c/string.cc | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 4724daf..0cbf17a 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -16,7 +16,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
   if (is_sym(lhs) && is_sym(rhs)) {
     auto sym1 = cast<SCM_Symbol>(lhs);
     auto sym2 = cast<SCM_Symbol>(rhs);
-    return strcmp(sym1->data, sym2->data) == 0;
+    return sym1->len == sym2->len && memcmp(sym1->data, sym2->data, sym1->len) == 0;
   }
   
   // Handle strings
@@ -26,7 +26,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
     if (str1->len != str2->len) {
       return false;
     }
-    return strncmp(str1->data, str2->data, str1->len) == 0;
+    return memcmp(str1->data, str2->data, str1->len) == 0;
   }
   
   // Mixed types (sym and str) are not equal
diff --git a/src/c/string.cc b/src/c/string.cc
index e05b9f2..d510c3c 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -323,7 +323,7 @@ SCM *scm_c_string_eq(SCM *str1, SCM *str2) {
     return scm_bool_false();
   }
   
-  if (strncmp(s1->data, s2->data, s1->len) == 0) {
+  if (memcmp(s1->data, s2->data, s1->len) == 0) {
     return scm_bool_true();
   }
   return scm_bool_false();
@@ -813,7 +813,7 @@ SCM *scm_c_string_lt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -837,7 +837,7 @@ SCM *scm_c_string_gt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
@@ -861,7 +861,7 @@ SCM *scm_c_string_le(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -885,7 +885,7 @@ SCM *scm_c_string_ge(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
-- 
2.43.0


From 7a0d14834df6ec9918e6795949b9f6cf9abc8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 09/78] fix: list->vector rejects improper lists

---
 src/c/vector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/vector.cc b/src/c/vector.cc
index ca25720..5cae713 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -175,6 +175,10 @@ SCM *scm_c_list_to_vector(SCM *list) {
   size_t count = 0;
   SCM_List *current = cast<SCM_List>(list);
   while (current) {
+    if (current->is_dotted) {
+      eval_error("list->vector: expected proper list");
+      return nullptr;
+    }
     count++;
     if (!current->next) {
       break;
-- 
2.43.0


From 9d929b2da2e2702289a32bcc7e1519047b98be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 10/78] fix: append keeps dotted tails and rejects improper
 arguments

---
 src/c/list.cc | 123 ++++++++++----------------------------------------
 1 file changed, 25 insertions(+), 98 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 073800a..ff61a81 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -89,123 +89,50 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   return wrap(l);
 }
 
-// Helper function to copy a list element
-static SCM_List *_copy_list_element(SCM *data) {
-  return make_list(data);
-}
-
-// Helper function to check if a list is a dotted pair by checking is_dotted flag
-static bool _is_dotted_pair(SCM_List *l) {
-  if (!l || !l->next) {
-    return false;
-  }
-  // Find the last node and check its is_dotted flag
-  SCM_List *last = l;
-  while (last->next) {
-    last = last->next;
-  }
-  return last->is_dotted;
-}
-
-// append function: (append list1 list2 ...) -> concatenated list
-// If the last argument is a dotted pair, the result will also be a dotted pair
+// append function: (append list1 list2 ... obj) -> concatenated list
+// Every argument but the last must be a proper list and is copied; the last one
+// becomes the tail: a list continues the result, anything else makes it dotted
 SCM *scm_append(SCM_List *args) {
   if (!args) {
     return scm_nil();
   }
   
-  // If only one argument, return it
-  if (!args->next) {
-    return args->data;
-  }
-  
-  // Special case: (append '() non-list) -> non-list
-  // Check if first argument is nil and second is not a list
-  if (is_nil(args->data) && args->next) {
-    if (!args->next->next) {
-      // Only two arguments: (append '() x) -> x
-      return args->next->data;
-    }
-  }
-  
-  // Find the last argument to check if it's a dotted pair
-  // We need to check the actual value, not the expression, so we check after
-  // processing all arguments
-  SCM_List *last_arg = args;
-  while (last_arg->next) {
-    last_arg = last_arg->next;
-  }
-  // Check if the last argument evaluates to a dotted pair
-  // This is done after we've processed all arguments, so we can check the actual value
-  bool last_is_dotted_pair = false;
-  SCM *last_cdr = nullptr;
-  if (is_pair(last_arg->data)) {
-    SCM_List *last_list = cast<SCM_List>(last_arg->data);
-    if (_is_dotted_pair(last_list)) {
-      last_is_dotted_pair = true;
-      // Find the last node to get the cdr
-      SCM_List *last_node = last_list;
-      while (last_node->next) {
-        last_node = last_node->next;
-      }
-      last_cdr = last_node->data;
-    }
-  }
-  
-  // Build result by concatenating all lists
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   
   SCM_List *current = args;
-  while (current) {
+  while (current->next) {
     if (is_pair(current->data)) {
-      SCM_List *src = cast<SCM_List>(current->data);
-      if (current == last_arg && last_is_dotted_pair) {
-        // Last argument is a dotted pair: copy car, but preserve the cdr
-        // For (c . d), src points to the pair, src->data is c, src->next->data is d
-        // We copy c, but not d (which will be the final cdr)
-        if (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-        }
-        // The cdr (d) will be appended below, creating the dotted pair structure
-      } else {
-        // Regular list: copy all elements
-        while (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-          src = src->next;
+      for (SCM_List *src = cast<SCM_List>(current->data); src; src = src->next) {
+        if (src->is_dotted) {
+          eval_error("append: argument must be a proper list");
+          return nullptr;
         }
+        tail->next = make_list(src->data);
+        tail = tail->next;
       }
     } else if (!is_nil(current->data)) {
-      // Non-list, non-nil: just add it
-      SCM_List *node = _copy_list_element(current->data);
-      tail->next = node;
-      tail = node;
+      eval_error("append: argument must be a list");
+      return nullptr;
     }
     current = current->next;
   }
   
-  // If last argument was a dotted pair, append its cdr as the final cdr
-  // This creates a dotted pair structure: the last node's next points to a node with the cdr,
-  // and that node's next is nullptr, and is_dotted = true
-  if (last_is_dotted_pair && last_cdr) {
-    // Create a node for the cdr, but don't update tail
-    // This makes tail->next point to a node with data=cdr and next=nullptr
-    // which is the structure for a dotted pair
-    SCM_List *node = _copy_list_element(last_cdr);
-    node->is_dotted = true;  // Mark as dotted pair's cdr
-    tail->next = node;
-    // tail remains pointing to the previous node, so tail->next->next == nullptr
-    // This creates the dotted pair structure
+  SCM *last = current->data;
+  if (!dummy.next) {
+    return last;
   }
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  if (is_pair(last)) {
+    for (SCM_List *src = cast<SCM_List>(last); src; src = src->next) {
+      tail->next = make_list(src->data);
+      tail = tail->next;
+      tail->is_dotted = src->is_dotted;
+    }
+  } else if (!is_nil(last)) {
+    tail->next = make_list(last);
+    tail->next->is_dotted = true;
   }
-  return scm_nil();
+  return wrap(dummy.next);
 }
 
 // list-head: Copy the first k elements from lst into a new list
-- 
2.43.0


From a904428cdc1c780b3165722864f1fac83e4294f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 11/78] fix: list procedures honour dotted tails and last-pair
 handles odd lengths

---
 src/c/list.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index ff61a81..06e0750 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -159,7 +159,7 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
   SCM_List *tail = &dummy;
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (count > 0 && current) {
+  while (count > 0 && current && !current->is_dotted) {
     SCM_List *node = make_list(current->data);
     tail->next = node;
     tail = node;
@@ -193,7 +193,7 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (count > 0) {
-    if (!current || is_nil(wrap(current))) {
+    if (!current || current->is_dotted) {
       eval_error("list-tail: list too short");
       return nullptr;
     }
@@ -202,7 +202,8 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   }
   
   if (current) {
-    return wrap(current);
+    // The tail of a dotted list is its last cdr
+    return current->is_dotted ? current->data : wrap(current);
   }
   return scm_nil();
 }
@@ -257,12 +258,12 @@ SCM *scm_c_last_pair(SCM *lst) {
   // Floyd's cycle detection algorithm
   while (true) {
     // Move hare two steps
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return tortoise (last pair)
-      return wrap(tortoise);
+    if (!hare->next || hare->next->is_dotted) {
+      // Reached end, return hare (last pair)
+      return wrap(hare);
     }
     hare = hare->next;
-    if (!hare->next || is_nil(wrap(hare->next))) {
+    if (!hare->next || hare->next->is_dotted) {
       // Reached end, return hare (last pair)
       return wrap(hare);
     }
@@ -292,6 +293,10 @@ SCM *scm_c_reverse(SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
+    if (current->is_dotted) {
+      eval_error("reverse: argument must be a proper list");
+      return nullptr;
+    }
     auto new_node = make_list(current->data);
     new_node->next = result;
     result = new_node;
@@ -331,7 +336,7 @@ SCM *scm_c_list_ref(SCM *lst, SCM *k) {
   SCM_List *current = cast<SCM_List>(lst);
   int64_t i = 0;
   
-  while (current) {
+  while (current && !current->is_dotted) {
     if (i == idx) {
       return current->data;
     }
@@ -363,6 +368,10 @@ SCM *scm_c_length(SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
+    if (current->is_dotted) {
+      eval_error("length: argument must be a proper list");
+      return nullptr;
+    }
     count++;
     if (!current->next || is_nil(wrap(current->next))) {
       break;
-- 
2.43.0


From 1efae43adf5a576597fa6d5e3d57e79dbc758990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 12/78] fix: memv and member use eqv? and equal? and stop at a
 dotted tail

---
 src/c/list.cc | 36 +++++-------------------------------
 src/c/pscm.h  |  1 +
 2 files changed, 6 insertions(+), 31 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 06e0750..ee30acb 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -386,32 +386,6 @@ SCM *scm_c_length(SCM *lst) {
   return result;
 }
 
-// Helper function for eqv? comparison (used by memv)
-static bool _eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (!lhs || !rhs) return false;
-  
-  // Special case: allow NUM <-> FLOAT comparison (same as eq.cc)
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) return false;
-  
-  // For numbers (both NUM and FLOAT), use _number_eq for proper comparison
-  if (is_num(lhs) || is_float(lhs)) {
-    return _number_eq(lhs, rhs);
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
-}
-
 // memq: Return the first sublist of list whose car is obj (using eq? for comparison)
 // Returns #f if obj is not found
 // eq? uses pointer equality for lists and pairs, but value equality for numbers, symbols, etc.
@@ -426,7 +400,7 @@ SCM *scm_c_memq(SCM *obj, SCM *lst) {
   
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (current) {
+  while (current && !current->is_dotted) {
     // Use eq? for comparison
     // For immediate values (numbers, symbols, etc.), eq? compares by value
     // For compound types (lists, pairs), eq? uses pointer equality
@@ -458,8 +432,8 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
   
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (current) {
-    if (current->data && _eqv(obj, current->data)) {
+  while (current && !current->is_dotted) {
+    if (current->data && is_true(scm_c_is_eqv(obj, current->data))) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
@@ -486,8 +460,8 @@ SCM *scm_c_member(SCM *obj, SCM *lst) {
   
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (current) {
-    if (current->data && _eq(obj, current->data)) {
+  while (current && !current->is_dotted) {
+    if (current->data && is_true(scm_c_is_equal(obj, current->data))) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..bf3e807 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -779,6 +779,7 @@ void init_apply();
  */
 bool _eq(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_equal(SCM *lhs, SCM *rhs);
 
 /*
-- 
2.43.0


From 4395838f874093cd8683782b10563a88ed9df392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 13/78] fix: eq? and eqv? identify the same pair reached twice

---
 src/c/eq.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 0cbf17a..927ee2b 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -237,8 +237,8 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eq? uses pointer equality
-    return scm_bool_false();
+    // For compound types, eq? uses the identity of the object (a pair may be wrapped more than once)
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -291,8 +291,8 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eqv? uses pointer equality (same as eq?)
-    return scm_bool_false();
+    // For compound types, eqv? uses the identity of the object (same as eq?)
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
-- 
2.43.0


From 3593f5de94c3b04cec599f1a15c82ce56c8885c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 14/78] fix: association lists compare keys with eq? eqv?
 equal?, keep list values and reject non-lists

---
 src/c/alist.cc | 50 ++++++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..b1afb4f 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -1,6 +1,5 @@
 #include "pscm.h"
-#include <type_traits>
-bool _eq(SCM *lhs, SCM *rhs);
+#include "eval.h"
 
 // Helper function for eq? comparison (pointer/identity equality)
 // This implements the eq? predicate semantics: two objects are eq? if they are the same object
@@ -13,26 +12,19 @@ static bool is_eq_pointer(SCM *lhs, SCM *rhs) {
   if (lhs->type != rhs->type) {
     return false;
   }
-  // For symbols, compare by content (same as hash_table.cc scm_cmp_eq)
-  // This allows assq to work correctly with symbols
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
   // For strings, compare pointers (value field points to the same object)
   if (is_str(lhs)) {
     return lhs->value == rhs->value;
   }
-  // For numbers, compare values
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
+  // Everything else (symbols, numbers, characters, ...) compares like eq?
+  return is_true(scm_c_is_eq(lhs, rhs));
+}
+
+// Association lists are lists: anything else is an error, not a crash
+static void check_alist(SCM *alist, const char *who) {
+  if (!is_pair(alist) && !is_nil(alist)) {
+    eval_error("%s: expected association list", who);
   }
-  // For other types, use pointer comparison
-  return lhs == rhs;
 }
 
 // acons: (acons key value alist) -> new alist with (key . value) prepended
@@ -48,6 +40,7 @@ SCM *scm_c_acons(SCM *key, SCM *value, SCM *alist) {
 
 // assq: (assq key alist) -> pair or #f (using eq? for comparison)
 SCM *scm_c_assq(SCM *key, SCM *alist) {
+  check_alist(alist, "assq");
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -66,6 +59,7 @@ SCM *scm_c_assq(SCM *key, SCM *alist) {
 
 // assoc: (assoc key alist) -> pair or #f (using equal? for comparison)
 SCM *scm_c_assoc(SCM *key, SCM *alist) {
+  check_alist(alist, "assoc");
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -73,7 +67,7 @@ SCM *scm_c_assoc(SCM *key, SCM *alist) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (pair->data && is_true(scm_c_is_equal(key, pair->data))) {
         return l->data; // Return the pair
       }
     }
@@ -88,16 +82,12 @@ SCM *scm_c_assoc_ref(SCM *alist, SCM *key) {
   if (!pair || is_nil(pair) || (is_bool(pair) && is_false(pair))) {
     return scm_bool_false();
   }
-  // Return the cdr of the pair
-  auto pair_list = cast<SCM_List>(pair);
-  if (pair_list->next) {
-    return pair_list->next->data;
-  }
-  return scm_bool_false();
+  return cdr(pair);
 }
 
 // assoc-set!: (assoc-set! alist key value) -> new alist
 SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
+  check_alist(alist, "assoc-set!");
   if (is_nil(alist)) {
     // If alist is empty, create new entry
     return scm_c_acons(key, value, scm_nil());
@@ -111,7 +101,7 @@ SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (pair->data && is_true(scm_c_is_equal(key, pair->data))) {
         // Found matching key, replace with new pair
         SCM *new_pair = scm_cons(key, value);
         SCM_List *node = make_list(new_pair);
@@ -152,6 +142,7 @@ SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
 
 // assq-set!: (assq-set! alist key value) -> new alist (using eq? for comparison)
 SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
+  check_alist(alist, "assq-set!");
   if (is_nil(alist)) {
     // If alist is empty, create new entry
     return scm_c_acons(key, value, scm_nil());
@@ -206,6 +197,7 @@ SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
 
 // assoc-remove!: (assoc-remove! alist key) -> new alist (removes only first match)
 SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
+  check_alist(alist, "assoc-remove!");
   if (is_nil(alist)) {
     return scm_nil();
   }
@@ -218,7 +210,7 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (!removed && pair->data && _eq(key, pair->data)) {
+      if (!removed && pair->data && is_true(scm_c_is_equal(key, pair->data))) {
         // Skip this pair (remove it) - only remove first match
         removed = true;
       } else {
@@ -243,9 +235,7 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 }
 
 SCM *scm_c_assv(SCM *key, SCM *alist) {
-  assert(key);
-  assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
+  check_alist(alist, "assv");
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -254,7 +244,7 @@ SCM *scm_c_assv(SCM *key, SCM *alist) {
   while (it) {
     if (it->data && is_pair(it->data)) {
       auto pair = cast<SCM_List>(it->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (pair->data && is_true(scm_c_is_eqv(key, pair->data))) {
         return it->data;
       }
     }
-- 
2.43.0


From e3ff6c2b614d03be6a22a025d70d9fed1f324dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 15/78] fix: cadr of a dotted pair is an error

---
 src/c/pscm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/pscm.h b/src/c/pscm.h
index bf3e807..d88bed2 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -632,7 +632,7 @@ inline SCM *cadr(SCM *data) {
     type_error(data, "pair");
   }
   auto l = cast<SCM_List>(data);
-  if (!l || !l->next) {
+  if (!l || !l->next || l->next->is_dotted) {
     type_error(data, "pair with at least 2 elements");
   }
   SCM *result = l->next->data;
-- 
2.43.0


From e2b078ac8e5cfdc35939ffbadd894e50998ced3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 16/78] fix: list? is right for lists of more than 10000
 elements

---
 src/c/predicate.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/c/predicate.cc b/src/c/predicate.cc
index cff7ad6..9ea3e2a 100644
--- a/src/c/predicate.cc
+++ b/src/c/predicate.cc
@@ -90,15 +90,11 @@ SCM *scm_c_is_list(SCM *arg) {
   // A proper list ends with a node where next=nullptr and is_dotted=false
   // (cdr of the last node returns nil)
   SCM_List *l = cast<SCM_List>(arg);
-  // Use a simple cycle detection: limit traversal count
-  int count = 0;
-  const int MAX_COUNT = 10000;  // Reasonable limit for list length
+  // Floyd's cycle detection: a circular list is not a proper list
+  SCM_List *slow = l;
+  bool step = false;
   
   while (l) {
-    if (count++ > MAX_COUNT) {
-      // Likely a circular list, return #f
-      return scm_bool_false();
-    }
     // Check if this node is a dotted pair marker
     if (l->is_dotted) {
       // This is a dotted pair, not a proper list
@@ -111,6 +107,13 @@ SCM *scm_c_is_list(SCM *arg) {
     }
     // Move to next node
     l = l->next;
+    if (step) {
+      slow = slow->next;
+    }
+    step = !step;
+    if (l == slow) {
+      return scm_bool_false();
+    }
   }
   // Should not reach here, but if we do, it's not a proper list
   return scm_bool_false();
-- 
2.43.0


From 6f5b0b8434fc64dd3615ce2186046249d4b7902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 17/78] fix: hash tables hash and compare keys consistently
 with eq? eqv? and equal?

---
 src/c/hash_table.cc | 135 +++++++++++++++++---------------------------
 1 file changed, 52 insertions(+), 83 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..8b23c6e 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -11,23 +11,27 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
-// Hash function for eq? (pointer equality)
-static unsigned long scm_hash_code_eq(SCM *key) {
-  // For symbols, use content-based hash (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
+// Value-based hash for numbers: numbers that are equal? hash alike,
+// so an integral float hashes like the integer
+static unsigned long hash_number(SCM *key) {
+  if (is_float(key)) {
+    double d = ptr_to_double(key->value);
+    if (d >= -9223372036854775808.0 && d < 9223372036854775808.0 && d == (double)(int64_t)d) {
+      return (unsigned long)(int64_t)d;
+    }
+    return (unsigned long)(uintptr_t)key->value;
+  }
+  if (is_ratio(key)) {
+    auto rat = cast<SCM_Rational>(key);
+    return (unsigned long)rat->numerator * 31 + (unsigned long)rat->denominator;
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
+  return (unsigned long)(int64_t)key->value;
 }
 
 // Hash function for eqv? (value equality for numbers/chars)
 static unsigned long scm_hash_code_eqv(SCM *key) {
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
+  if (is_num(key) || is_float(key) || is_ratio(key)) {
+    return hash_number(key);
   }
   if (is_char(key)) {
     return (unsigned char)ptr_to_char(key->value);
@@ -35,99 +39,64 @@ static unsigned long scm_hash_code_eqv(SCM *key) {
   if (is_bool(key)) {
     return is_true(key) ? 1 : 0;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
+  // For symbols, use content-based hash (same as equal?) to ensure compatibility
+  // This allows hash-set! and hashq-get-handle to work on the same table
+  // In Guile, symbols are interned so eq? and equal? hash to the same value
+  if (is_sym(key)) {
+    auto sym = cast<SCM_Symbol>(key);
+    return hash_string_content(sym->data, sym->len);
+  }
+  // Otherwise use the identity of the object (a pair may be wrapped more than once)
+  return (unsigned long)(uintptr_t)key->value;
 }
 
-// Hash function for equal? (deep equality)
-// Helper function to compute hash code for a list recursively
-static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
-    return 0;
-  }
-  auto l = cast<SCM_List>(list);
-  unsigned long hash = 0;
-  while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
-    } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
-    }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
-  }
-  return hash;
+// Hash function for eq? (numbers and characters are eq? when they are eqv?)
+static unsigned long scm_hash_code_eq(SCM *key) {
+  return scm_hash_code_eqv(key);
 }
 
+// Hash function for equal? (deep equality): values that are equal? hash alike
 static unsigned long scm_hash_code_equal(SCM *key) {
-  // For symbols, use content-based hash (not pointer-based) for equal?
-  // This ensures that different symbol objects with the same name hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
-  }
-  // For strings, use content-based hash
   if (is_str(key)) {
     auto str = cast<SCM_String>(key);
     return hash_string_content(str->data, str->len);
   }
-  // For numbers, use value-based hash
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
-  }
-  // For lists, use content-based hash
   if (is_pair(key)) {
-    return hash_list_content(key);
+    unsigned long hash = 0;
+    for (SCM *it = key; ; it = cdr(it)) {
+      if (!is_pair(it)) {
+        return is_nil(it) ? hash : hash * 31 + scm_hash_code_equal(it);
+      }
+      hash = hash * 31 + scm_hash_code_equal(car(it));
+    }
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
-}
-
-// Comparison functions
-static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
-  // For symbols, use content-based comparison (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? return the same value
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
+  if (is_vector(key)) {
+    auto vec = cast<SCM_Vector>(key);
+    unsigned long hash = vec->length;
+    for (size_t i = 0; i < vec->length; i++) {
+      hash = hash * 31 + scm_hash_code_equal(vec->elements[i]);
     }
-    // Use memcmp since we already know lengths are equal
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
+    return hash;
   }
-  return lhs == rhs;
+  return scm_hash_code_eqv(key);
 }
 
+// Comparison functions
 static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
   if (lhs == rhs) return true;
-  if (lhs->type != rhs->type) return false;
-  if (is_num(lhs)) {
+  // Strings are compared by identity
+  if (is_str(lhs) && is_str(rhs)) {
     return lhs->value == rhs->value;
   }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eqv(lhs, rhs));
+}
+
+static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
+  return scm_cmp_eqv(lhs, rhs);
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
-  return _eq(lhs, rhs);
+  return is_true(scm_c_is_equal(lhs, rhs));
 }
 
 // Helper function to validate hash table and compute bucket index
-- 
2.43.0


From 197b6c6d4de298c77e04244172615d4375359a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 18/78] fix: hash table handles stay live: set-cdr! is seen by
 hash-ref and hash-create-handle! keeps an existing value

---
 src/c/hash_table.cc | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8b23c6e..4f51fa2 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -116,13 +116,18 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 
 // Helper function to update existing entry's value
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  if (entry->next) {
-    entry->next->data = value;
-    entry->next->is_dotted = true;  // Ensure it's marked as dotted pair
-  } else {
-    entry->next = make_list(value);
-    entry->next->is_dotted = true;  // Mark as dotted pair's cdr
+  // A fresh cdr node: the old one may be part of a list set through the handle
+  entry->next = make_list(value);
+  entry->next->is_dotted = true;  // Mark as dotted pair's cdr
+}
+
+// Helper function to read an entry's value: the cdr of its handle, which
+// set-cdr! may have turned into a list
+static SCM *entry_value(SCM_List *entry) {
+  if (!entry->next) {
+    return scm_nil();
   }
+  return entry->next->is_dotted ? entry->next->data : wrap(entry->next);
 }
 
 // Helper function to find entry in bucket
@@ -266,15 +271,7 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    // entry is (key . value) pair
-    // If entry->next is nullptr, it means value is nil (from scm_cons when cdr is nil)
-    // If entry->next exists, entry->next->data is the value
-    if (entry->next) {
-      return entry->next->data;
-    } else {
-      // entry->next is nullptr means value is nil
-      return scm_nil();
-    }
+    return entry_value(entry);
   }
   
   return scm_bool_false();
@@ -313,9 +310,8 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
-    // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    // The key already has a handle: return it unchanged
+    return wrap(entry);
   }
   
   // Create new entry and insert at head of bucket
@@ -358,9 +354,9 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
+          if (entry->data) {
             SCM *key = entry->data;
-            SCM *value = entry->next->data;
+            SCM *value = entry_value(entry);
             
             // Call proc with (key value result)
             // Build call expression: (proc key value result)
-- 
2.43.0


From 8a872aa3b78b33af5687c0f46eecd6f4dbaadb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 19/78] fix: make-hash-table rejects negative sizes and
 survives huge ones

---
 src/c/hash_table.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 4f51fa2..65a0fff 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -218,9 +218,14 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       eval_error("make-hash-table: size must be an integer");
       return nullptr;
     }
-    capacity = (size_t)(int64_t)size_arg->value;
-    if (capacity == 0) {
-      capacity = 31;
+    int64_t size = (int64_t)size_arg->value;
+    if (size < 0) {
+      eval_error("make-hash-table: size must be non-negative");
+      return nullptr;
+    }
+    // The size is only a hint: bound the number of buckets
+    if (size > 0) {
+      capacity = size < 65536 ? (size_t)size : 65536;
     }
   }
   
-- 
2.43.0


From 7b0f07a55d67170b6e1da1e19ad8203ae73fb5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 20/78] fix: a parse error drops its parse stack instead of
 leaving pointers into freed text

---
 src/c/parse.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 242bce6..b4c4467 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -66,6 +66,13 @@ static void pop_parse_stack() {
   }
 }
 
+// Drop every remaining frame
+static void clear_parse_stack() {
+  while (g_parse_stack) {
+    pop_parse_stack();
+  }
+}
+
 // Print the parse stack
 static void print_parse_stack(Parser *p) {
   if (!g_parse_stack) {
@@ -254,6 +261,8 @@ static void parse_error(Parser *p, const char *msg) {
   }
   
   fflush(stderr);
+  // The contexts being parsed are abandoned: their frames point into this input
+  clear_parse_stack();
   eval_error("Parse error: %s", msg);
 }
 
@@ -1330,6 +1339,7 @@ SCM *parse(const char *s) {
   p.filename = nullptr;
   p.line = 1;
   p.column = 1;
+  clear_parse_stack();
   
   SCM *result = parse_expr(&p);
   if (!result) {
@@ -1422,6 +1432,7 @@ SCM_List *parse_file(const char *filename) {
   p.filename = filename;
   p.line = 1;
   p.column = 1;
+  clear_parse_stack();
   
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
@@ -1480,6 +1491,7 @@ SCM_List *parse_string(const char *str) {
   p.filename = nullptr;  // No filename for string input
   p.line = 1;
   p.column = 1;
+  clear_parse_stack();
   
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
-- 
2.43.0


From 6ee46df08c9d1cf84ce285b636e4e21bb663e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 21/78] fix: integer literals out of range are errors and real
 literals are rounded correctly

---
 src/c/parse.cc | 60 +++++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index b4c4467..116e7c2 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -345,32 +345,32 @@ static SCM *parse_number(Parser *p) {
   }
   
   // Parse integer part
-  long int_part = 0;
+  int64_t int_part = 0;
+  bool overflow = false;
   while (isdigit((unsigned char)*p->pos)) {
-    int_part = int_part * 10 + (*p->pos - '0');
+    int digit = *p->pos - '0';
+    // Accumulate with the sign, so that the most negative integer can be read
+    if (__builtin_mul_overflow(int_part, (int64_t)10, &int_part) ||
+        __builtin_add_overflow(int_part, (int64_t)(negative ? -digit : digit), &int_part)) {
+      overflow = true;
+    }
     p->pos++;
     p->column++;
   }
   
   // Check for decimal point
   bool is_float = false;
-  double float_value = (double)int_part;
   
   if (*p->pos == '.') {
     is_float = true;
     p->pos++;
     p->column++;
   
-    // Parse fractional part
-    double fractional = 0.0;
-    double divisor = 1.0;
+    // Skip fractional part
     while (isdigit((unsigned char)*p->pos)) {
-      fractional = fractional * 10 + (*p->pos - '0');
-      divisor *= 10;
       p->pos++;
       p->column++;
     }
-    float_value += fractional / divisor;
   }
   
   // Check for exponent (scientific notation)
@@ -379,47 +379,33 @@ static SCM *parse_number(Parser *p) {
     p->pos++;
     p->column++;
     
-    // Parse exponent sign
-    bool exp_negative = false;
-    if (*p->pos == '-') {
-      exp_negative = true;
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '+') {
+    // Skip exponent sign
+    if (*p->pos == '-' || *p->pos == '+') {
       p->pos++;
       p->column++;
     }
     
-    // Parse exponent value
-    long exp = 0;
+    // Skip exponent value
     if (!isdigit((unsigned char)*p->pos)) {
       parse_error(p, "expected digit after exponent marker");
     }
     while (isdigit((unsigned char)*p->pos)) {
-      exp = exp * 10 + (*p->pos - '0');
       p->pos++;
       p->column++;
     }
-    
-    // Apply exponent
-    double multiplier = 1.0;
-    for (long i = 0; i < exp; i++) {
-      multiplier *= 10.0;
-    }
-    if (exp_negative) {
-      float_value /= multiplier;
-    } else {
-      float_value *= multiplier;
-    }
   }
   
-  // Apply sign
-  if (negative) {
-    if (is_float) {
-      float_value = -float_value;
-    } else {
-      int_part = -int_part;
-    }
+  double float_value = 0.0;
+  if (is_float) {
+    // Convert the whole literal at once: it is rounded correctly
+    size_t len = p->pos - start;
+    char *text = new char[len + 1];
+    memcpy(text, start, len);
+    text[len] = '\0';
+    float_value = strtod(text, nullptr);
+    delete[] text;
+  } else if (overflow) {
+    parse_error(p, "integer literal out of range");
   }
   
   // Create SCM object
-- 
2.43.0


From 1c6b1faa12c04e2371d007ce6c639db225203393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 22/78] fix: (a . (b)) and (a . ()) read as the lists (a b) and
 (a)

---
 src/c/parse.cc | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 116e7c2..cb80c15 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1025,6 +1025,20 @@ static SCM *parse_unquote_in_list(Parser *p) {
   return scm;
 }
 
+// Set what follows the last element of a list to the expression after the dot
+static void set_list_tail(SCM_List *tail, SCM *cdr, bool is_unquote) {
+  if (is_nil(cdr)) {
+    return;  // (a . ()) is (a)
+  }
+  if (is_pair(cdr) && !is_unquote) {
+    tail->next = cast<SCM_List>(cdr);  // (a . (b c)) is (a b c)
+    return;
+  }
+  // A dotted tail; (a . ,x) is kept in one node for quasiquote
+  tail->next = make_list(cdr);
+  tail->next->is_dotted = true;
+}
+
 // Parse a list
 static SCM *parse_list(Parser *p) {
   if (*p->pos != '(') {
@@ -1105,6 +1119,7 @@ static SCM *parse_list(Parser *p) {
         
         // Check for unquote/unquote-splicing in dotted pair context
         SCM *cdr = parse_unquote_in_list(p);
+        bool is_unquote = cdr != nullptr;
         if (!cdr) {
           cdr = parse_expr(p);
         }
@@ -1113,20 +1128,7 @@ static SCM *parse_list(Parser *p) {
           parse_error(p, "expected expression after dot");
         }
         
-        // Create node for cdr and mark it as dotted pair
-        if (is_pair(cdr)) {
-          // When cdr is a pair, wrap it in a node to store it
-          // This allows us to mark the wrapper as dotted, while keeping the
-          // cdr list itself unmarked (if it's a proper list)
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark the wrapper node as dotted
-          // The cdr list itself (cdr) is not modified - its internal structure
-          // remains unchanged. The printing code will check if cdr is a proper
-          // list and expand it: (a b . (c d)) -> (a b c d)
-        } else {
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark as dotted pair's cdr
-        }
+        set_list_tail(tail, cdr, is_unquote);
         skip_whitespace(p);
         break;
       }
@@ -1139,6 +1141,7 @@ static SCM *parse_list(Parser *p) {
       
       // Check for unquote/unquote-splicing in dotted pair context
       SCM *cdr = parse_unquote_in_list(p);
+      bool is_unquote = cdr != nullptr;
       if (!cdr) {
         cdr = parse_expr(p);
       }
@@ -1147,14 +1150,7 @@ static SCM *parse_list(Parser *p) {
         parse_error(p, "expected expression after dot");
       }
       
-      // Create node for cdr and mark it as dotted pair
-      if (is_pair(cdr)) {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      } else {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      }
+      set_list_tail(tail, cdr, is_unquote);
       skip_whitespace(p);
       break;
     }
-- 
2.43.0


From d3b572ee8ea19d4aa4ae8ef088ac56e06d3526f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 23/78] fix: strings written with octal escapes read back

---
 src/c/parse.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index cb80c15..68652be 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -657,6 +657,12 @@ static SCM *parse_vector(Parser *p) {
   return scm;
 }
 
+// After a backslash: three octal digits naming a character
+static bool is_octal_escape(const char *src, const char *end) {
+  return end - src >= 3 && src[0] >= '0' && src[0] <= '3' && src[1] >= '0' && src[1] <= '7' &&
+         src[2] >= '0' && src[2] <= '7';
+}
+
 // Parse a string
 static SCM *parse_string(Parser *p) {
   if (*p->pos != '"') {
@@ -718,7 +724,7 @@ static SCM *parse_string(Parser *p) {
       escape = false;
       // Escape sequence counts as one character
       actual_len++;
-      src++;
+      src += is_octal_escape(src, end) ? 3 : 1;
     } else if (*src == '\\') {
       escape = true;
       src++;
@@ -737,6 +743,12 @@ static SCM *parse_string(Parser *p) {
   while (src < end) {
     if (escape) {
       escape = false;
+      if (is_octal_escape(src, end)) {
+        // \ooo, the form in which write shows a non-printable character
+        *dst++ = (char)((src[0] - '0') * 64 + (src[1] - '0') * 8 + (src[2] - '0'));
+        src += 3;
+        continue;
+      }
       switch (*src) {
         case 'n': *dst++ = '\n'; break;
         case 't': *dst++ = '\t'; break;
-- 
2.43.0


From 938a77af58bb3bc35c06a81a86634cdd3cbe8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 24/78] fix: NUL characters, NUL in displayed strings, rounded
 reals and malformed quote forms are printed faithfully

---
 src/c/parse.cc |  2 ++
 src/c/print.cc | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 68652be..9b5544c 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -519,6 +519,8 @@ static SCM *parse_char(Parser *p) {
       name_lower[3] = '\0';
       if (strcmp(name_lower, "tab") == 0) {
         ch = '\t';
+      } else if (strcmp(name_lower, "nul") == 0) {
+        ch = '\0';
       } else {
         // Not a named character, treat the first character as the character value
         p->pos = name_start;
diff --git a/src/c/print.cc b/src/c/print.cc
index 4e65af9..e2aec18 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -88,7 +88,10 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     } else {
       // Use %.14g to match Guile's precision (14 significant digits)
       // This will show enough precision for sqrt(2) = 1.4142135623731
-      printf("%.14g", val);
+      char text[64];
+      snprintf(text, sizeof(text), "%.14g", val);
+      // Rounding may leave only digits: keep the mark of a float
+      printf(strspn(text, "-0123456789") == strlen(text) ? "%s.0" : "%s", text);
     }
     return;
   }
@@ -110,6 +113,8 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
         printf("#\\newline");
       } else if (ch == '\t') {
         printf("#\\ht");
+      } else if (ch == '\0') {
+        printf("#\\nul");
       } else {
         printf("#\\%c", ch);
       }
@@ -155,7 +160,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
       printf("\"");
     } else {
       // Display format: without quotes
-      printf("%s", str->data);
+      fwrite(str->data, 1, str->len, stdout);
     }
     return;
   }
@@ -318,11 +323,14 @@ static bool _is_dotted_pair(SCM_List *l) {
   return last->is_dotted;
 }
 
-// Helper function to check if a list starts with a specific symbol
+// Helper function to check if a list is (sym_name x), the form written by ' ` , and ,@
 static bool _list_starts_with(SCM_List *l, const char *sym_name) {
   if (!l || !l->data || !is_sym(l->data)) {
     return false;
   }
+  if (!l->next || l->next->is_dotted || l->next->next) {
+    return false;
+  }
   SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
   return strcmp(sym->data, sym_name) == 0;
 }
-- 
2.43.0


From 824be925468449f1d0f27fe4b50e903a38988fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 25/78] fix: display, write and newline reach soft ports, and
 soft ports opened for both directions accept output

---
 src/c/port.cc   | 69 +++++++++++++++++++++++++++++++------------------
 src/c/string.cc | 55 +++++++--------------------------------
 2 files changed, 53 insertions(+), 71 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c39c9a4..cfa3bad 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -344,6 +344,25 @@ static int peek_char_from_port(SCM_Port *port) {
   return EOF;
 }
 
+// Helper function to call the output procedure of a soft port at the given index
+static void call_soft_port_writer(SCM_Port *port, size_t index, SCM *arg) {
+  if (!port->soft_procedures || port->soft_procedures->length <= index) {
+    return;
+  }
+  SCM *writer = port->soft_procedures->elements[index];
+  if (!writer || is_falsy(writer)) {
+    return;
+  }
+  SCM_List *proc_args = make_list(arg);
+  if (is_proc(writer)) {
+    apply_procedure(g_env.parent ? g_env.parent : &g_env, cast<SCM_Procedure>(writer), proc_args);
+  } else if (is_func(writer)) {
+    SCM_List *func_call = make_list(writer);
+    func_call->next = proc_args;
+    eval_with_func(cast<SCM_Function>(writer), func_call);
+  }
+}
+
 // Helper function to write a character to a port (exported for use in string.cc)
 void write_char_to_port_string(SCM_Port *port, char ch) {
   if (port->is_closed) {
@@ -361,34 +380,34 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     }
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT) {
     // Call procedure at index 0 (accept one character for output)
-    if (!port->soft_procedures || port->soft_procedures->length < 1) {
-      return;
-    }
-    SCM *write_char_proc = port->soft_procedures->elements[0];
-    if (!write_char_proc || is_falsy(write_char_proc)) {
-      return;
-    }
-    // Call the procedure with the character
-    SCM *char_obj = scm_from_char(ch);
-    SCM_List proc_args;
-    proc_args.data = char_obj;
-    proc_args.next = nullptr;
-    proc_args.is_dotted = false;
-    if (is_proc(write_char_proc)) {
-      SCM_Procedure *proc = cast<SCM_Procedure>(write_char_proc);
-      apply_procedure(g_env.parent ? g_env.parent : &g_env, proc, &proc_args);
-    } else if (is_func(write_char_proc)) {
-      SCM_Function *func = cast<SCM_Function>(write_char_proc);
-      SCM_List func_call;
-      func_call.data = write_char_proc;
-      func_call.next = &proc_args;
-      eval_with_func(func, &func_call);
+    call_soft_port_writer(port, 0, scm_from_char(ch));
+  }
+}
+
+// Helper function to write a string to a port (exported for use in string.cc)
+void write_string_to_port(SCM_Port *port, const char *str, size_t len) {
+  if (port->port_type == PORT_SOFT) {
+    // Call procedure at index 1 (accept a string for output)
+    if (!port->is_closed) {
+      call_soft_port_writer(port, 1, scm_from_c_string_port(str, (int)len));
     }
+    return;
+  }
+  for (size_t i = 0; i < len; i++) {
+    write_char_to_port_string(port, str[i]);
   }
 }
 
+// Can the port be written to? Soft ports may be opened for both directions
+bool is_writable_port(SCM_Port *port) {
+  if (port->port_type == PORT_SOFT) {
+    return port->soft_modes && strchr(port->soft_modes, 'w') != nullptr;
+  }
+  return !port->is_input;
+}
+
 // Helper function to flush a port
 static void flush_port(SCM_Port *port) {
   if (port->is_closed) {
@@ -399,7 +418,7 @@ static void flush_port(SCM_Port *port) {
     if (port->file) {
       fflush(port->file);
     }
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT) {
     // Call procedure at index 2 (flush output thunk)
     if (!port->soft_procedures || port->soft_procedures->length < 3) {
       return;
@@ -547,7 +566,7 @@ SCM *scm_force_output(SCM_List *args) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!is_writable_port(p)) {
     eval_error("force-output: expected output port");
     return nullptr;
   }
diff --git a/src/c/string.cc b/src/c/string.cc
index d510c3c..4774f5b 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -118,47 +118,10 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
   return scm_none(); // Return unspecified value
 }
 
-// Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputs(str, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    int len = strlen(str);
-    while (port->output_len + len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    memcpy(port->output_buffer + port->output_len, str, len);
-    port->output_len += len;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
-
-// Helper function to write character to port
-static void write_char_to_port_string(SCM_Port *port, char ch) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputc(ch, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    if (port->output_len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    port->output_buffer[port->output_len++] = ch;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
+// Write to any kind of output port (port.cc)
+void write_char_to_port_string(SCM_Port *port, char ch);
+void write_string_to_port(SCM_Port *port, const char *str, size_t len);
+bool is_writable_port(SCM_Port *port);
 
 // display: Output the argument using display format (without quotes for strings)
 // display obj [port]
@@ -180,7 +143,7 @@ SCM *scm_c_display(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!is_writable_port(port)) {
       eval_error("display: expected output port");
       return nullptr;
     }
@@ -212,7 +175,7 @@ SCM *scm_c_display(SCM_List *args) {
     buffer[total] = '\0';
     stdout = old_stdout;
     fclose(tmp_file);
-    write_string_to_port(port, buffer);
+    write_string_to_port(port, buffer, total);
     free(buffer);
   } else {
     print_ast(obj, false); // Use display format (write_mode = false)
@@ -240,7 +203,7 @@ SCM *scm_c_write(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!is_writable_port(port)) {
       eval_error("write: expected output port");
       return nullptr;
     }
@@ -272,7 +235,7 @@ SCM *scm_c_write(SCM_List *args) {
     buffer[total] = '\0';
     stdout = old_stdout;
     fclose(tmp_file);
-    write_string_to_port(port, buffer);
+    write_string_to_port(port, buffer, total);
     free(buffer);
   } else {
     print_ast(obj, true); // Use write format (write_mode = true)
@@ -293,7 +256,7 @@ SCM *scm_c_newline(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!is_writable_port(port)) {
       eval_error("newline: expected output port");
       return nullptr;
     }
-- 
2.43.0


From a94b2778a3dea46e9bf202d05047e5177ef9be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 26/78] fix: peek-char and read work on soft ports

---
 src/c/port.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/c/port.cc b/src/c/port.cc
index cfa3bad..e3c836a 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -283,6 +283,10 @@ static int read_char_from_port(SCM_Port *port) {
     if (!get_char_proc || is_falsy(get_char_proc)) {
       return EOF;
     }
+    // A character already fetched by peek comes first
+    if (port->string_pos < port->string_len) {
+      return (unsigned char)port->string_data[port->string_pos++];
+    }
     // Call the procedure (thunk, no arguments)
     SCM *result = call_soft_port_thunk(get_char_proc);
     if (!result) {
@@ -339,6 +343,18 @@ static int peek_char_from_port(SCM_Port *port) {
       return EOF;
     }
     return (unsigned char)port->string_data[port->string_pos];
+  } else if (port->port_type == PORT_SOFT) {
+    // Fetch a character and keep it for the next read
+    int ch = read_char_from_port(port);
+    if (ch != EOF) {
+      if (!port->string_data) {
+        port->string_data = new char[1];
+      }
+      port->string_data[0] = (char)ch;
+      port->string_pos = 0;
+      port->string_len = 1;
+    }
+    return ch;
   }
   
   return EOF;
-- 
2.43.0


From e025650e10e004f9b0f8de9794c86f34cc337e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 27/78] fix: read handles comments, character literals,
 adjacent expressions and long expressions

---
 src/c/port.cc | 102 +++++++++++++++++++++++++++-----------------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index e3c836a..e75a044 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -617,6 +617,7 @@ static SCM *read_expr_from_port(SCM_Port *port) {
     int ch = peek_char_from_port(port);
     if (ch == EOF) {
       if (!started) {
+        free(buffer);
         return scm_eof_object();
       }
       break;
@@ -656,16 +657,61 @@ static SCM *read_expr_from_port(SCM_Port *port) {
     return scm_eof_object();
   }
   
-  // Read until we have a complete expression
-  while (pos < (int)buffer_size - 1) {
-    int ch = read_char_from_port(port);
+  // Read until we have a complete expression. A character is only consumed
+  // when it belongs to the expression, so the next read starts right after it.
+  bool complete = false;
+  int atom_len = 0;       // Length of the atom being read
+  bool in_name = false;   // Inside #{...}#
+  bool in_comment = false;
+  while (!complete) {
+    int ch = peek_char_from_port(port);
     if (ch == EOF) {
-      if (paren_depth == 0 && !in_string) {
-        break;
+      break;  // The parser reports an incomplete expression
+    }
+    char last = pos > 0 ? buffer[pos - 1] : '\0';
+    
+    if (in_comment) {
+      in_comment = ch != '\n';
+    } else if (in_string) {
+      if (escaped) {
+        escaped = false;
+      } else if (ch == '\\') {
+        escaped = true;
+      } else if (ch == '"') {
+        in_string = false;
+        complete = paren_depth == 0;
+      }
+    } else if (in_name) {
+      if (last == '}' && ch == '#') {
+        in_name = false;
+      }
+    } else if (atom_len == 1 && last == '#' && (ch == '(' || ch == '{')) {
+      if (ch == '(') {
+        paren_depth++;
+        atom_len = 0;
+      } else {
+        in_name = true;
+        atom_len++;
       }
-      // Incomplete expression
-      free(buffer);
-      return scm_eof_object();
+    } else if (atom_len == 2 && last == '\\' && buffer[pos - 2] == '#') {
+      atom_len++;  // The character of a character literal
+    } else if (isspace(ch) || strchr("();\"'`,", ch) != nullptr) {
+      if (atom_len > 0 && paren_depth == 0) {
+        break;  // The end of an atom at top level
+      }
+      atom_len = 0;
+      if (ch == '(') {
+        paren_depth++;
+      } else if (ch == ')') {
+        paren_depth--;
+        complete = paren_depth <= 0;
+      } else if (ch == '"') {
+        in_string = true;
+      } else if (ch == ';') {
+        in_comment = true;
+      }
+    } else if (!(ch == '@' && last == ',')) {
+      atom_len++;
     }
     
     // Resize buffer if needed
@@ -679,45 +725,7 @@ static SCM *read_expr_from_port(SCM_Port *port) {
       }
       buffer = new_buffer;
     }
-    
-    buffer[pos++] = (char)ch;
-    
-    if (escaped) {
-      escaped = false;
-      continue;
-    }
-    
-    if (ch == '\\' && in_string) {
-      escaped = true;
-      continue;
-    }
-    
-    if (ch == '"') {
-      in_string = !in_string;
-      continue;
-    }
-    
-    if (in_string) {
-      continue;
-    }
-    
-    if (ch == '(') {
-      paren_depth++;
-    } else if (ch == ')') {
-      paren_depth--;
-      if (paren_depth < 0) {
-        // Too many closing parens
-        break;
-      }
-      if (paren_depth == 0) {
-        // Complete expression
-        break;
-      }
-    } else if (paren_depth == 0 && (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')) {
-      // End of expression at top level
-      pos--;  // Don't include the whitespace
-      break;
-    }
+    buffer[pos++] = (char)read_char_from_port(port);
   }
   
   buffer[pos] = '\0';
-- 
2.43.0


From 12d3f4819b3f3ef4a8910fa6e6b231e6d2a89aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 28/78] fix: set-current-output-port redirects display, write,
 newline and write-char

---
 src/c/port.cc   | 20 ++++++++++++++++++--
 src/c/string.cc | 13 +++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index e75a044..8376898 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -491,6 +491,7 @@ SCM *scm_set_current_error_port(SCM *port) {
 // Global current input/output ports
 static SCM *g_current_input_port = nullptr;
 static SCM *g_current_output_port = nullptr;
+static SCM *g_initial_output_port = nullptr;
 
 SCM *scm_current_input_port() {
   if (!g_current_input_port) {
@@ -543,17 +544,26 @@ SCM *scm_current_output_port() {
     port->soft_procedures = nullptr;
     port->soft_modes = nullptr;
     g_current_output_port = wrap_port(port);
+    g_initial_output_port = g_current_output_port;
   }
   return g_current_output_port;
 }
 
+// The current output port if it was set to another port than the initial one
+SCM_Port *redirected_output_port() {
+  if (!g_current_output_port || g_current_output_port == g_initial_output_port) {
+    return nullptr;
+  }
+  return cast<SCM_Port>(g_current_output_port);
+}
+
 SCM *scm_set_current_output_port(SCM *port) {
   if (!is_port(port)) {
     eval_error("set-current-output-port: expected port");
     return nullptr;
   }
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!is_writable_port(p)) {
     eval_error("set-current-output-port: expected output port");
     return nullptr;
   }
@@ -571,7 +581,10 @@ SCM *scm_force_output(SCM_List *args) {
   
   if (!port || is_nil(port)) {
     // Default to current output port (stdout)
-    // For now, just flush stdout
+    if (SCM_Port *current = redirected_output_port()) {
+      flush_port(current);
+      return scm_none();
+    }
     fflush(stdout);
     return scm_none();
   }
@@ -903,6 +916,8 @@ SCM *scm_c_write_char(SCM_List *args) {
       return nullptr;
     }
     write_char_to_port_string(port, ch);
+  } else if (SCM_Port *current = redirected_output_port()) {
+    write_char_to_port_string(current, ch);
   } else {
     // Write to stdout
     putchar(ch);
@@ -1276,5 +1291,6 @@ void register_port_roots() {
   gc_register_root(&g_current_error_port, "g_current_error_port");
   gc_register_root(&g_current_input_port, "g_current_input_port");
   gc_register_root(&g_current_output_port, "g_current_output_port");
+  gc_register_root(&g_initial_output_port, "g_initial_output_port");
 }
 
diff --git a/src/c/string.cc b/src/c/string.cc
index 4774f5b..80f0e6c 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -122,6 +122,7 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
 void write_char_to_port_string(SCM_Port *port, char ch);
 void write_string_to_port(SCM_Port *port, const char *str, size_t len);
 bool is_writable_port(SCM_Port *port);
+SCM_Port *redirected_output_port();
 
 // display: Output the argument using display format (without quotes for strings)
 // display obj [port]
@@ -137,16 +138,19 @@ SCM *scm_c_display(SCM_List *args) {
     port_arg = args->next->data;
   }
   
+  SCM_Port *port = redirected_output_port();
   if (port_arg) {
     if (!is_port(port_arg)) {
       eval_error("display: second argument must be a port");
       return nullptr;
     }
-    SCM_Port *port = cast<SCM_Port>(port_arg);
+    port = cast<SCM_Port>(port_arg);
     if (!is_writable_port(port)) {
       eval_error("display: expected output port");
       return nullptr;
     }
+  }
+  if (port) {
     FILE *old_stdout = stdout;
     FILE *tmp_file = tmpfile();
     if (!tmp_file) {
@@ -197,16 +201,19 @@ SCM *scm_c_write(SCM_List *args) {
     port_arg = args->next->data;
   }
   
+  SCM_Port *port = redirected_output_port();
   if (port_arg) {
     if (!is_port(port_arg)) {
       eval_error("write: second argument must be a port");
       return nullptr;
     }
-    SCM_Port *port = cast<SCM_Port>(port_arg);
+    port = cast<SCM_Port>(port_arg);
     if (!is_writable_port(port)) {
       eval_error("write: expected output port");
       return nullptr;
     }
+  }
+  if (port) {
     FILE *old_stdout = stdout;
     FILE *tmp_file = tmpfile();
     if (!tmp_file) {
@@ -261,6 +268,8 @@ SCM *scm_c_newline(SCM_List *args) {
       return nullptr;
     }
     write_char_to_port_string(port, '\n');
+  } else if (SCM_Port *current = redirected_output_port()) {
+    write_char_to_port_string(current, '\n');
   } else {
     // No arguments: output to stdout
     printf("\n");
-- 
2.43.0


From 8e7ff9aed2cd194ff6a556f6e32e2b03a8550edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 29/78] fix: fractions involving the most negative integer no
 longer trap

---
 src/c/number.cc | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 006fb78..e99dc7b 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -590,14 +590,18 @@ SCM *_create_num(int64_t val) {
 
 // Helper function to compute GCD
 static int64_t gcd(int64_t a, int64_t b) {
-  a = a < 0 ? -a : a;
-  b = b < 0 ? -b : b;
-  while (b != 0) {
-    int64_t temp = b;
-    b = a % b;
-    a = temp;
-  }
-  return a;
+  // Unsigned, because the magnitude of the most negative integer needs 64 bits
+  uint64_t x = a < 0 ? -(uint64_t)a : (uint64_t)a;
+  uint64_t y = b < 0 ? -(uint64_t)b : (uint64_t)b;
+  while (y != 0) {
+    uint64_t temp = y;
+    y = x % y;
+    x = temp;
+  }
+  if (x > INT64_MAX) {
+    eval_error("gcd: result out of range");
+  }
+  return (int64_t)x;
 }
 
 // gcd: Return the greatest common divisor of the arguments
@@ -685,10 +689,8 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
     return _create_num(0);
   }
   
-  // Normalize sign: denominator should be positive
-  if (denominator < 0) {
-    numerator = -numerator;
-    denominator = -denominator;
+  if (numerator == denominator) {
+    return _create_num(1);
   }
   
   // Simplify the fraction using GCD
@@ -696,6 +698,15 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
   numerator /= g;
   denominator /= g;
   
+  // Normalize sign: denominator should be positive
+  if (denominator < 0) {
+    if (numerator == INT64_MIN || denominator == INT64_MIN) {
+      eval_error("make-ratio: result out of range");
+    }
+    numerator = -numerator;
+    denominator = -denominator;
+  }
+  
   // If denominator is 1, return an integer
   if (denominator == 1) {
     return _create_num(numerator);
-- 
2.43.0


From c75119f8f94ff62c1396e1d7609708d276e3929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 30/78] fix: fraction literals are read, and 1abc is one symbol
 instead of 1 and abc

---
 src/c/parse.cc | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 9b5544c..08c46de 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -317,6 +317,13 @@ static char consume(Parser *p) {
   return c;
 }
 
+SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
+
+// Characters that continue a symbol (or a token that looked like a number)
+static bool is_symbol_char(char c) {
+  return c && (isalnum((unsigned char)c) || strchr("\\!$%&*+-./:<=>?@^_~|", c) != nullptr);
+}
+
 // Parse a number (only if it starts with a digit, or +/- followed by a digit)
 static SCM *parse_number(Parser *p) {
   const char *start = p->pos;
@@ -358,6 +365,35 @@ static SCM *parse_number(Parser *p) {
     p->column++;
   }
   
+  // Check for the denominator of a fraction (1/2)
+  if (*p->pos == '/' && isdigit((unsigned char)p->pos[1])) {
+    int64_t denominator = 0;
+    p->pos++;
+    p->column++;
+    while (isdigit((unsigned char)*p->pos)) {
+      if (__builtin_mul_overflow(denominator, (int64_t)10, &denominator) ||
+          __builtin_add_overflow(denominator, (int64_t)(*p->pos - '0'), &denominator)) {
+        overflow = true;
+      }
+      p->pos++;
+      p->column++;
+    }
+    if (is_symbol_char(*p->pos)) {
+      p->pos = start;
+      p->column = start_column;
+      return nullptr;
+    }
+    if (overflow) {
+      parse_error(p, "fraction literal out of range");
+    }
+    if (denominator == 0) {
+      parse_error(p, "fraction literal with denominator 0");
+    }
+    SCM *ratio = scm_make_ratio(int_part, denominator);
+    set_source_location(ratio, p->filename, start_line, start_column);
+    return ratio;
+  }
+  
   // Check for decimal point
   bool is_float = false;
   
@@ -395,6 +431,13 @@ static SCM *parse_number(Parser *p) {
     }
   }
   
+  // More of the token follows: it is a symbol such as 1abc
+  if (is_symbol_char(*p->pos)) {
+    p->pos = start;
+    p->column = start_column;
+    return nullptr;
+  }
+  
   double float_value = 0.0;
   if (is_float) {
     // Convert the whole literal at once: it is rounded correctly
-- 
2.43.0


From 7e00c636cf69ddcfdb1ef88efcabf3e1ce164752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 31/78] fix: write prints symbols that would not read back as
 #{...}#

---
 src/c/print.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/c/print.cc b/src/c/print.cc
index e2aec18..c601c94 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "smob.h"
 #include "error.h"
+#include <ctype.h>
 
 // Print context to track if we're inside a quasiquote expression
 struct PrintContext {
@@ -31,6 +32,23 @@ static void init_print_state(scm_print_state *pstate, bool write_mode) {
 static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintContext &ctx);
 static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContext &ctx);
 
+// Whether the name of a symbol, printed as it is, is read as that symbol
+static bool _symbol_reads_back(SCM_Symbol *sym) {
+  const char *s = sym->data;
+  if (*s == '\0' || strcmp(s, ".") == 0) {
+    return false;
+  }
+  for (const char *c = s; *c; c++) {
+    if (!isalnum((unsigned char)*c) && !strchr("!$%&*+-./:<=>?@^_~|", *c)) {
+      return false;
+    }
+  }
+  // A sign and digits at the start may be read as a number
+  const char *digits = (*s == '+' || *s == '-') ? s + 1 : s;
+  size_t n = strspn(digits, "0123456789");
+  return n == 0 || (digits[n] != '\0' && !strchr("./eE", digits[n]));
+}
+
 void print_ast(SCM *ast, bool write_mode) {
   PrintContext ctx;
   _print_ast_with_context(ast, write_mode, ctx);
@@ -129,6 +147,8 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     // Keywords (symbols starting with ':') should be printed as #:keyword-name
     if (sym->data && sym->data[0] == ':') {
       printf("#%s", sym->data);
+    } else if (write_mode && !_symbol_reads_back(sym)) {
+      printf("#{%s}#", sym->data);
     } else {
       printf("%s", sym->data);
     }
-- 
2.43.0


From d232d5d28beb1c43273d32d3e7e488281d7519e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 32/78] fix: soft ports opened for both directions are output
 ports and can be closed as such

---
 src/c/port.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 8376898..33d44ad 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -7,6 +7,7 @@
 
 // Forward declaration
 SCM *parse(const char *s);
+bool is_writable_port(SCM_Port *port);
 
 // Helper function to create a port SCM object
 static SCM *wrap_port(SCM_Port *port) {
@@ -155,7 +156,7 @@ SCM *scm_c_close_output_port(SCM *port) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!is_writable_port(p)) {
     eval_error("close-output-port: expected output port");
     return nullptr;
   }
@@ -876,7 +877,7 @@ SCM *scm_c_is_output_port(SCM *obj) {
     return scm_bool_false();
   }
   SCM_Port *port = cast<SCM_Port>(obj);
-  return port->is_input ? scm_bool_false() : scm_bool_true();
+  return is_writable_port(port) ? scm_bool_true() : scm_bool_false();
 }
 
 // write-char: Write a character to a port
-- 
2.43.0


From 73f2a93af0c8e5a5d164985a828d6576050772be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 33/78] fix: do loops bind their variables locally and afresh
 in each iteration

---
 src/c/do.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..d395c82 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -4,7 +4,10 @@
 // Helper function to update do loop variables
 // All update expressions are evaluated first (in parallel), then all variables are updated
 // This implements Scheme's parallel binding semantics for do loops
-void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
+//
+// Returns the environment of the next iteration. It holds fresh locations for
+// the loop variables, so a closure created in one iteration keeps its values.
+static SCM_Environment *update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   struct UpdatePair {
     SCM_Symbol *var_name;
     SCM *new_val;
@@ -19,10 +22,6 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     it = it->next;
   }
   
-  if (count == 0) {
-    return;  // No variables to update
-  }
-  
   // Allocate array to store variable names and new values
   UpdatePair *updates = new UpdatePair[count];
   int idx = 0;
@@ -37,19 +36,19 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     if (!is_pair(list_wrapped)) {
       eval_error("do: internal error - update list must be a pair");
       delete[] updates;
-      return;
+      return nullptr;
     }
     // list_wrapped is (var_name var_update_step)
     auto var_update_expr = cast<SCM_List>(list_wrapped);
     if (!var_update_expr->next) {
       eval_error("do: internal error - update list must have two elements");
       delete[] updates;
-      return;
+      return nullptr;
     }
     if (!is_sym(var_update_expr->data)) {
       eval_error("do: internal error - first element of update list must be a symbol");
       delete[] updates;
-      return;
+      return nullptr;
     }
     auto var_name = cast<SCM_Symbol>(var_update_expr->data);
     auto var_update_step = var_update_expr->next->data;
@@ -60,7 +59,7 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     if (!new_var_val) {
       // Evaluation error occurred, clean up and return
       delete[] updates;
-      return;
+      return nullptr;
     }
     
     if (debug_enabled) {
@@ -75,14 +74,21 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     idx++;
   }
   
+  // Variables without a step keep their current values
+  auto next_env = make_env(do_env->parent);
+  for (auto entry_it = do_env->dummy.next; entry_it; entry_it = entry_it->next) {
+    scm_env_insert(next_env, make_sym(entry_it->data->key), entry_it->data->value, /*search_parent=*/false);
+  }
+  
   // Second pass: update all variables with the pre-computed values
   // This happens AFTER all update expressions have been evaluated
   // This implements parallel binding: all variables are updated simultaneously
   for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+    scm_env_insert(next_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
   }
   
   delete[] updates;
+  return next_env;
 }
 
 // Helper function for do special form
@@ -145,7 +151,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
 
     // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
+    scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
     
     // Store update step if provided
     if (var_update_step) {
@@ -203,7 +209,10 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
     
     // Update all variables (parallel binding)
-    update_do_variables(do_env, &var_update_dummy);
+    do_env = update_do_variables(do_env, &var_update_dummy);
+    if (!do_env) {
+      return nullptr;
+    }
     
     // Re-evaluate test condition
     ret = eval_with_env(do_env, car(test_clause));
-- 
2.43.0


From 8d4b65a51a12136ff7e93eb26046b05ea7d10123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 34/78] fix: too few arguments for a procedure with a rest
 parameter is an error

---
 src/c/procedure.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..ce295d9 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -239,8 +239,10 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (args_iter || current_param)) {
+  // Check for argument mismatch. With a rest parameter, binding stops at the
+  // rest parameter unless there were too few arguments for those before it
+  bool too_few_for_rest = has_rest_param && !only_rest_param && current_param && !current_param->is_dotted;
+  if (too_few_for_rest || (!has_rest_param && (args_iter || current_param))) {
     // Construct the call expression for better error reporting
     SCM *call_expr = nullptr;
     if (proc->name) {
-- 
2.43.0


From 32c74de17d6f933ba82bd23f92f446b6e6e97a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 35/78] fix: named let evaluates all of its body expressions

---
 src/c/let.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..2b4d519 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -70,7 +70,11 @@ SCM *expand_let(SCM *expr) {
       print_ast(body);
       printf("\n");
     }
-    auto val = scm_list3(scm_sym_lambda(), params, body);
+    // (lambda params body...)
+    auto lambda_l = make_list(scm_sym_lambda());
+    lambda_l->next = make_list(params);
+    lambda_l->next->next = l->next->next->next;
+    auto val = wrap(lambda_l);
     auto letrec_arg = scm_list2(func_args, val);
     
     // For empty args, just call the function: (name)
-- 
2.43.0


From 3cb3c25b3d85fec07adce19e5be3d8e107fd45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 36/78] fix: for-each does not stop at an empty-list element,
 and takes any procedure

---
 src/c/for_each.cc | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..c1e937f 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -13,7 +13,7 @@ static int count_list_length(SCM_List *l) {
 
 // Helper function to check if a list node is exhausted (nil or null)
 static inline bool is_list_exhausted(SCM_List *list) {
-  return list == nullptr || is_nil(list->data);
+  return list == nullptr;
 }
 
 // Helper function for for-each special form
@@ -36,21 +36,16 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
-  // Determine argument count based on procedure/function type
-  if (is_proc(f)) {
-    auto proc = cast<SCM_Procedure>(f);
-    arg_count = count_list_length(proc->args);
-  } else if (is_func(f)) {
-    auto func = cast<SCM_Function>(f);
-    // Count the number of argument lists provided
-    int list_count = count_list_length(l->next->next);
-    // For variable-arg functions (n_args < 0), use list_count
-    // Otherwise use the function's expected argument count
-    arg_count = (func->n_args < 0) ? list_count : func->n_args;
-  } else {
+  if (!is_proc(f) && !is_func(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
+  // One argument per list; the call itself checks the procedure's arity
+  arg_count = count_list_length(l->next->next);
+  if (arg_count == 0) {
+    eval_error("for-each: requires at least one list argument");
+    return nullptr;
+  }
   
   l = l->next->next;
 
-- 
2.43.0


From bd54e55a51931dbeeea60a5611ec16d9c52139d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 37/78] fix: procedure definitions bind the scope they appear
 in, and replace the global of that name

---
 src/c/define.cc | 62 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..819c1a7 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,36 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Whether env is the frame of a lambda body, rather than the global environment
+// or the environment of a module (the frames below a module environment inherit
+// its module)
+static bool is_lambda_frame(SCM_Environment *env) {
+  return env->parent && env->module == env->parent->module;
+}
+
+// Bind the name of a (define (name args...) body...) form
+static void define_procedure(SCM_Environment *env, SCM_Symbol *proc_name, SCM *val) {
+  if (is_lambda_frame(env)) {
+    // An internal definition is local to the body it appears in
+    scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+    return;
+  }
+  SCM *current_mod = scm_current_module();
+  auto global_entry = scm_env_search_entry(&g_env, proc_name, /*search_parent=*/false);
+  if (global_entry && (!current_mod || current_mod == g_root_module)) {
+    // The global environment is searched before the root module: update it
+    global_entry->value = val;
+    return;
+  }
+  // If current module exists, define in module
+  if (current_mod && is_module(current_mod)) {
+    SCM_Module *module = cast<SCM_Module>(current_mod);
+    scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
+  } else {
+    scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+  }
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
@@ -22,14 +52,12 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     // If we're in a nested environment (lambda/let), define in environment
     // Otherwise, if current module exists, define in module
     // This ensures define creates local bindings in let/lambda contexts
-    if (env->parent) {
-      // Check if this is a module environment (env->module from scm_resolve_module)
-      if (env->module) {
-        scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
-      } else {
-        // We're in a nested environment (lambda/let), create local binding
-        scm_env_insert(env, varname, val, /*search_parent=*/false);
-      }
+    if (is_lambda_frame(env)) {
+      // We're in a nested environment (lambda/let), create local binding
+      scm_env_insert(env, varname, val, /*search_parent=*/false);
+    } else if (env->parent) {
+      // This is a module environment (env->module from scm_resolve_module)
+      scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
       } else {
         // Top-level: check if symbol exists in global environment
         // If it exists, update it; otherwise define in module or environment
@@ -118,14 +146,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
-    } else {
-      scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
-    }
+    define_procedure(env, proc_name, ret);
     return ret;
   }
   
@@ -156,14 +177,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
-    } else {
-      scm_env_insert(env, proc_name, val, /*search_parent=*/false);
-    }
+    define_procedure(env, proc_name, val);
     return scm_none();
   } else {
     // Should not happen, but handle it
-- 
2.43.0


From 5c9d91ae5cdb8e4913c3f1c9d4fedb7a6ed441b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 38/78] fix: apply does not evaluate its leading arguments
 twice

---
 src/c/apply.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..208ff25 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -290,7 +290,8 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     if (args_evaluated) {
       arg_val = current->data; // Already evaluated
     } else {
-      arg_val = eval_with_env(env, current->data);
+      // Wrap the value in quote to prevent double evaluation
+      arg_val = scm_list2(scm_sym_quote(), eval_with_env(env, current->data));
     }
     SCM_List *node = make_list(arg_val);
     args_tail->next = node;
-- 
2.43.0


From ab65020cd70c641a927ee1ef5de5f8f00c8ae7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 39/78] fix: scm_call_N and scm_apply_0 do not evaluate the
 argument values again

---
 src/c/apply.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 208ff25..685c980 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -22,7 +22,7 @@ SCM *scm_call_0(SCM *proc) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, nullptr);
+    return apply_procedure_with_values(env, proc_obj, nullptr);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -47,7 +47,7 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -74,7 +74,7 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -103,7 +103,7 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
     args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -139,7 +139,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
+    return apply_procedure_with_values(env, proc_obj, args_list);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
-- 
2.43.0


From 0b53c85fa2824c6b40771bf4343f92734dfc5409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 40/78] fix: a macro with one parameter binds its argument, not
 the list of its arguments

---
 src/c/macro.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7751eac..fb5a32a 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -304,14 +304,8 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   }
   SCM_Symbol *name = cast<SCM_Symbol>(proc_sig->data);
 
-  // Check if proc_sig->next is a single symbol (rest parameter like (test . args))
-  // In this case, we need to convert it to a dotted pair structure
+  // The node of a rest parameter, as in (test . args), is marked as dotted
   SCM_List *args_list = proc_sig->next;
-  if (args_list && is_sym(args_list->data) && !args_list->next) {
-    // This is a rest parameter: (test . args) -> args_list is just (args)
-    // We need to mark it as a dotted pair
-    args_list->is_dotted = true;
-  }
 
   SCM_Procedure *transformer = make_proc(name, args_list, l->next->next, env);
 
-- 
2.43.0


From 814e870a7c9641c0bb811b624c286b7c72408d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 41/78] fix: macro expansions are evaluated as they are: quoted
 data in them is not expanded, symbols are looked up

---
 src/c/eval.cc  | 28 ++----------------
 src/c/eval.h   |  1 -
 src/c/macro.cc | 80 --------------------------------------------------
 3 files changed, 3 insertions(+), 106 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..7a0aca4 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -334,23 +334,8 @@ entry:
       // Found a macro, expand it and continue evaluation
       SCM_Macro *macro = cast<SCM_Macro>(val);
       SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      // Recursively expand the result, then evaluate
-      ast = expand_macros(env, expanded);
-      // If macro expansion returns a non-pair value (e.g., a number), 
-      // we need to handle it directly instead of trying to evaluate it as a list
-      if (!is_pair(ast)) {
-        RETURN_WITH_CONTEXT(ast);
-      }
-      // After macro expansion, we need to re-check the structure
-      // If ast is a pair but l->data is not a symbol/proc/func, it might be
-      // a self-evaluating value wrapped in a list, which should be evaluated directly
-      // We need to recast l since ast might have changed
-      l = cast<SCM_List>(ast);
-      if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-        // This is a self-evaluating value (number, string, etc.) wrapped in a single-element list
-        // Return it directly
-        RETURN_WITH_CONTEXT(l->data);
-      }
+      // Evaluate the expansion; macro calls in it are expanded when reached
+      ast = expanded;
       goto entry;
     }
 
@@ -700,14 +685,7 @@ entry:
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-    ast = expand_macros(env, expanded);
-    if (!is_pair(ast)) {
-      RETURN_WITH_CONTEXT(ast);
-    }
-    l = cast<SCM_List>(ast);
-    if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
+    ast = expanded;
     goto entry;
   }
   else {
diff --git a/src/c/eval.h b/src/c/eval.h
index 5e5ed95..2b7d5ed 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -34,7 +34,6 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l);
 
 // Macro expansion and definition
 SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, SCM *original_call);
-SCM *expand_macros(SCM_Environment *env, SCM *ast);
 SCM *eval_define_macro(SCM_Environment *env, SCM_List *l);
 
 // Define special form
diff --git a/src/c/macro.cc b/src/c/macro.cc
index fb5a32a..45239d9 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -163,86 +163,6 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
   return expanded;
 }
 
-// Helper function to expand macros in an expression
-SCM *expand_macros(SCM_Environment *env, SCM *ast) {
-  // Basic safety check: null check
-  if (!ast) {
-    return ast;
-  }
-  
-  if (!is_pair(ast)) {
-    return ast; // Atoms don't need expansion
-  }
-
-  SCM_List *l = cast<SCM_List>(ast);
-  if (!l || !l->data) {
-    return ast;
-  }
-
-  // Check if this is a macro call
-  if (is_sym(l->data)) {
-    SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
-    SCM *val = scm_env_exist(env, sym);
-
-    if (val && is_macro(val)) {
-      // Found a macro, expand it
-      SCM_Macro *macro = cast<SCM_Macro>(val);
-      SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      
-      // Basic safety check: if expansion failed, return original
-      if (!expanded) {
-        return ast;
-      }
-      
-      // Recursively expand the result
-      return expand_macros(env, expanded);
-    }
-  }
-
-  // Recursively expand each element in the list
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
-  SCM_List *current = l;
-
-  while (current) {
-    if (!current->data) {
-      // Skip null data
-      current = current->next;
-      continue;
-    }
-    
-    SCM *expanded = expand_macros(env, current->data);
-    
-    // Basic safety check: if expansion returned null, skip this element
-    if (!expanded) {
-      current = current->next;
-      continue;
-    }
-    
-    SCM_List *node = make_list(expanded);
-    // Preserve dotted-pair structure: copy is_dotted flag from original node.
-    // This is critical for forms like (lambda (x y . z) ...) where the
-    // parameter list is represented using the is_dotted flag on the cdr node.
-    node->is_dotted = current->is_dotted;
-    tail->next = node;
-    tail = node;
-    current = current->next;
-  }
-
-  if (dummy.next) {
-    SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-    scm->type = SCM::LIST;
-    scm->value = dummy.next;
-    scm->source_loc = nullptr;  // Initialize to nullptr
-    // Copy source location from original list
-    copy_source_location(scm, ast);
-    return scm;
-  }
-  SCM *result = scm_nil();
-  copy_source_location(result, ast);
-  return result;
-}
-
 // Helper function for define-macro special form
 SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   if (!l->next) {
-- 
2.43.0


From 0ef06b19c5a738c1b4732df43693443610379753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 42/78] fix: call/cc works when called through a variable or
 argument

---
 src/c/eval.cc | 38 +++++---------------------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 7a0aca4..f3cfb18 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -609,43 +609,14 @@ entry:
     }
     if (func->name && (strcmp(func->name->data, "call-with-current-continuation") == 0 || 
                        strcmp(func->name->data, "call/cc") == 0)) {
-      // For call-with-current-continuation, when called as a function value, arguments are already evaluated
-      // We need to handle it specially, similar to how it's handled as a special form
-      // l->data is the call-with-current-continuation function, l->next contains the already-evaluated arguments
+      // When called as a function value, it is like the special form
       if (!l->next) {
         eval_error("call-with-current-continuation: requires 1 argument (procedure)");
         RETURN_WITH_CONTEXT(nullptr);
       }
-      // The argument is already evaluated, so we can use it directly
-      // But we need to create a continuation and call the procedure with it
-      SCM *proc = l->next->data;
-      if (!is_proc(proc) && !is_func(proc)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        RETURN_WITH_CONTEXT(cont);
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      SCM_List proc_call;
-      proc_call.data = proc;
-      proc_call.next = cont_list;
-      if (is_proc(proc)) {
-        SCM *result = apply_procedure(env, cast<SCM_Procedure>(proc), cont_list);
-        RETURN_WITH_CONTEXT(result);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc;
-        func_call.next = evaled_args;
-        SCM *result = eval_with_func(cast<SCM_Function>(proc), &func_call);
-        RETURN_WITH_CONTEXT(result);
+      auto ret = eval_call_cc(env, l, &ast);
+      if (ret) {
+        RETURN_WITH_CONTEXT(ret);
       }
     }
     auto func_argl = eval_list_with_env(env, l->next);
@@ -685,6 +656,7 @@ entry:
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
+      goto entry;
     ast = expanded;
     goto entry;
   }
-- 
2.43.0


From 272bf2a2728bd03c1e27a5162f1cff696eadb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 43/78] fix: calling a builtin does not overwrite the argument
 expressions of the call

---
 src/c/eval.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index f3cfb18..efc5251 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -657,6 +657,7 @@ entry:
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
       goto entry;
+      goto entry;
     ast = expanded;
     goto entry;
   }
-- 
2.43.0


From 115a2e2a330ea9ad6617353590c88b4d0055f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 44/78] fix: operators are resolved lexically, and applying a
 non-procedure is an error

---
 src/c/eval.cc | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index efc5251..2fd5346 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -261,6 +261,23 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   // Push onto evaluation stack for call trace
   push_eval_stack(ast);
 
+// The binding of sym in the lambda frames around env, not counting the global
+// environment and the environments of modules
+static SCM_Environment::Entry *lexical_entry(SCM_Environment *env, SCM_Symbol *sym) {
+  for (auto e = env; e->parent && e->module == e->parent->module; e = e->parent) {
+    auto entry = scm_env_search_entry(e, sym, /*search_parent=*/false);
+    if (entry) {
+      return entry;
+    }
+  }
+  return nullptr;
+}
+
+// Whether val can be the (evaluated) operator of a combination
+static bool is_applicable(SCM *val) {
+  return is_proc(val) || is_func(val) || is_cont(val) || is_smob(val) || is_macro(val);
+}
+
   // Save current context for error reporting
   SCM *old_context = g_current_eval_context;
   g_current_eval_context = ast;
@@ -297,7 +314,9 @@ entry:
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
 
     // Check if this is a macro call (before checking special forms)
-    SCM *val = scm_env_exist(env, sym);
+    // A local binding takes precedence over macros and special forms of that name
+    auto lexical = lexical_entry(env, sym);
+    SCM *val = lexical ? lexical->value : scm_env_exist(env, sym);
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
@@ -339,7 +358,16 @@ entry:
       goto entry;
     }
 
-    if (is_sym_val(l->data, "define")) {
+    if (lexical) {
+      if (!is_applicable(val)) {
+        eval_error("wrong type to apply: %s is not a procedure", sym->data);
+      }
+      auto call = make_list(val);
+      call->next = l->next;
+      ast = wrap(call);
+      goto entry;
+    }
+    else if (is_sym_val(l->data, "define")) {
       SCM *result = eval_define(env, l);
       RETURN_WITH_CONTEXT(result);
     }
@@ -530,6 +558,9 @@ entry:
     }
   }
   else if (is_cont(l->data)) {
+      if (!is_applicable(val)) {
+        eval_error("wrong type to apply: %s is not a procedure", sym->data);
+      }
     SCM *cont_arg = scm_nil();
     if (l->next) {
       cont_arg = eval_with_env(env, l->next->data);
@@ -625,12 +656,14 @@ entry:
       printf("before eval args: ");
       print_list(l->next);
       printf("\n");
+      goto entry;
       printf("after eval args: ");
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    auto func_call = make_list(l->data);
+    func_call->next = func_argl;
+    SCM *result = eval_with_func(func, func_call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
-- 
2.43.0


From edb9b3a29add9197e4d94b367a95563d1652bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 45/78] fix: continuations captured in arguments, do steps and
 map can be resumed repeatedly

---
 src/c/do.cc        | 105 +++++++++++------------------------------
 src/c/eval.cc      |  54 +++++++++++----------
 src/c/map.cc       | 114 +++++++++++++++++++--------------------------
 src/c/procedure.cc |  14 +++---
 4 files changed, 111 insertions(+), 176 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index d395c82..979bf97 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -8,71 +8,17 @@
 // Returns the environment of the next iteration. It holds fresh locations for
 // the loop variables, so a closure created in one iteration keeps its values.
 static SCM_Environment *update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
-  struct UpdatePair {
-    SCM_Symbol *var_name;
-    SCM *new_val;
-  };
-  
-  // First, collect all variable names and update expressions
-  // We use a vector-like approach: first count, then allocate, then process
-  int count = 0;
-  auto it = var_update_list;
-  while (it->next) {
-    count++;
-    it = it->next;
-  }
-  
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
-  int idx = 0;
-  
-  // First pass: evaluate ALL update expressions BEFORE updating any variables
-  // This ensures all update expressions see the old values of all variables
-  // This is critical for correct parallel binding semantics
-  it = var_update_list;
-  while (it->next) {
-    it = it->next;
-    auto list_wrapped = it->data;
-    if (!is_pair(list_wrapped)) {
-      eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
-      return nullptr;
-    }
-    // list_wrapped is (var_name var_update_step)
-    auto var_update_expr = cast<SCM_List>(list_wrapped);
-    if (!var_update_expr->next) {
-      eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
-      return nullptr;
-    }
-    if (!is_sym(var_update_expr->data)) {
-      eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
-      return nullptr;
-    }
-    auto var_name = cast<SCM_Symbol>(var_update_expr->data);
-    auto var_update_step = var_update_expr->next->data;
-
-    // CRITICAL: Evaluate update expression in current environment (before any updates)
-    // This ensures all update expressions see the old values of all variables
-    auto new_var_val = eval_with_env(do_env, var_update_step);
-    if (!new_var_val) {
-      // Evaluation error occurred, clean up and return
-      delete[] updates;
-      return nullptr;
-    }
-    
-    if (debug_enabled) {
-      SCM_DEBUG_EVAL("eval do step ... ");
-      print_ast(var_update_step);
-      printf(" --> ");
-      print_ast(new_var_val);
-      printf("\n");
-    }
-    updates[idx].var_name = var_name;
-    updates[idx].new_val = new_var_val;
-    idx++;
+  // Evaluate ALL update expressions BEFORE updating any variables, so that they
+  // all see the old values. The values are collected in a fresh list: a step may
+  // leave and re-enter this loop through a continuation
+  SCM_List steps_dummy = make_list_dummy();
+  auto steps = &steps_dummy;
+  for (auto it = var_update_list->next; it; it = it->next) {
+    // it->data is (var_name var_update_step)
+    steps->next = make_list(cast<SCM_List>(it->data)->next->data);
+    steps = steps->next;
   }
+  auto new_vals = eval_list_with_env(do_env, steps_dummy.next);
   
   // Variables without a step keep their current values
   auto next_env = make_env(do_env->parent);
@@ -80,14 +26,14 @@ static SCM_Environment *update_do_variables(SCM_Environment *do_env, SCM_List *v
     scm_env_insert(next_env, make_sym(entry_it->data->key), entry_it->data->value, /*search_parent=*/false);
   }
   
-  // Second pass: update all variables with the pre-computed values
   // This happens AFTER all update expressions have been evaluated
   // This implements parallel binding: all variables are updated simultaneously
-  for (int i = 0; i < count; i++) {
-    scm_env_insert(next_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
+  for (auto it = var_update_list->next; it; it = it->next) {
+    auto var_name = cast<SCM_Symbol>(cast<SCM_List>(it->data)->data);
+    scm_env_insert(next_env, var_name, new_vals->data, /*search_parent=*/false);
+    new_vals = new_vals->next;
   }
   
-  delete[] updates;
   return next_env;
 }
 
@@ -112,11 +58,11 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     print_list(body_clause);
     printf("\n");
   }
-  auto do_env = make_env(env);
-
   auto var_init_it = var_init_l;
   SCM_List var_update_dummy = make_list_dummy();
   auto var_update_it = &var_update_dummy;
+  SCM_List init_dummy = make_list_dummy();
+  auto init_it = &init_dummy;
 
   // Process variable bindings: (var init [step])
   while (var_init_it) {
@@ -134,15 +80,12 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     
     auto var_name = cast<SCM_Symbol>(var_init_expr->data);
     
-    // Evaluate initial value in the parent environment
     if (!var_init_expr->next) {
       eval_error("do: variable binding must have an initial value");
       return nullptr;
     }
-    auto var_init_val = eval_with_env(env, var_init_expr->next->data);
-    if (!var_init_val) {
-      return nullptr;  // Evaluation error
-    }
+    init_it->next = make_list(var_init_expr->next->data);
+    init_it = init_it->next;
     
     // Check for optional update step
     SCM *var_update_step = nullptr;
@@ -150,9 +93,6 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
       var_update_step = var_init_expr->next->next->data;
     }
 
-    // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
-    
     // Store update step if provided
     if (var_update_step) {
       // Store as a list: (var_name var_update_step)
@@ -165,6 +105,15 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     var_init_it = var_init_it->next;
   }
 
+  // Evaluate the initial values in the parent environment, then bind them
+  auto init_vals = eval_list_with_env(env, init_dummy.next);
+  auto do_env = make_env(env);
+  for (var_init_it = var_init_l; var_init_it; var_init_it = var_init_it->next) {
+    auto var_name = cast<SCM_Symbol>(cast<SCM_List>(var_init_it->data)->data);
+    scm_env_insert(do_env, var_name, init_vals->data, /*search_parent=*/false);
+    init_vals = init_vals->next;
+  }
+
   auto test_clause_list = cast<SCM_List>(test_clause);
   if (!test_clause_list) {
     eval_error("do: test clause must be a list");
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 2fd5346..ee7c17f 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -18,16 +18,23 @@ SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM_List *eval_list_with_env(SCM_Environment *env, SCM_List *l) {
-  SCM_List dummy = make_list_dummy();
-  SCM_List *it = &dummy;
+  // The values so far, newest first. These nodes are never changed, so that a
+  // continuation captured by one of the expressions can be resumed repeatedly
+  SCM_List *reversed = nullptr;
   while (l) {
-    auto val = eval_with_env(env, l->data);
-    auto next = make_list(val);
-    it->next = next;
-    it = it->next;
+    auto node = make_list(eval_with_env(env, l->data));
+    node->next = reversed;
+    reversed = node;
     l = l->next;
   }
-  return dummy.next;
+  SCM_List *ret = nullptr;
+  while (reversed) {
+    auto node = make_list(reversed->data);
+    node->next = ret;
+    ret = node;
+    reversed = reversed->next;
+  }
+  return ret;
 }
 
 
@@ -254,13 +261,6 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
 }
 
 
-SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
-  assert(env);
-  assert(ast);
-
-  // Push onto evaluation stack for call trace
-  push_eval_stack(ast);
-
 // The binding of sym in the lambda frames around env, not counting the global
 // environment and the environments of modules
 static SCM_Environment::Entry *lexical_entry(SCM_Environment *env, SCM_Symbol *sym) {
@@ -278,6 +278,13 @@ static bool is_applicable(SCM *val) {
   return is_proc(val) || is_func(val) || is_cont(val) || is_smob(val) || is_macro(val);
 }
 
+SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
+  assert(env);
+  assert(ast);
+
+  // Push onto evaluation stack for call trace
+  push_eval_stack(ast);
+
   // Save current context for error reporting
   SCM *old_context = g_current_eval_context;
   g_current_eval_context = ast;
@@ -551,6 +558,9 @@ entry:
         return nullptr;
       }
       
+      if (!is_applicable(val)) {
+        eval_error("wrong type to apply: %s is not a procedure", sym->data);
+      }
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -558,9 +568,6 @@ entry:
     }
   }
   else if (is_cont(l->data)) {
-      if (!is_applicable(val)) {
-        eval_error("wrong type to apply: %s is not a procedure", sym->data);
-      }
     SCM *cont_arg = scm_nil();
     if (l->next) {
       cont_arg = eval_with_env(env, l->next->data);
@@ -649,6 +656,7 @@ entry:
       if (ret) {
         RETURN_WITH_CONTEXT(ret);
       }
+      goto entry;
     }
     auto func_argl = eval_list_with_env(env, l->next);
     if (debug_enabled) {
@@ -656,7 +664,6 @@ entry:
       printf("before eval args: ");
       print_list(l->next);
       printf("\n");
-      goto entry;
       printf("after eval args: ");
       print_list(func_argl);
       printf("\n");
@@ -669,6 +676,9 @@ entry:
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    if (!is_applicable(f)) {
+      eval_error("wrong type to apply: the operator is not a procedure but a %s", get_type_name(f->type));
+    }
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
@@ -676,11 +686,7 @@ entry:
   }
   else if (is_num(l->data) || is_float(l->data) || is_str(l->data) || is_char(l->data) || is_bool(l->data) || is_nil(l->data)) {
     // Self-evaluating values: numbers, strings, characters, booleans, nil
-    // If this is a single-element list with a self-evaluating value, return it directly
-    if (!l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
-    // Otherwise, this is an error - can't have a list starting with a self-evaluating value
+    // This is an error - can't have a list starting with a self-evaluating value
     eval_error("invalid expression: self-evaluating %s in non-tail position",
                get_type_name(l->data->type));
     return nullptr;
@@ -689,8 +695,6 @@ entry:
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      goto entry;
-      goto entry;
     ast = expanded;
     goto entry;
   }
diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..584db7c 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -36,7 +36,7 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   SCM *proc = eval_with_env(env, l->next->data);
   
   // Check if proc is a procedure
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
     eval_error("map: first argument must be a procedure");
   }
   
@@ -53,85 +53,65 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     eval_error("map: requires at least one list argument");
   }
   
-  // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
-  temp = list_args_head;
-  for (int i = 0; i < num_lists; i++) {
-    // Always evaluate list arguments
-    SCM *list_arg = eval_with_env(env, temp->data);
+  // Evaluate all list arguments. The nodes of `lists`, and of `results` below,
+  // are never changed, so that a continuation captured during the iteration
+  // can be resumed repeatedly
+  SCM_List *lists = eval_list_with_env(env, list_args_head);
+  for (SCM_List *it = lists; it; it = it->next) {
     // Check if list_arg is a list
-    if (!is_pair(list_arg) && !is_nil(list_arg)) {
+    if (!is_pair(it->data) && !is_nil(it->data)) {
       eval_error("map: list arguments must be lists");
     }
-    list_ptrs[i] = is_nil(list_arg) ? nullptr : cast<SCM_List>(list_arg);
-    temp = temp->next;
   }
   
-  // Build result list by applying proc to corresponding elements
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
-  
-  // Continue until the shortest list is exhausted
-  bool all_non_empty = true;
-  for (int i = 0; i < num_lists; i++) {
-    if (!list_ptrs[i]) {
-      all_non_empty = false;
-      break;
-    }
-  }
-  
-  while (all_non_empty) {
-    // Collect one element from each list
+  // Apply proc to corresponding elements, until the shortest list is exhausted
+  SCM_List *results = nullptr;  // newest first
+  while (true) {
+    // Collect one element from each list, and the rest of each list
     // Wrap each element in quote to prevent evaluation
-    SCM_List args_dummy = make_list_dummy();
-    SCM_List *args_tail = &args_dummy;
-    
-    for (int i = 0; i < num_lists; i++) {
-      // Wrap element in (quote element) to prevent evaluation
-      SCM *quoted_elem = scm_list2(scm_sym_quote(), list_ptrs[i]->data);
-      SCM_List *node = make_list(quoted_elem);
-      args_tail->next = node;
-      args_tail = node;
-      list_ptrs[i] = list_ptrs[i]->next;
+    SCM_List call_dummy = make_list_dummy();
+    SCM_List *call_tail = &call_dummy;
+    SCM_List rests_dummy = make_list_dummy();
+    SCM_List *rests_tail = &rests_dummy;
+    bool exhausted = false;
+    for (SCM_List *it = lists; it; it = it->next) {
+      if (is_nil(it->data)) {
+        exhausted = true;
+        break;
+      }
+      SCM_List *list = cast<SCM_List>(it->data);
+      call_tail->next = make_list(scm_list2(scm_sym_quote(), list->data));
+      call_tail = call_tail->next;
+      rests_tail->next = make_list(list->next ? wrap(list->next) : scm_nil());
+      rests_tail = rests_tail->next;
     }
-    
-    // Apply proc to collected arguments
-    SCM *result;
-    if (is_proc(proc)) {
-      SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-      result = apply_procedure(env, proc_obj, args_dummy.next);
-    } else if (is_func(proc)) {
-      SCM_Function *func_obj = cast<SCM_Function>(proc);
-      SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
-      SCM_List func_call;
-      func_call.data = proc;
-      func_call.next = evaled_args;
-      result = eval_with_func(func_obj, &func_call);
-    } else {
-      eval_error("map: first argument must be a procedure");
+    if (exhausted) {
+      break;
     }
+    lists = rests_dummy.next;
     
-    // Add result to result list
-    SCM_List *node = make_list(result);
-    tail->next = node;
-    tail = node;
+    // Call proc
+    SCM_List *call = make_list(proc);
+    call->next = call_dummy.next;
+    SCM call_expr;
+    call_expr.type = SCM::LIST;
+    call_expr.value = call;
+    call_expr.source_loc = nullptr;  // Mark as temporary to skip call stack tracking
+    SCM *result = eval_with_env(env, &call_expr);
     
-    // Check if all lists still have elements
-    all_non_empty = true;
-    for (int i = 0; i < num_lists; i++) {
-      if (!list_ptrs[i]) {
-        all_non_empty = false;
-        break;
-      }
-    }
+    SCM_List *node = make_list(result);
+    node->next = results;
+    results = node;
   }
   
-  delete[] list_ptrs;
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  SCM *ret = scm_nil();
+  while (results) {
+    SCM_List *node = make_list(results->data);
+    node->next = is_nil(ret) ? nullptr : cast<SCM_List>(ret);
+    ret = wrap(node);
+    results = results->next;
   }
-  return scm_nil();
+  return ret;
 }
 
 void init_map() {
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index ce295d9..4b3900b 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -97,12 +97,14 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
 
 // Helper function to apply procedure with arguments
 SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
-  auto proc_env = make_env(proc->env);
   auto args_l = proc->args;
   // Save original args for error reporting - create a copy of the list structure
   // (we only need the structure, not the values, for error reporting)
   SCM_List *original_args = args; // Save original args pointer for error reporting
-  SCM_List *args_iter = args;     // Use separate iterator for the loop
+  // Evaluate the arguments before the frame is made: each time a continuation
+  // captured by an argument is resumed, the body runs in a frame of its own
+  SCM_List *args_iter = eval_list_with_env(env, args);
+  auto proc_env = make_env(proc->env);
   
   // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
   // For (a b), the structure is: (a . (b . nil))
@@ -145,7 +147,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     SCM_List rest_args_dummy = make_list_dummy();
     SCM_List *rest_args_tail = &rest_args_dummy;
     while (args_iter) {
-      SCM *arg_val = eval_with_env(env, args_iter->data);
+      SCM *arg_val = args_iter->data;
       SCM_List *node = make_list(arg_val);
       rest_args_tail->next = node;
       rest_args_tail = node;
@@ -179,7 +181,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
@@ -194,7 +196,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
       SCM_List rest_args_dummy = make_list_dummy();
       SCM_List *rest_args_tail = &rest_args_dummy;
       while (args_iter) {
-        SCM *arg_val = eval_with_env(env, args_iter->data);
+        SCM *arg_val = args_iter->data;
         SCM_List *node = make_list(arg_val);
         rest_args_tail->next = node;
         rest_args_tail = node;
@@ -226,7 +228,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
-- 
2.43.0


From 643a008d258adf51c5c57cd3ae18462dc635d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 46/78] fix: malformed special forms are errors instead of
 aborting the process

---
 src/c/case.cc     |  3 ++-
 src/c/cond.cc     |  5 +++--
 src/c/define.cc   |  1 +
 src/c/do.cc       |  2 +-
 src/c/dynwind.cc  |  2 +-
 src/c/eval.cc     |  9 +++++----
 src/c/eval.h      |  7 +++++++
 src/c/for_each.cc |  2 +-
 src/c/let.cc      | 25 ++++++++++---------------
 9 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..981b65d 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -22,7 +22,7 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  check_syntax(l->next, "case");  // Must have at least key expression
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -35,6 +35,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
+    check_syntax(is_pair(clause_it->data), "case clause");
     auto clause = cast<SCM_List>(clause_it->data);
     
     if (debug_enabled) {
diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..f8b04c3 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,8 +9,9 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "cond");
   for (auto it = l->next; it; it = it->next) {
+    check_syntax(is_pair(it->data), "cond clause");
     auto clause = cast<SCM_List>(it->data);
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
@@ -35,7 +36,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        check_syntax(clause->next->next, "cond clause");
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index 819c1a7..9b9e963 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -32,6 +32,7 @@ static void define_procedure(SCM_Environment *env, SCM_Symbol *proc_name, SCM *v
 }
 
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
+  check_syntax(l->next && (is_sym(l->next->data) || is_pair(l->next->data)), "define");
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
     SCM_Symbol *varname = cast<SCM_Symbol>(l->next->data);
diff --git a/src/c/do.cc b/src/c/do.cc
index 979bf97..ca839dd 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -41,7 +41,7 @@ static SCM_Environment *update_do_variables(SCM_Environment *do_env, SCM_List *v
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  check_syntax(l->next && l->next->next, "do");
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..d7b197b 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -177,7 +177,7 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  check_syntax(l->next && l->next->next && l->next->next->next, "dynamic-wind");
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index ee7c17f..557bb9f 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -8,7 +8,7 @@
 #include <cstdlib>
 
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
-  assert(l);
+  check_syntax(l, "sequence of expressions");
   SCM *ret = nullptr;
   while (l) {
     ret = eval_with_env(env, l->data);
@@ -77,7 +77,7 @@ static SCM *eval_quote(SCM_List *l) {
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  check_syntax(l->next && is_sym(l->next->data) && l->next->next, "set!");
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -129,6 +129,7 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  check_syntax(l->next, "lambda");
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -173,7 +174,7 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next && l->next->next, "if");
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -239,7 +240,7 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "call-with-current-continuation");
   auto proc = eval_with_env(env, l->next->data);
   int first;
   auto cont = scm_make_continuation(&first);
diff --git a/src/c/eval.h b/src/c/eval.h
index 2b7d5ed..6d6f60f 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -2,6 +2,13 @@
 
 #include "error.h"
 
+// Report a malformed special form, unless it satisfies the condition
+inline void check_syntax(bool ok, const char *form) {
+  if (!ok) {
+    eval_error("bad syntax: malformed %s", form);
+  }
+}
+
 // do special form
 SCM *eval_do(SCM_Environment *env, SCM_List *l);
 
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index c1e937f..c4bfa1d 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -32,7 +32,7 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  check_syntax(l->next, "for-each");
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
diff --git a/src/c/let.cc b/src/c/let.cc
index 2b4d519..82c2fe4 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -3,8 +3,7 @@
 
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -41,7 +40,7 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    check_syntax(l->next->next->next, "named let");
     auto argl = l->next->next->data;
     auto body = l->next->next->next->data;
     
@@ -191,13 +190,12 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "let");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_syntax(is_pair(argl->data), "let binding");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      check_syntax(is_sym(arg->data) && arg->next, "let binding");
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -249,8 +247,7 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let*");
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -358,8 +355,7 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "letrec");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -381,13 +377,12 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "letrec");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_syntax(is_pair(argl->data), "letrec binding");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      check_syntax(is_sym(arg->data) && arg->next, "letrec binding");
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
-- 
2.43.0


From 37aa8414f524000cec67c8d09e5cd7805089e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 47/78] fix: cond clauses with only a test return its value,
 and => applies procedures only

---
 src/c/cond.cc | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/c/cond.cc b/src/c/cond.cc
index f8b04c3..3fb94e5 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -4,7 +4,7 @@
 // Helper function to check if a symbol is literal (not bound in environment)
 // Similar to Guile's literal_p function
 static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
-  return scm_env_exist(env, sym) == nullptr;
+  return scm_env_search_entry(env, sym, /*search_parent=*/true) == nullptr;
 }
 
 // Helper function for cond special form
@@ -27,7 +27,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       continue;
     }
     if (!clause->next) {
-      return scm_bool_true();
+      return pred;
     }
     // Check for => syntax BEFORE evaluating clause->next->data
     // Similar to Guile's approach: check if => is a literal (not bound)
@@ -39,25 +39,9 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
         check_syntax(clause->next->next, "cond clause");
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
-        // Build: (proc (quote pred))
-        // Note: eval_with_env will handle quote expressions and return the quoted value
-        // If the result is a symbol, we need to look it up in the environment to get the procedure
+        // Build: ((quote proc) (quote pred))
         SCM *proc = eval_with_env(env, clause->next->next->data);
-        // If proc is a symbol (from quote), look it up in the environment
-        // This handles the case where 'ok is evaluated to symbol ok, then we look up ok
-        // But if the symbol is not found, it means we're trying to use a quoted symbol as a procedure
-        // In that case, we should just return the symbol itself (not call it)
-        if (is_sym(proc)) {
-          SCM *val = scm_env_exist(env, cast<SCM_Symbol>(proc));
-          if (val) {
-            proc = val;
-          } else {
-            // Symbol not found in environment - this means 'ok was just a quoted symbol
-            // Return the symbol itself (not as a procedure call)
-            return proc;
-          }
-        }
-        *ast = scm_list2(proc, scm_list2(scm_sym_quote(), pred));
+        *ast = scm_list2(scm_list2(scm_sym_quote(), proc), scm_list2(scm_sym_quote(), pred));
         return nullptr; // Signal to continue evaluation
       }
       // If => is bound to a value, treat it as a regular expression (not => syntax)
-- 
2.43.0


From f7020548335d5bf1578c4548d6aced8c85b5bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 48/78] fix: case compares keys with eqv?

---
 src/c/case.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index 981b65d..9f7d8a6 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -2,17 +2,17 @@
 #include "eval.h"
 
 // Forward declaration
-bool _eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 
 // Helper function to check if a value is in a list of datums
-// Uses eqv? for comparison (which is implemented as _eq in this codebase)
+// Uses eqv? for comparison
 static bool value_in_datums(SCM *value, SCM_List *datums) {
   if (!datums) {
     return false;
   }
   
   for (SCM_List *it = datums; it; it = it->next) {
-    if (it->data && _eq(value, it->data)) {
+    if (it->data && is_true(scm_c_is_eqv(value, it->data))) {
       return true;
     }
   }
-- 
2.43.0


From 4eebce78012fef1d59ca2b7f8d506c6eb7bbf253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 49/78] fix: local variables do not shadow the keywords other
 forms expand into; call/cc applies procedures only

---
 src/c/eval.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 557bb9f..a23ae10 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -253,7 +253,7 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
     }
     return cont;
   }
-  *ast = scm_list2(proc, cont);
+  *ast = scm_list2(scm_list2(scm_sym_quote(), proc), cont);
   if (debug_enabled) {
     print_ast(*ast);
     printf("\n");
@@ -274,6 +274,12 @@ static SCM_Environment::Entry *lexical_entry(SCM_Environment *env, SCM_Symbol *s
   return nullptr;
 }
 
+// Whether sym is a keyword the expansions of other special forms rely on
+static bool is_core_keyword(SCM *sym) {
+  return is_sym_val(sym, "quote") || is_sym_val(sym, "lambda") || is_sym_val(sym, "set!") ||
+         is_sym_val(sym, "let") || is_sym_val(sym, "let*") || is_sym_val(sym, "letrec");
+}
+
 // Whether val can be the (evaluated) operator of a combination
 static bool is_applicable(SCM *val) {
   return is_proc(val) || is_func(val) || is_cont(val) || is_smob(val) || is_macro(val);
@@ -323,7 +329,7 @@ entry:
 
     // Check if this is a macro call (before checking special forms)
     // A local binding takes precedence over macros and special forms of that name
-    auto lexical = lexical_entry(env, sym);
+    auto lexical = is_core_keyword(l->data) ? nullptr : lexical_entry(env, sym);
     SCM *val = lexical ? lexical->value : scm_env_exist(env, sym);
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
-- 
2.43.0


From ee571e62d85bde547195eb3660b07335de29cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 50/78] fix: apply rejects an improper argument list

---
 src/c/apply.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 685c980..c5ce690 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -163,6 +163,19 @@ void init_apply() {
   scm_define_vararg_function("apply", scm_c_apply);
 }
 
+// The last argument of apply must be a proper list
+static void check_arg_list(SCM *args) {
+  bool proper = is_pair(args) || is_nil(args);
+  if (is_pair(args)) {
+    for (auto it = cast<SCM_List>(args); it; it = it->next) {
+      proper = proper && !it->is_dotted;
+    }
+  }
+  if (!proper) {
+    eval_error("apply: last argument must be a list");
+  }
+}
+
 // Helper function for apply special form
 // (apply proc arg1 arg2 ... args-list) -> apply proc to (arg1 arg2 ... args-list elements)
 // When called as a function value, l->next contains already-evaluated arguments
@@ -195,9 +208,7 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     if (!l->next->next->next) {
       // Only one argument: (apply cont things) -> use things directly
       SCM *arg = eval_with_env(env, l->next->next->data);
-      if (!is_pair(arg) && !is_nil(arg)) {
-        eval_error("apply: last argument must be a list");
-      }
+      check_arg_list(arg);
       scm_dynthrow(proc, arg);
       return nullptr;
     }
@@ -215,9 +226,7 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     
     // Evaluate the last argument (should be a list)
     SCM *last_arg = eval_with_env(env, last_arg_node->data);
-    if (!is_pair(last_arg) && !is_nil(last_arg)) {
-      eval_error("apply: last argument must be a list");
-    }
+    check_arg_list(last_arg);
     
     // Build combined list: args_before_last elements + last_arg elements
     SCM_List args_dummy = make_list_dummy();
@@ -275,9 +284,7 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     // Evaluate the last argument (should be a list)
     last_arg = eval_with_env(env, last_arg_node->data);
   }
-  if (!is_pair(last_arg) && !is_nil(last_arg)) {
-    eval_error("apply: last argument must be a list");
-  }
+  check_arg_list(last_arg);
   
   // Build the combined argument list
   // First, evaluate or use all arguments before the last one
-- 
2.43.0


From d1d0e6f6db00d80ad26e50b146d38c5ffb1a1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 51/78] fix: do takes any value but #f as a true test

---
 src/c/do.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index ca839dd..b9e2d58 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -142,7 +142,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   
   // Main loop: continue while test condition is false
   int loop_count = 0;
-  while (is_false(ret)) {
+  while (is_falsy(ret)) {
     if (debug_enabled) {
       SCM_DEBUG_EVAL("do: loop iteration %d\n", loop_count++);
     }
-- 
2.43.0


From 6ddc89744f4c7af8f740a56f12ab8efdd8eae3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 52/78] fix: continuations take any number of values, and
 for-each and call-with-values accept them

---
 src/c/apply.cc    | 22 ++++++++++++++++++----
 src/c/eval.cc     | 13 ++-----------
 src/c/eval.h      | 10 ++++++++++
 src/c/for_each.cc |  2 +-
 src/c/values.cc   | 30 ++++--------------------------
 5 files changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index c5ce690..fbc1f6b 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -30,6 +30,9 @@ SCM *scm_call_0(SCM *proc) {
     dummy_list.next = nullptr;
     dummy_list.is_dotted = false;
     return eval_with_func(func_obj, &dummy_list);
+  } else if (is_cont(proc)) {
+    scm_dynthrow(proc, scm_nil());
+    return nullptr;  // Never reached
   } else {
     eval_error("scm_call_0: expected procedure or function");
     return nullptr;
@@ -56,6 +59,9 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     dummy_list.next = arg_list;
     dummy_list.is_dotted = false;
     return eval_with_func(func_obj, &dummy_list);
+  } else if (is_cont(proc)) {
+    scm_dynthrow(proc, arg1);
+    return nullptr;  // Never reached
   } else {
     eval_error("scm_call_1: expected procedure or function");
     return nullptr;
@@ -84,6 +90,9 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     dummy_list.next = arg_list;
     dummy_list.is_dotted = false;
     return eval_with_func(func_obj, &dummy_list);
+  } else if (is_cont(proc)) {
+    scm_dynthrow(proc, scm_list2(arg1, arg2));
+    return nullptr;  // Never reached
   } else {
     eval_error("scm_call_2: expected procedure or function");
     return nullptr;
@@ -114,6 +123,9 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     dummy_list.next = arg_list;
     dummy_list.is_dotted = false;
     return eval_with_func(func_obj, &dummy_list);
+  } else if (is_cont(proc)) {
+    scm_dynthrow(proc, scm_list3(arg1, arg2, arg3));
+    return nullptr;  // Never reached
   } else {
     eval_error("scm_call_3: expected procedure or function");
     return nullptr;
@@ -153,6 +165,10 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
     // Let's check if we need to use apply_procedure_with_values for procedures
     // For now, use eval_with_func which should work if args are already evaluated
     return eval_with_func(func_obj, &dummy_list);
+  } else if (is_cont(proc)) {
+    bool single = args_list && !args_list->next;
+    scm_dynthrow(proc, single ? args_list->data : args);
+    return nullptr;  // Never reached
   } else {
     eval_error("scm_apply_0: expected procedure or function");
     return nullptr;
@@ -209,8 +225,7 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
       // Only one argument: (apply cont things) -> use things directly
       SCM *arg = eval_with_env(env, l->next->next->data);
       check_arg_list(arg);
-      scm_dynthrow(proc, arg);
-      return nullptr;
+      return scm_apply_0(proc, arg);  // Never returns
     }
     
     // Multiple arguments: collect them
@@ -256,8 +271,7 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     
     // Pass the combined list to continuation
     SCM *combined_list = args_dummy.next ? wrap(args_dummy.next) : scm_nil();
-    scm_dynthrow(proc, combined_list);
-    return nullptr;  // Never reached, but satisfies compiler
+    return scm_apply_0(proc, combined_list);  // Never returns
   }
   
   // Collect all arguments before the last one
diff --git a/src/c/eval.cc b/src/c/eval.cc
index a23ae10..50db977 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -280,11 +280,6 @@ static bool is_core_keyword(SCM *sym) {
          is_sym_val(sym, "let") || is_sym_val(sym, "let*") || is_sym_val(sym, "letrec");
 }
 
-// Whether val can be the (evaluated) operator of a combination
-static bool is_applicable(SCM *val) {
-  return is_proc(val) || is_func(val) || is_cont(val) || is_smob(val) || is_macro(val);
-}
-
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
@@ -575,12 +570,8 @@ entry:
     }
   }
   else if (is_cont(l->data)) {
-    SCM *cont_arg = scm_nil();
-    if (l->next) {
-      cont_arg = eval_with_env(env, l->next->data);
-    }
-    scm_dynthrow(l->data, cont_arg);
-    return nullptr;  // Never reached, but satisfies compiler
+    SCM_List *vals = eval_list_with_env(env, l->next);
+    return scm_apply_0(l->data, vals ? wrap(vals) : scm_nil());  // Never returns
   }
   else if (is_proc(l->data)) {
     auto proc = cast<SCM_Procedure>(l->data);
diff --git a/src/c/eval.h b/src/c/eval.h
index 6d6f60f..3ceecf2 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -62,6 +62,16 @@ SCM *eval_define_public(SCM_Environment *env, SCM_List *l);
 // List evaluation (used by macros and other special forms)
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l);
 
+// Whether val can be the (evaluated) operator of a combination
+inline bool is_applicable(SCM *val) {
+  return is_proc(val) || is_func(val) || is_cont(val) || is_smob(val) || is_macro(val);
+}
+
+// Whether val is a procedure a C function can call
+inline bool is_callable(SCM *val) {
+  return is_proc(val) || is_func(val) || is_cont(val);
+}
+
 // Helper functions for argument mismatch reporting (used by apply_procedure and macros)
 inline void print_arg_list(SCM_List *l) {
   if (!l) {
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index c4bfa1d..f907d3f 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -36,7 +36,7 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
-  if (!is_proc(f) && !is_func(f)) {
+  if (!is_callable(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
diff --git a/src/c/values.cc b/src/c/values.cc
index a7e255a..f6d1691 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -32,24 +32,13 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
   
   // Evaluate producer
   SCM *producer = eval_with_env(env, l->next->data);
-  if (!is_proc(producer) && !is_func(producer)) {
+  if (!is_callable(producer)) {
     eval_error("call-with-values: first argument must be a procedure");
     return nullptr;
   }
   
   // Call producer to get values
-  SCM *values_result;
-  if (is_proc(producer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(producer);
-    values_result = apply_procedure(env, proc, nullptr);
-  } else {
-    // Function - need to call it
-    SCM_Function *func = cast<SCM_Function>(producer);
-    SCM_List func_call;
-    func_call.data = producer;
-    func_call.next = nullptr;
-    values_result = eval_with_func(func, &func_call);
-  }
+  SCM *values_result = scm_call_0(producer);
   
   // values_result should be a list of values
   // If it's not a pair, wrap it in a list
@@ -65,24 +54,13 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
   
   // Get consumer
   SCM *consumer = eval_with_env(env, l->next->next->data);
-  if (!is_proc(consumer) && !is_func(consumer)) {
+  if (!is_callable(consumer)) {
     eval_error("call-with-values: second argument must be a procedure");
     return nullptr;
   }
   
   // Apply consumer to the values
-  // Build argument list from values_list
-  if (is_proc(consumer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(consumer);
-    return apply_procedure_with_values(env, proc, values_list);
-  } else {
-    // Function - need to call it with the values
-    SCM_Function *func = cast<SCM_Function>(consumer);
-    SCM_List func_call;
-    func_call.data = consumer;
-    func_call.next = values_list;
-    return eval_with_func(func, &func_call);
-  }
+  return scm_apply_0(consumer, values_list ? wrap(values_list) : scm_nil());
 }
 
 void init_values() {
-- 
2.43.0


From 590599a250c95aa4fe04b26c31650595f7ee6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 53/78] fix: throw and continuations unwind catches and
 dynamic-winds in order

---
 src/c/continuation.cc |  12 +-
 src/c/dynwind.cc      | 200 ++++++---------------------
 src/c/pscm_types.h    |   1 +
 src/c/throw.cc        | 312 ++++++++++++------------------------------
 src/c/throw.h         |  14 ++
 5 files changed, 147 insertions(+), 392 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..9833717 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -11,11 +12,6 @@ long scm_stack_size(long *start) {
   return start - &stack;
 }
 
-// Forward declaration
-SCM_List *copy_wind_chain(SCM_List *chain);
-SCM_List *unwind_wind_chain(SCM_List *target);
-void rewind_wind_chain(SCM_List *common, SCM_List *target);
-
 // no_sanitize("address"): this function reads the entire C stack (from
 // cont_base to the current stack top), crossing multiple independent stack
 // frames. This is UB per the C standard and ASan detects it as
@@ -49,7 +45,10 @@ SCM *scm_make_continuation(int *first) {
 #endif
   
   // Save current wind chain
-  cont->wind_chain = copy_wind_chain(g_wind_chain);
+  cont->wind_chain = g_wind_chain;
+
+  // Save the active catches; their data is on the C stack
+  cont->catch_top = scm_catch_top();
   
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
@@ -59,6 +58,7 @@ SCM *scm_make_continuation(int *first) {
     return data;
   }
   else {
+    scm_set_catch_top(cont->catch_top);
     // Restore current module when continuation is invoked
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index d7b197b..09d8fb0 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -1,178 +1,59 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 
-// Forward declarations for functions used by continuation.cc
-SCM_List *copy_wind_chain(SCM_List *chain);
-SCM_List *unwind_wind_chain(SCM_List *target);
-void rewind_wind_chain(SCM_List *common, SCM_List *target);
+// The wind chain is a list of (in_guard out_guard) entries, innermost first.
+// Its nodes are never modified, so chains share their outer part.
 
-// Helper function to copy a wind chain
-SCM_List *copy_wind_chain(SCM_List *chain) {
-  if (!chain) {
-    return nullptr;
+static int wind_depth(SCM_List *chain) {
+  int n = 0;
+  for (; chain; chain = chain->next) {
+    n++;
   }
-  auto new_chain = make_list(chain->data);
-  auto current = chain->next;
-  auto new_current = new_chain;
-  while (current) {
-    new_current->next = make_list(current->data);
-    new_current = new_current->next;
-    current = current->next;
-  }
-  return new_chain;
+  return n;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
-  }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
+// Outer part that two wind chains share
+static SCM_List *find_common_chain(SCM_List *chain1, SCM_List *chain2) {
+  int depth1 = wind_depth(chain1), depth2 = wind_depth(chain2);
+  for (; depth1 > depth2; depth1--) {
+    chain1 = chain1->next;
   }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
+  for (; depth2 > depth1; depth2--) {
+    chain2 = chain2->next;
   }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
+  while (chain1 != chain2) {
+    chain1 = chain1->next;
+    chain2 = chain2->next;
   }
-  
-  return common;
+  return chain1;
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
+// Unwind wind chain: leave the entries that are not part of target, innermost
+// first. Each out_guard runs in the dynamic context of its dynamic-wind.
+// Returns the common part
 SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
-  
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
-    }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
+  SCM_List *common = find_common_chain(g_wind_chain, target);
+  while (g_wind_chain != common) {
+    SCM_List *entry = cast<SCM_List>(g_wind_chain->data);
+    g_wind_chain = g_wind_chain->next;
+    scm_leave_inner_catches();
+    scm_call_0(entry->next->data);
   }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->next && pair->next->data) {
-        // Call out_guard
-        SCM *out_guard = pair->next->data;
-        if (is_proc(out_guard)) {
-          auto proc = cast<SCM_Procedure>(out_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
-    }
-    to_unwind = to_unwind->next;
-  }
-  
-  // Update wind chain to common prefix
-  g_wind_chain = common;
   return common;
 }
 
-// Rewind wind chain: call in_guard for each entry from common to target
+// Rewind wind chain: enter the entries between common and target, outermost first
 void rewind_wind_chain(SCM_List *common, SCM_List *target) {
-  // Build list of entries to rewind (from target, excluding common)
-  SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
-  }
-  
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
-  }
-  
-  // Collect entries to rewind (in reverse order)
-  while (c) {
-    auto new_entry = make_list(c->data);
-    new_entry->next = to_rewind;
-    to_rewind = new_entry;
-    c = c->next;
-  }
-  
-  // Rewind entries (call in_guard) and add to wind chain
-  while (to_rewind) {
-    SCM *entry = to_rewind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data) {
-        // Call in_guard
-        SCM *in_guard = pair->data;
-        if (is_proc(in_guard)) {
-          auto proc = cast<SCM_Procedure>(in_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
-    }
-    
-    // Add to wind chain
-    auto new_entry = make_list(entry);
-    new_entry->next = g_wind_chain;
-    g_wind_chain = new_entry;
-    
-    to_rewind = to_rewind->next;
+  if (target == common) {
+    return;
   }
+  rewind_wind_chain(common, target->next);
+  SCM_List *entry = cast<SCM_List>(target->data);
+  scm_call_0(entry->data);
+  g_wind_chain = target;
 }
 
 // Dynamic-wind special form handler
@@ -185,13 +66,12 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   SCM *out_guard_val = eval_with_env(env, l->next->next->next->data);
   
   // Verify they are procedures
-  if (!is_proc(in_guard_val) || !is_proc(thunk_val) || !is_proc(out_guard_val)) {
+  if (!is_callable(in_guard_val) || !is_callable(thunk_val) || !is_callable(out_guard_val)) {
     eval_error("dynamic-wind: all arguments must be procedures");
   }
   
   // Call in_guard
-  auto in_guard_proc = cast<SCM_Procedure>(in_guard_val);
-  apply_procedure(env, in_guard_proc, nullptr);
+  scm_call_0(in_guard_val);
   
   // Create wind entry: (in_guard . out_guard)
   auto wind_entry = make_list(in_guard_val);
@@ -205,15 +85,13 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   g_wind_chain = new_wind_entry;
   
   // Call thunk
-  auto thunk_proc = cast<SCM_Procedure>(thunk_val);
-  SCM *result = apply_procedure(env, thunk_proc, nullptr);
+  SCM *result = scm_call_0(thunk_val);
   
   // Restore old wind chain
   g_wind_chain = old_wind_chain;
   
   // Call out_guard
-  auto out_guard_proc = cast<SCM_Procedure>(out_guard_val);
-  apply_procedure(env, out_guard_proc, nullptr);
+  scm_call_0(out_guard_val);
   
   return result;
 }
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..5148b95 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -94,6 +94,7 @@ struct SCM_Continuation {
   void *dst;
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
+  void *catch_top;      // Innermost catch when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
 };
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..6e9d8c0 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -9,33 +9,61 @@
 
 // Standard error key is now in throw.h as inline variable
 
-// Global catch stack (shared between scm_c_catch and scm_throw)
-static struct catch_info *g_catch_stack[100];
-static int g_catch_stack_top = 0;
-
-// Jump buffer and return value structure
-struct jmp_buf_and_retval {
+// Catch information structure, kept on the C stack of the catch it describes
+struct catch_info {
+  SCM *tag;              // Catch tag (symbol or #t)
   jmp_buf buf;           // Jump buffer
   SCM *throw_tag;        // Thrown tag
   SCM *throw_args;       // Thrown arguments
-  bool active;           // Whether this catch is active
-};
-
-// Catch information structure
-struct catch_info {
-  SCM *tag;              // Catch tag (symbol or #t)
-  struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  bool lazy;              // Handler runs at the throw, before any unwinding
+  SCM_List *wind_chain;   // Wind chain in effect around the catch
+  SCM *eval_context;      // Evaluation context around the catch
+  EvalStackFrame *eval_stack;      // Evaluation call stack around the catch
+  struct catch_info *prev;         // Enclosing catch
 };
 
-// Structure to hold lazy catch handler information
-struct lazy_catch_data {
-  SCM *tag;
-  scm_t_catch_handler handler;
-  void *handler_data;
-  int lazy_catch_p;
-};
+// Innermost active catch (shared between scm_c_catch and scm_throw)
+static struct catch_info *g_catch_top = nullptr;
+
+void *scm_catch_top() {
+  return g_catch_top;
+}
+
+void scm_set_catch_top(void *top) {
+  g_catch_top = (struct catch_info *)top;
+}
+
+static int wind_depth(SCM_List *chain) {
+  int n = 0;
+  for (; chain; chain = chain->next) {
+    n++;
+  }
+  return n;
+}
+
+// Forget the catches established deeper than the current wind chain
+void scm_leave_inner_catches() {
+  int depth = wind_depth(g_wind_chain);
+  while (g_catch_top && wind_depth(g_catch_top->wind_chain) > depth) {
+    g_catch_top = g_catch_top->prev;
+  }
+}
+
+static void enter_catch(struct catch_info *info, SCM *tag, scm_t_catch_handler handler, void *handler_data, bool lazy) {
+  info->tag = tag;
+  info->throw_tag = nullptr;
+  info->throw_args = nullptr;
+  info->handler = handler;
+  info->handler_data = handler_data;
+  info->lazy = lazy;
+  info->wind_chain = g_wind_chain;
+  info->eval_context = g_current_eval_context;
+  info->eval_stack = g_eval_stack;
+  info->prev = g_catch_top;
+  g_catch_top = info;
+}
 
 // Helper function to check if two tags match
 static bool tags_match(SCM *tag, SCM *key) {
@@ -59,132 +87,50 @@ static bool tags_match(SCM *tag, SCM *key) {
 SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_body body, void *body_data,
                  scm_t_catch_handler handler, void *handler_data) {
-  struct jmp_buf_and_retval jbr;
-  jbr.throw_tag = nullptr;
-  jbr.throw_args = nullptr;
-  jbr.active = false;
-  
   // Allocate catch_info on stack (so it's protected from GC)
   struct catch_info info;
-  info.tag = tag;
-  info.jbr = &jbr;
-  info.handler = handler;
-  info.handler_data = handler_data;
-  
-  // Create a pair (tag . catch_info) to store in wind chain
-  // We'll use a special marker to distinguish catch entries from wind entries
-  // For simplicity, we'll store the catch_info pointer in a list
-  // Format: (tag . (jbr_ptr . (handler_ptr . handler_data_ptr)))
-  // Actually, we need to store pointers, so let's use a simpler approach:
-  // Store catch_info pointer directly (it's on stack, so it's safe)
-  
-  // Create entry: (tag . catch_info_ptr)
-  // We'll use a list where data is tag and next->data is catch_info pointer
-  // But SCM_List stores SCM*, not void*. So we need another approach.
-  // Let's create a special SCM object to hold the catch_info pointer.
-  // Actually, for now, let's just store it in a global list temporarily.
-  // Better: use a hash table or similar. But for simplicity, let's use a list.
-  
-  // For now, we'll use a simpler approach: store catch_info in a static array
-  // and use an index. But that's not scalable.
-  
-  // Better approach: create a wrapper SCM object that holds the catch_info pointer
-  // But we don't have a way to create custom SCM objects easily.
-  
-  // Simplest approach for now: use a global list of active catch_info structures
-  // We'll add the catch_info to a list when entering catch, remove when exiting.
-  // But we need to be careful about nested catches.
-  
-  // Actually, let's use a different approach: store catch_info in the wind chain
-  // by creating a special marker. We can use a special symbol or a special list structure.
-  
-  if (g_catch_stack_top >= 100) {
-    eval_error("catch: too many nested catches");
-    return nullptr;
-  }
+  enter_catch(&info, tag, handler, handler_data, false);
 
-  // Push catch_info onto stack
-  g_catch_stack[g_catch_stack_top++] = &info;
-  
   // Set up jump buffer
-  if (setjmp(jbr.buf)) {
-    // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
-    
-    SCM *throw_tag = jbr.throw_tag;
-    SCM *throw_args = jbr.throw_args;
-    
+  if (setjmp(info.buf)) {
+    // Exception was thrown - the catches made inside this one are gone, too
+    g_catch_top = info.prev;
+    g_current_eval_context = info.eval_context;
+    while (g_eval_stack && g_eval_stack != info.eval_stack) {
+      pop_eval_stack();
+    }
+
     // Call handler
-    SCM *result = handler(handler_data, throw_tag, throw_args);
-    return result;
-  } else {
-    // Normal execution - call body
-    jbr.active = true;
-    SCM *result = body(body_data);
-    jbr.active = false;
-    
-    // Pop from stack
-    g_catch_stack_top--;
-    
-    return result;
+    return handler(handler_data, info.throw_tag, info.throw_args);
   }
+
+  // Normal execution - call body
+  SCM *result = body(body_data);
+  g_catch_top = info.prev;
+  return result;
 }
 
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args) {
-  // First, check for lazy catch handlers in the wind chain
-  SCM_List *wind_current = g_wind_chain;
-  
-  // Static storage for lazy catch data (same as in scm_c_with_throw_handler)
-  static struct lazy_catch_data lazy_catch_storage[100];
-  
-  while (wind_current) {
-    SCM *entry = wind_current->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data && tags_match(pair->data, key)) {
-        // Check if this is a lazy catch entry
-        if (pair->next && is_pair(pair->next->data)) {
-          SCM_List *marker_pair = cast<SCM_List>(pair->next->data);
-          if (marker_pair->data && is_sym(marker_pair->data)) {
-            SCM_Symbol *marker = cast<SCM_Symbol>(marker_pair->data);
-            if (strcmp(marker->data, "__lazy_catch__") == 0) {
-              // This is a lazy catch entry
-              if (marker_pair->next && marker_pair->next->data) {
-                SCM *index_list = marker_pair->next->data;
-                if (is_pair(index_list)) {
-                  SCM_List *index_pair = cast<SCM_List>(index_list);
-                  if (index_pair->data && is_num(index_pair->data)) {
-                    int storage_index = (int)(int64_t)index_pair->data->value;
-                    if (storage_index >= 0 && storage_index < 100) {
-                      struct lazy_catch_data *lcd = &lazy_catch_storage[storage_index];
-                      // Call the handler
-                      return lcd->handler(lcd->handler_data, key, args);
-                    }
-                  }
-                }
-              }
-            }
-          }
-        }
-      }
+  // Find the matching catch, most recent first
+  for (struct catch_info *info = g_catch_top; info; info = info->prev) {
+    if (!tags_match(info->tag, key)) {
+      continue;
     }
-    wind_current = wind_current->next;
-  }
-  
-  // Then, find matching catch in the catch stack (normal catch with stack unwinding)
-  // Search from top to bottom (most recent catch first)
-  for (int i = g_catch_stack_top - 1; i >= 0; i--) {
-    struct catch_info *info = g_catch_stack[i];
-    
-    if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - set throw info and jump
-      info->jbr->throw_tag = key;
-      info->jbr->throw_args = args;
-      longjmp(info->jbr->buf, 1);
+    if (info->lazy) {
+      // The handler runs in the context of the throw, where the catches around
+      // its own one are active.  When it returns, the throw goes on outwards.
+      g_catch_top = info->prev;
+      info->handler(info->handler_data, key, args);
+      continue;
     }
+    // Leave the dynamic-winds entered since the catch, then jump
+    unwind_wind_chain(info->wind_chain);
+    info->throw_tag = key;
+    info->throw_args = args;
+    longjmp(info->buf, 1);
   }
-  
+
   // No matching catch found - call uncaught throw handler
   scm_uncaught_throw(key, args);
   return nullptr;  // Never reached
@@ -320,88 +266,16 @@ SCM *scm_ithrow(SCM *key, SCM *args, int noreturn) {
   return scm_throw(key, args);
 }
 
-// Helper function to check if a wind chain entry is a lazy catch handler
-static bool is_lazy_catch_entry(SCM *entry, SCM *tag) {
-  // Check if entry is a pair and matches the tag
-  if (!is_pair(entry)) {
-    return false;
-  }
-  
-  SCM_List *pair = cast<SCM_List>(entry);
-  if (!pair->data || !is_sym(pair->data)) {
-    return false;
-  }
-  
-  // Check if tag matches
-  return tags_match(pair->data, tag);
-}
-
 // With throw handler (for lazy catch) - does not unwind stack
 SCM *scm_c_with_throw_handler(SCM *tag,
                               scm_t_catch_body body, void *body_data,
                               scm_t_catch_handler handler, void *handler_data,
                               int lazy_catch_p) {
-  // Create lazy catch data structure
-  struct lazy_catch_data lcd;
-  lcd.tag = tag;
-  lcd.handler = handler;
-  lcd.handler_data = handler_data;
-  lcd.lazy_catch_p = lazy_catch_p;
-  
-  // Create a marker entry for the wind chain: (tag . lazy_catch_data_ptr)
-  // We'll use a special list structure to store this
-  // Format: (tag . (handler_ptr . handler_data_ptr))
-  // Actually, we need to store the lazy_catch_data pointer, but SCM_List only stores SCM*
-  // So we'll use a different approach: store it in a static array and use an index
-  // Or better: create a wrapper that we can store in the wind chain
-  
-  // For simplicity, we'll create a list entry: (tag . handler_info)
-  // where handler_info is a list containing the handler function pointer and data
-  // But we can't store function pointers directly in SCM objects.
-  
-  // Better approach: use a global array to store lazy_catch_data structures
-  // and store the index in the wind chain entry
-  static struct lazy_catch_data lazy_catch_storage[100];
-  static int lazy_catch_storage_top = 0;
-  
-  if (lazy_catch_storage_top >= 100) {
-    eval_error("scm_c_with_throw_handler: too many nested lazy catches");
-    return nullptr;
-  }
-  
-  int storage_index = lazy_catch_storage_top++;
-  lazy_catch_storage[storage_index] = lcd;
-  
-  // Create wind chain entry: (tag . storage_index)
-  // We'll use a special marker to distinguish lazy catch entries
-  // Format: (tag . (lazy_catch_marker . storage_index))
-  SCM_Symbol *lazy_catch_marker_sym = make_sym("__lazy_catch__");
-  SCM *lazy_catch_marker = wrap(lazy_catch_marker_sym);
-  SCM *index_scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-  index_scm->type = SCM::NUM;
-  index_scm->value = (void*)(int64_t)storage_index;
-  index_scm->source_loc = nullptr;
-  
-  SCM_List *marker_pair = make_list(lazy_catch_marker);
-  marker_pair->next = make_list(index_scm);
-  
-  SCM_List *wind_entry = make_list(tag);
-  wind_entry->next = marker_pair;
-  SCM *wind_entry_wrapped = wrap(wind_entry);
-  
-  // Add to wind chain
-  SCM_List *old_wind_chain = g_wind_chain;
-  SCM_List *new_wind_entry = make_list(wind_entry_wrapped);
-  new_wind_entry->next = g_wind_chain;
-  g_wind_chain = new_wind_entry;
-  
-  // Call body
+  (void)lazy_catch_p;
+  struct catch_info info;
+  enter_catch(&info, tag, handler, handler_data, true);
   SCM *result = body(body_data);
-  
-  // Remove from wind chain
-  g_wind_chain = old_wind_chain;
-  lazy_catch_storage_top--;  // Free the storage slot
-  
+  g_catch_top = info.prev;
   return result;
 }
 
@@ -424,23 +298,12 @@ SCM *scm_internal_lazy_catch(SCM *tag,
 // Body function for Scheme catch (thunk)
 static SCM *scm_body_thunk(void *body_data) {
   SCM *thunk = (SCM *)body_data;
-  if (!is_proc(thunk)) {
-    eval_error("catch: thunk must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(thunk);
-  // Use the procedure's environment if available, otherwise use g_env
-  // The procedure's environment captures the lexical scope where it was defined
-  SCM_Environment *env = proc->env ? proc->env : &g_env;
-  return apply_procedure(env, proc, nullptr);
+  return scm_call_0(thunk);
 }
 
 // Handler function for Scheme catch
 static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
   SCM *handler = (SCM *)handler_data;
-  if (!is_proc(handler)) {
-    eval_error("catch: handler must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(handler);
   
   // Build argument list: (tag . args)
   SCM_List *arg_list = make_list(tag);
@@ -460,8 +323,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
     }
   }
   
-  // Use apply_procedure_with_values because arguments are already evaluated
-  return apply_procedure_with_values(proc->env, proc, arg_list);
+  return scm_apply_0(handler, wrap(arg_list));
 }
 
 // Scheme-callable catch function
@@ -481,10 +343,10 @@ SCM *scm_c_catch_scheme(SCM_List *args) {
   }
   
   // Verify thunk and handler are procedures
-  if (!is_proc(thunk)) {
+  if (!is_callable(thunk)) {
     eval_error("catch: thunk must be a procedure");
   }
-  if (!is_proc(handler)) {
+  if (!is_callable(handler)) {
     eval_error("catch: handler must be a procedure");
   }
   
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..946799c 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -16,6 +16,20 @@ SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_body body, void *body_data,
                  scm_t_catch_handler handler, void *handler_data);
 
+// Innermost active catch, saved and restored with continuations
+void *scm_catch_top();
+void scm_set_catch_top(void *top);
+
+// Forget the catches established deeper than the current wind chain
+void scm_leave_inner_catches();
+
+// Leave the dynamic-winds that are not part of target (a wind chain); returns
+// the part that stays
+SCM_List *unwind_wind_chain(SCM_List *target);
+
+// Enter the dynamic-winds of target that are not part of common
+void rewind_wind_chain(SCM_List *common, SCM_List *target);
+
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args);
 
-- 
2.43.0


From d8a4c7a94fb03521f6690d28490ad240d425698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 54/78] fix: a throw without arguments passes none to the
 handler

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 6e9d8c0..03c35c1 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -318,7 +318,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
         if (!current->next) break;
         current = current->next;
       }
-    } else {
+    } else if (!is_nil(args)) {
       arg_list->next = make_list(args);
     }
   }
-- 
2.43.0


From 629735a391167821de27dd9391176066949489db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 55/78] fix: catch tags are compared as whole symbols

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 03c35c1..a6079f9 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -76,7 +76,7 @@ static bool tags_match(SCM *tag, SCM *key) {
   if (is_sym(tag) && is_sym(key)) {
     SCM_Symbol *tag_sym = cast<SCM_Symbol>(tag);
     SCM_Symbol *key_sym = cast<SCM_Symbol>(key);
-    return strcmp(tag_sym->data, key_sym->data) == 0;
+    return tag_sym->len == key_sym->len && memcmp(tag_sym->data, key_sym->data, tag_sym->len) == 0;
   }
   
   // Otherwise, use pointer equality
-- 
2.43.0


From 927b994a92cea034f17ddbb37fc2bb30fa6aa977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 56/78] fix: make-vector and make-string report lengths that
 cannot be allocated

---
 src/c/string.cc | 13 ++++++++++++-
 src/c/vector.cc | 10 ++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 80f0e6c..cd55342 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -3,6 +3,8 @@
 #include <cstring>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
+#include <new>
 
 // string-length: Return the number of characters in string
 SCM *scm_c_string_length(SCM *str) {
@@ -31,6 +33,11 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
     return nullptr;
   }
   
+  if (len >= INT_MAX) {
+    eval_error("make-string: length %lld is too large", (long long)len);
+    return nullptr;
+  }
+  
   // Get optional character (default to space)
   char fill_char = ' ';
   if (char_scm) {
@@ -43,7 +50,11 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
   
   // Create string
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
-  s->data = new char[len + 1];
+  s->data = new (std::nothrow) char[len + 1];
+  if (!s->data) {
+    eval_error("make-string: length %lld is too large", (long long)len);
+    return nullptr;
+  }
   for (int i = 0; i < len; i++) {
     s->data[i] = fill_char;
   }
diff --git a/src/c/vector.cc b/src/c/vector.cc
index 5cae713..e9a2e3e 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <new>
 
 // Helper function for make-vector implementation
 static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
@@ -18,13 +19,18 @@ static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
   
   // Create vector
   SCM_Vector *vec = (SCM_Vector *)gc_alloc(GC_VECTOR, sizeof(SCM_Vector));
-  vec->length = (size_t)len;
   if (len > 0) {
-    vec->elements = new SCM*[len];
+    vec->elements = new (std::nothrow) SCM*[len];
+    if (!vec->elements) {
+      eval_error("make-vector: length %lld is too large", (long long)len);
+      return nullptr;
+    }
+    vec->length = (size_t)len;
     for (size_t i = 0; i < (size_t)len; i++) {
       vec->elements[i] = fill;
     }
   } else {
+    vec->length = 0;
     vec->elements = nullptr;
   }
   
-- 
2.43.0


From 4693180d9d76415c971ffce3e17a86836372fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 57/78] fix: uncaught-throw messages of any length; the API
 reports unreadable files

---
 src/c/pscm_api.cc | 16 +++++++++++++++-
 src/c/throw.cc    | 33 ++++++++++++---------------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index c7f5354..3c88582 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -106,7 +106,21 @@ SCM_List *pscm_parse_file(const char *filename) {
   if (!filename) {
     return nullptr;
   }
-  return parse_file(filename);
+  struct Request {
+    const char *filename;
+    SCM_List *exprs;
+  } request = {filename, nullptr};
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        auto r = (Request *)data;
+        r->exprs = parse_file(r->filename);
+        return nullptr;
+      },
+      &request,
+      scm_api_catch_handler,
+      nullptr);
+  return request.exprs;
 }
 
 // Get the global environment
diff --git a/src/c/throw.cc b/src/c/throw.cc
index a6079f9..2f8a0f6 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -169,41 +169,32 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
   
   const char *prog_name = handler_data ? (const char *)handler_data : "pscm";
   
-  // Build message string
-  char msg[1024];
-  int pos = 0;
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "%s: uncaught throw to ", prog_name);
+  write_to_port(port, prog_name);
+  write_to_port(port, ": uncaught throw to ");
   
   if (is_sym(tag)) {
-    SCM_Symbol *sym = cast<SCM_Symbol>(tag);
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "'%s", sym->data);
+    write_to_port(port, "'");
+    write_to_port(port, cast<SCM_Symbol>(tag)->data);
   } else {
     // For non-symbol tags, use a simple representation
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "<non-symbol>");
+    write_to_port(port, "<non-symbol>");
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, ": ");
+  write_to_port(port, ": ");
   
   // For args, we'll print a simplified version
   if (args) {
-    if (is_pair(args)) {
-      SCM_List *args_list = cast<SCM_List>(args);
-      if (args_list->data && is_str(args_list->data)) {
-        SCM_String *s = cast<SCM_String>(args_list->data);
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "%s", s->data);
-      } else {
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
-      }
+    SCM_List *args_list = is_pair(args) ? cast<SCM_List>(args) : nullptr;
+    if (args_list && args_list->data && is_str(args_list->data)) {
+      write_to_port(port, cast<SCM_String>(args_list->data)->data);
     } else {
-      pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+      write_to_port(port, "<args>");
     }
   } else {
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "()");
+    write_to_port(port, "()");
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "\n");
-  
-  write_to_port(port, msg);
+  write_to_port(port, "\n");
   
   // Flush the port
   if (port->port_type == PORT_FILE_OUTPUT && port->file) {
-- 
2.43.0


From b979fef96e86bbae127a117f13b4e1a28ccda62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 58/78] fix: macros run in the environment of their transformer
 and check the number of arguments

---
 src/c/macro.cc | 143 ++++++++++++++-----------------------------------
 1 file changed, 41 insertions(+), 102 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 45239d9..bf83ac0 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -3,47 +3,55 @@
 
 // Helper function to expand a macro call
 SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, SCM *original_call) {
-  // Create macro environment (use macro's definition environment)
-  SCM_Environment *macro_env = make_env(macro->env);
+  // The body runs in the environment the transformer closes over
+  SCM_Environment *macro_env = make_env(macro->transformer->env);
 
   // Bind macro arguments (pass syntax objects directly, without evaluation)
-  SCM_List *macro_args = macro->transformer->args;
+  SCM_List *current_param = macro->transformer->args;
   SCM_List *actual_args = args;
-  
-  // Check if the last parameter is a rest parameter (dotted pair: (a b . c) or (. rest))
-  // Similar to apply_procedure, we need to handle rest parameters specially
-  bool has_rest_param = false;
-  SCM_Symbol *rest_param_sym = nullptr;
-  SCM_List *penultimate_param = nullptr;
-  bool only_rest_param = false;  // True if the only parameter is a rest parameter
-  if (macro_args) {
-    // Check if the last parameter is a rest parameter by checking is_dotted flag
-    SCM_List *last_param = macro_args;
-    SCM_List *penultimate = nullptr;
-    while (last_param->next) {
-      penultimate = last_param;
-      last_param = last_param->next;
+
+  // Regular parameters; a rest parameter is the last node, marked as dotted
+  while (current_param && !current_param->is_dotted) {
+    if (!is_sym(current_param->data)) {
+      fprintf(stderr, "\nError binding macro parameter");
+      if (macro->name) {
+        fprintf(stderr, " in macro '%s'", macro->name->data);
+      }
+      fprintf(stderr, "\n  Expected a symbol, got: ");
+      print_ast(current_param->data);
+      fprintf(stderr, "\n  Parameter list: ");
+      print_ast(wrap(macro->transformer->args));
+      fprintf(stderr, "\n");
+      fflush(stderr);
+      eval_error("macro: malformed parameter in lambda list (expected symbol)");
+      return nullptr;
     }
-    
-    // Check if last parameter is marked as dotted (rest parameter)
-    if (last_param->is_dotted && is_sym(last_param->data)) {
-      has_rest_param = true;
-      rest_param_sym = cast<SCM_Symbol>(last_param->data);
-      penultimate_param = penultimate;
-      only_rest_param = (penultimate == nullptr);  // Only rest param if no penultimate
+    if (!actual_args) {
+      report_arg_mismatch(macro->transformer->args, args, "Macro", original_call, macro->name);
+      return nullptr;
+    }
+    auto param_sym = cast<SCM_Symbol>(current_param->data);
+    scm_env_insert(macro_env, param_sym, actual_args->data, /*search_parent=*/false);
+    if (debug_enabled) {
+      SCM_DEBUG_EVAL("bind macro arg ");
+      printf("%s to ", param_sym->data);
+      print_ast(actual_args->data);
+      printf("\n");
     }
+    actual_args = actual_args->next;
+    current_param = current_param->next;
   }
-  
-  // Bind regular parameters
-  SCM_List *current_param = macro_args;
-  
-  // Special case: only rest parameter (e.g., (define-macro (test . args) ...))
-  if (only_rest_param) {
-    // Bind all arguments to the rest parameter (as syntax objects, not evaluated)
+
+  if (current_param) {
+    // All remaining arguments go to the rest parameter
+    if (!is_sym(current_param->data)) {
+      eval_error("macro: malformed parameter in lambda list (expected symbol)");
+      return nullptr;
+    }
+    auto rest_param_sym = cast<SCM_Symbol>(current_param->data);
     SCM_List rest_args_dummy = make_list_dummy();
     SCM_List *rest_args_tail = &rest_args_dummy;
     while (actual_args) {
-      // Pass the argument as-is (syntax object), not evaluated
       SCM_List *node = make_list(actual_args->data);
       rest_args_tail->next = node;
       rest_args_tail = node;
@@ -57,76 +65,7 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
       print_ast(rest_args);
       printf("\n");
     }
-  } else {
-    // Bind regular parameters and handle rest parameter if present
-    while (actual_args && current_param) {
-      // Check if this is the penultimate parameter before rest parameter
-      if (has_rest_param && current_param == penultimate_param) {
-        // Bind the penultimate parameter
-        assert(is_sym(current_param->data));
-        auto param_sym = cast<SCM_Symbol>(current_param->data);
-        // Pass the argument as-is (syntax object), not evaluated
-        scm_env_insert(macro_env, param_sym, actual_args->data, /*search_parent=*/false);
-        if (debug_enabled) {
-          SCM_DEBUG_EVAL("bind macro arg ");
-          printf("%s to ", param_sym->data);
-          print_ast(actual_args->data);
-          printf("\n");
-        }
-        actual_args = actual_args->next;
-        current_param = current_param->next;
-        
-        // Now bind all remaining arguments to the rest parameter
-        SCM_List rest_args_dummy = make_list_dummy();
-        SCM_List *rest_args_tail = &rest_args_dummy;
-        while (actual_args) {
-          // Pass the argument as-is (syntax object), not evaluated
-          SCM_List *node = make_list(actual_args->data);
-          rest_args_tail->next = node;
-          rest_args_tail = node;
-          actual_args = actual_args->next;
-        }
-        SCM *rest_args = rest_args_dummy.next ? wrap(rest_args_dummy.next) : scm_nil();
-        scm_env_insert(macro_env, rest_param_sym, rest_args, /*search_parent=*/false);
-        if (debug_enabled) {
-          SCM_DEBUG_EVAL("bind macro rest arg ");
-          printf("%s to ", rest_param_sym->data);
-          print_ast(rest_args);
-          printf("\n");
-        }
-        break;
-      }
-      
-      if (!is_sym(current_param->data)) {
-        fprintf(stderr, "\nError binding macro parameter");
-        if (macro->name) {
-          fprintf(stderr, " in macro '%s'", macro->name->data);
-        }
-        fprintf(stderr, "\n  Expected a symbol, got: ");
-        print_ast(current_param->data);
-        fprintf(stderr, "\n  Parameter list: ");
-        print_ast(wrap(macro->transformer->args));
-        fprintf(stderr, "\n");
-        fflush(stderr);
-        eval_error("macro: malformed parameter in lambda list (expected symbol)");
-        return nullptr;
-      }
-      auto param_sym = cast<SCM_Symbol>(current_param->data);
-      // Pass the argument as-is (syntax object), not evaluated
-      scm_env_insert(macro_env, param_sym, actual_args->data, /*search_parent=*/false);
-      if (debug_enabled) {
-        SCM_DEBUG_EVAL("bind macro arg ");
-        printf("%s to ", param_sym->data);
-        print_ast(actual_args->data);
-        printf("\n");
-      }
-      actual_args = actual_args->next;
-      current_param = current_param->next;
-    }
-  }
-  
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (actual_args || current_param)) {
+  } else if (actual_args) {
     report_arg_mismatch(macro->transformer->args, args, "Macro", original_call, macro->name);
     return nullptr;
   }
-- 
2.43.0


From 5cd255970a4b3986ed9395140b2f072b2da6168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 59/78] fix: unquote-splicing in nested and improper templates

---
 src/c/quasiquote.cc | 39 +++++++--------------------------------
 1 file changed, 7 insertions(+), 32 deletions(-)

diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 243db69..13fc3a4 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -101,6 +101,9 @@ static SCM *append_two_lists(SCM *list1, SCM *list2) {
   // Copy all elements from list1
   SCM_List *current = l1;
   while (current) {
+    if (current->is_dotted) {
+      quasiquote_error("unquote-splicing requires a proper list");
+    }
     tail->next = make_list(current->data);
     tail = tail->next;
     
@@ -110,38 +113,10 @@ static SCM *append_two_lists(SCM *list1, SCM *list2) {
       // Reached the end of the list
       break;
     }
-    // Check if current node itself is a dotted pair (shouldn't happen in proper list)
-    if (current->is_dotted) {
-      // This shouldn't happen in a proper list, but handle it
-      break;
-    }
     // Continue to next element
     current = current->next;
   }
   
-  // Check if list1 ends with a dotted pair
-  // Note: We've already copied all elements from list1 above
-  // If list1 ends with a dotted pair, the last node's is_dotted flag would be set
-  // But for proper lists, this shouldn't happen
-  bool list1_is_dotted = false;
-  SCM *list1_cdr = nullptr;
-  if (l1) {
-    SCM_List *last = l1;
-    while (last->next) {
-      if (last->is_dotted) {
-        list1_is_dotted = true;
-        list1_cdr = last->data;
-        break;
-      }
-      last = last->next;
-    }
-    // Check the last node itself
-    if (!list1_is_dotted && last->is_dotted) {
-      list1_is_dotted = true;
-      list1_cdr = last->data;
-    }
-  }
-  
   // Append list2
   if (is_pair(list2)) {
     SCM_List *l2 = cast<SCM_List>(list2);
@@ -268,6 +243,9 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
             // Copy all elements from list
             SCM_List *current = l;
             while (current) {
+              if (current->is_dotted) {
+                quasiquote_error("unquote-splicing requires a proper list");
+              }
               tail->next = make_list(current->data);
               tail = tail->next;
               
@@ -275,9 +253,6 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
               if (!current->next) {
                 break;
               }
-              if (current->is_dotted) {
-                break;
-              }
               current = current->next;
             }
             
@@ -299,7 +274,7 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
         SCM *expanded_car = quasi(env, p_list->data, depth - 1);
         if (rest_is_dotted && rest_cdr_data) {
           SCM *expanded_cdr = quasi(env, rest_cdr_data, depth);
-          return scm_list2(expanded_car, expanded_cdr);
+          return scm_cons(expanded_car, expanded_cdr);
         } else {
           SCM *rest = get_list_rest(p);
           SCM *expanded_cdr = quasi(env, rest, depth);
-- 
2.43.0


From 535cf10ddb0004b04651c231f359f19528e8c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 60/78] fix: a module and its public interface share the
 exported variables

An exported variable was copied into the interface when exported: later
assignments were not seen by the users of the module, a symbol exported before
its definition never became visible, #:export (sym ...) was ignored, and using
an interface object used the whole module.
---
 src/c/define.cc     |   6 +--
 src/c/hash_table.cc |  17 +++++++
 src/c/macro.cc      |   4 +-
 src/c/module.cc     | 114 +++++++++++++++++++++++++++++---------------
 src/c/pscm.h        |   2 +
 5 files changed, 99 insertions(+), 44 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 9b9e963..d6b6334 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -25,7 +25,7 @@ static void define_procedure(SCM_Environment *env, SCM_Symbol *proc_name, SCM *v
   // If current module exists, define in module
   if (current_mod && is_module(current_mod)) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
-    scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
+    module_define(module, proc_name, val);
   } else {
     scm_env_insert(env, proc_name, val, /*search_parent=*/false);
   }
@@ -58,7 +58,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
       scm_env_insert(env, varname, val, /*search_parent=*/false);
     } else if (env->parent) {
       // This is a module environment (env->module from scm_resolve_module)
-      scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
+      module_define(env->module, varname, val);
       } else {
         // Top-level: check if symbol exists in global environment
         // If it exists, update it; otherwise define in module or environment
@@ -73,7 +73,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
           if (current_mod && is_module(current_mod)) {
             SCM_Module *module = cast<SCM_Module>(current_mod);
             // Create binding in module's obarray
-            scm_c_hash_set_eq(wrap(module->obarray), wrap(varname), val);
+            module_define(module, varname, val);
           } else {
             // Otherwise define in environment
             scm_env_insert(env, varname, val, /*search_parent=*/false);
diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 65a0fff..ba792a5 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -264,6 +264,23 @@ SCM *scm_c_hash_set(SCM *table, SCM *key, SCM *value,
   return value;
 }
 
+// Make table share the entry (key . value) of another table, in place of any
+// entry of its own for that key
+void scm_c_hash_share_entry_eq(SCM *table, SCM *entry) {
+  SCM *key = cast<SCM_List>(entry)->data;
+  size_t idx;
+  auto hash_table = validate_and_get_bucket_idx(table, key, scm_hash_code_eq, &idx, "hash-set!");
+  if (remove_entry_from_bucket(&hash_table->buckets[idx], key, scm_cmp_eq)) {
+    hash_table->size--;
+  }
+  auto entry_node = make_list(entry);
+  if (!is_nil(hash_table->buckets[idx])) {
+    entry_node->next = cast<SCM_List>(hash_table->buckets[idx]);
+  }
+  hash_table->buckets[idx] = wrap(entry_node);
+  hash_table->size++;
+}
+
 // hash-ref: Get value from hash table
 SCM *scm_c_hash_ref(SCM *table, SCM *key,
                     unsigned long (*hash_func)(SCM *),
diff --git a/src/c/macro.cc b/src/c/macro.cc
index bf83ac0..66ae033 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -133,7 +133,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
     SCM *current_mod = scm_current_module();
     if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
+      module_define(module, name, macro_scm);
     } else if (env->parent) {
       scm_env_insert(env, name, macro_scm);
     } else {
@@ -179,7 +179,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   SCM *current_mod = scm_current_module();
   if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
-    scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
+    module_define(module, name, macro_scm);
   } else if (env->parent) {
     scm_env_insert(env, name, macro_scm);
   } else {
diff --git a/src/c/module.cc b/src/c/module.cc
index b0a61cb..a6d855a 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -87,6 +87,15 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
+// The module another module sees when it uses module: its public interface if
+// it has one, which an interface is for itself
+static SCM_Module *module_interface(SCM_Module *module) {
+  if (module->kind && is_sym_val(wrap(module->kind), "interface")) {
+    return module;
+  }
+  return module->public_interface ? module->public_interface : module;
+}
+
 // Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -102,7 +111,7 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
   while (uses) {
     SCM *use_module_scm = uses->data;
     if (is_module(use_module_scm)) {
-      SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
+      SCM_Module *use_module = module_interface(cast<SCM_Module>(use_module_scm));
       var = module_obarray_lookup(use_module, sym);
       if (var) {
         return var;  // Found (value can be #f)
@@ -167,7 +176,7 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
             if (mod_scm && is_module(mod_scm)) {
               // Add loaded module to current module's uses
               SCM_Module *loaded = cast<SCM_Module>(mod_scm);
-              SCM_Module *interface = loaded->public_interface ? loaded->public_interface : loaded;
+              SCM_Module *interface = module_interface(loaded);
               SCM_List *new_use = make_list(wrap(interface));
               new_use->next = module->uses;
               module->uses = new_use;
@@ -203,7 +212,7 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
   while (uses) {
     SCM *use_module_scm = uses->data;
     if (is_module(use_module_scm)) {
-      SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
+      SCM_Module *use_module = module_interface(cast<SCM_Module>(use_module_scm));
       if (module_obarray_lookup(use_module, sym)) {
         return use_module;  // Found in use module
       }
@@ -448,6 +457,43 @@ SCM *scm_resolve_module(SCM_List *name) {
   return module;
 }
 
+// The (symbol . value) entry of a variable of module, its own or that of a
+// module it uses
+static SCM *module_variable_entry(SCM_Module *module, SCM_Symbol *sym) {
+  SCM *entry = scm_c_hash_get_handle_eq(wrap(module->obarray), wrap(sym));
+  for (auto uses = module->uses; uses && !is_pair(entry); uses = uses->next) {
+    if (is_module(uses->data)) {
+      auto use_module = module_interface(cast<SCM_Module>(uses->data));
+      entry = scm_c_hash_get_handle_eq(wrap(use_module->obarray), wrap(sym));
+    }
+  }
+  return entry;
+}
+
+// Let the public interface share an exported variable with its module
+static void interface_share_variable(SCM_Module *iface, SCM_Module *module, SCM_Symbol *sym) {
+  SCM *entry = module_variable_entry(module, sym);
+  if (is_pair(entry)) {
+    scm_c_hash_share_entry_eq(wrap(iface->obarray), entry);
+  }
+}
+
+// Bind sym to val in module; the binding of an exported symbol is part of the
+// public interface
+void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val) {
+  bool bound = module_obarray_lookup(module, sym) != nullptr;
+  scm_c_hash_set_eq(wrap(module->obarray), wrap(sym), val);
+  if (bound || !module->public_interface) {
+    return;
+  }
+  for (auto exp = module->exports; exp; exp = exp->next) {
+    if (is_true(scm_c_is_eq(exp->data, wrap(sym)))) {
+      interface_share_variable(module->public_interface, module, sym);
+      return;
+    }
+  }
+}
+
 // Ensure module has a public interface module, creating one if needed.
 // The public interface is a separate module whose obarray contains
 // only exported bindings.  Returns the interface module.
@@ -467,11 +513,7 @@ static SCM_Module *scm_ensure_public_interface(SCM_Module *module) {
   SCM_List *exp = module->exports;
   while (exp) {
     if (exp->data && is_sym(exp->data)) {
-      SCM_Symbol *sym = cast<SCM_Symbol>(exp->data);
-      SCM *val = module_obarray_lookup(module, sym);
-      if (val) {
-        scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
-      }
+      interface_share_variable(iface, module, cast<SCM_Symbol>(exp->data));
     }
     exp = exp->next;
   }
@@ -490,13 +532,9 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym) {
 
   // Update public interface
   SCM_Module *iface = scm_ensure_public_interface(module);
-  // Use module_search_variable instead of module_obarray_lookup so that
-  // re-export after use-modules works: the symbol may live in a used
-  // module's obarray, not the current module's own obarray.
-  SCM *val = module_search_variable(module, sym);
-  if (val) {
-    scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
-  }
+  // The symbol may also be a variable of a used module (re-export). One that
+  // is not bound yet joins the interface when it is defined
+  interface_share_variable(iface, module, sym);
 }
 
 // Update module's public interface
@@ -524,7 +562,7 @@ SCM *scm_c_define(const char *name, SCM *val) {
   SCM *module = scm_current_module();
   SCM_Module *mod = cast<SCM_Module>(module);
 
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(sym), val);
+  module_define(mod, sym, val);
 
   return scm_make_variable(val);
 }
@@ -605,7 +643,7 @@ SCM *scm_c_module_define(SCM *module, const char *name, SCM *val) {
   }
   SCM_Symbol *sym = make_sym(name);
   SCM_Module *mod = cast<SCM_Module>(module);
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(sym), val);
+  module_define(mod, sym, val);
   return scm_make_variable(val);
 }
 
@@ -639,7 +677,7 @@ SCM *scm_module_define(SCM *module, SCM *sym, SCM *val) {
   }
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *s = cast<SCM_Symbol>(sym);
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(s), val);
+  module_define(mod, s, val);
   return scm_make_variable(val);
 }
 
@@ -678,12 +716,7 @@ SCM *scm_c_module_ref(SCM_List *args) {
   // Special handling for %module-public-interface
   if (strcmp(sym->data, "%module-public-interface") == 0) {
     // Return the public interface module, or the module itself if no public interface exists
-    if (mod->public_interface) {
-      return wrap(mod->public_interface);
-    } else {
-      // If no public interface, return the module itself (Guile behavior)
-      return module;
-    }
+    return wrap(module_interface(mod));
   }
   
   // Search module (obarray, uses list, and root module)
@@ -778,7 +811,7 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
           SCM *resolved = scm_resolve_module(cast<SCM_List>(mod_name));
           if (resolved && is_module(resolved)) {
             SCM_Module *use_mod = cast<SCM_Module>(resolved);
-            SCM_Module *iface = use_mod->public_interface ? use_mod->public_interface : use_mod;
+            SCM_Module *iface = module_interface(use_mod);
             SCM_List *node = make_list(wrap(iface));
             node->next = cast<SCM_Module>(module_scm)->uses;
             cast<SCM_Module>(module_scm)->uses = node;
@@ -789,6 +822,16 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
       else if (strcmp(kw_name, "export") == 0) {
         // #:export sym ...
         opts = opts->next;
+        if (opts && is_pair(opts->data)) {
+          // The symbols are given as a list: #:export (sym ...)
+          for (auto syms = cast<SCM_List>(opts->data); syms; syms = syms->next) {
+            if (syms->data && is_sym(syms->data)) {
+              scm_module_export(cast<SCM_Module>(module_scm), cast<SCM_Symbol>(syms->data));
+            }
+          }
+          opts = opts->next;
+          continue;
+        }
         while (opts && opts->data && is_sym(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
@@ -807,7 +850,11 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
         if (is_pair(mod_name_spec)) {
           SCM_List *mod_name = cast<SCM_List>(mod_name_spec);
           // Collect symbols from opts->next->next onward
+          // or from the list given there
           SCM_List *sym_tail = opts->next->next;
+          if (sym_tail && is_pair(sym_tail->data)) {
+            sym_tail = cast<SCM_List>(sym_tail->data);
+          }
           // Build symbol list: (sym1 sym2 ...)
           SCM_List sym_list_dummy = make_list_dummy();
           SCM_List *sym_list_tail = &sym_list_dummy;
@@ -863,11 +910,7 @@ SCM *eval_use_modules(SCM_Environment *env, SCM_List *l) {
       SCM_Module *module = cast<SCM_Module>(module_scm);
       
       // Get module's public interface
-      SCM_Module *interface = module->public_interface;
-      if (!interface) {
-        // If no public interface, use module itself
-        interface = module;
-      }
+      SCM_Module *interface = module_interface(module);
       
       // Add to uses list
       SCM_List *new_use = make_list(wrap(interface));
@@ -1086,11 +1129,7 @@ SCM *scm_c_module_use(SCM_List *args) {
   SCM_Module *use_mod = cast<SCM_Module>(use_module);
   
   // Get module's public interface
-  SCM_Module *interface = use_mod->public_interface;
-  if (!interface) {
-    // If no public interface, use module itself
-    interface = use_mod;
-  }
+  SCM_Module *interface = module_interface(use_mod);
   
   // Add to uses list
   SCM_List *new_use = make_list(wrap(interface));
@@ -1174,10 +1213,7 @@ void scm_c_use_module(const char *name) {
 
   // Resolve through public_interface (like eval_use_modules and scm_c_module_use do)
   SCM_Module *use_mod = cast<SCM_Module>(module);
-  SCM_Module *interface = use_mod->public_interface;
-  if (!interface) {
-    interface = use_mod;
-  }
+  SCM_Module *interface = module_interface(use_mod);
 
   // Add to uses list (prepend)
   SCM_List *node = make_list(wrap(interface));
diff --git a/src/c/pscm.h b/src/c/pscm.h
index d88bed2..fde1d47 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1007,6 +1007,7 @@ SCM *scm_c_make_hash_table(SCM *size_arg);
 SCM *scm_c_hash_set_eq(SCM *table, SCM *key, SCM *value);
 SCM *scm_c_hash_set_eqv(SCM *table, SCM *key, SCM *value);
 SCM *scm_c_hash_set_equal(SCM *table, SCM *key, SCM *value);
+void scm_c_hash_share_entry_eq(SCM *table, SCM *entry);
 SCM *scm_c_hash_ref_eq(SCM *table, SCM *key);
 SCM *scm_c_hash_ref_eqv(SCM *table, SCM *key);
 SCM *scm_c_hash_ref_equal(SCM *table, SCM *key);
@@ -1026,6 +1027,7 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 
 // Module helper functions (for internal use, but may be used by other modules)
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
+void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
 SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym);
 
-- 
2.43.0


From 0ed9b8b66d20760aa751bcdd967ea2f9bfe4047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 61/78] fix: module-bound? is true of variables whose value is
 #f

---
 src/c/module.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index a6d855a..40b31a7 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -744,9 +744,8 @@ SCM *scm_c_module_bound_p(SCM *module, SCM *symbol) {
   
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *sym = cast<SCM_Symbol>(symbol);
-  SCM *var = scm_module_variable(mod, sym, false);
-  
-  return var && !is_falsy(var) ? scm_bool_true() : scm_bool_false();
+  // The value may be #f
+  return module_search_variable(mod, sym) ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_module_p(SCM *obj) {
-- 
2.43.0


From b8bb669307ae5777171274dbfb747204a8ae70fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:38 +0000
Subject: [PATCH 62/78] fix: use-modules does not write to the standard output

---
 src/c/module.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 40b31a7..9aa2d66 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -905,7 +905,6 @@ SCM *eval_use_modules(SCM_Environment *env, SCM_List *l) {
     if (is_pair(spec_scm)) {
       SCM_List *name = cast<SCM_List>(spec_scm);
       SCM *module_scm = scm_resolve_module(name);
-      print_list(name); printf("\n");
       SCM_Module *module = cast<SCM_Module>(module_scm);
       
       // Get module's public interface
-- 
2.43.0


From fa0eb76e427f497b5e456e7bf9715d1ff4a80833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 63/78] fix: code belongs to the module it is written in

Top-level code of a module defined by define-module in a script, and the
procedures made by it, looked up free variables in whatever module was current
when they ran; definitions in a module did not shadow builtins or changed them
for all modules; set! and macro uses ignored the module of the code.
---
 src/c/define.cc      |  54 ++++-----------------
 src/c/environment.cc | 111 ++++++++++++++++++++++++-------------------
 src/c/eval.cc        |  92 +++++++++++------------------------
 src/c/macro.cc       |   6 +--
 src/c/module.cc      |  32 ++++++++++---
 src/c/pscm.h         |  12 +++++
 src/c/variable.cc    |   4 +-
 7 files changed, 141 insertions(+), 170 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index d6b6334..77299c0 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,22 +1,15 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Whether env is the frame of a lambda body, rather than the global environment
-// or the environment of a module (the frames below a module environment inherit
-// its module)
-static bool is_lambda_frame(SCM_Environment *env) {
-  return env->parent && env->module == env->parent->module;
-}
-
-// Bind the name of a (define (name args...) body...) form
-static void define_procedure(SCM_Environment *env, SCM_Symbol *proc_name, SCM *val) {
+// Bind the name of a definition
+static void define_variable(SCM_Environment *env, SCM_Symbol *name, SCM *val) {
   if (is_lambda_frame(env)) {
     // An internal definition is local to the body it appears in
-    scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+    scm_env_insert(env, name, val, /*search_parent=*/false);
     return;
   }
   SCM *current_mod = scm_current_module();
-  auto global_entry = scm_env_search_entry(&g_env, proc_name, /*search_parent=*/false);
+  auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
   if (global_entry && (!current_mod || current_mod == g_root_module)) {
     // The global environment is searched before the root module: update it
     global_entry->value = val;
@@ -25,9 +18,9 @@ static void define_procedure(SCM_Environment *env, SCM_Symbol *proc_name, SCM *v
   // If current module exists, define in module
   if (current_mod && is_module(current_mod)) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
-    module_define(module, proc_name, val);
+    module_define(module, name, val);
   } else {
-    scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+    scm_env_insert(env, name, val, /*search_parent=*/false);
   }
 }
 
@@ -50,36 +43,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If we're in a nested environment (lambda/let), define in environment
-    // Otherwise, if current module exists, define in module
-    // This ensures define creates local bindings in let/lambda contexts
-    if (is_lambda_frame(env)) {
-      // We're in a nested environment (lambda/let), create local binding
-      scm_env_insert(env, varname, val, /*search_parent=*/false);
-    } else if (env->parent) {
-      // This is a module environment (env->module from scm_resolve_module)
-      module_define(env->module, varname, val);
-      } else {
-        // Top-level: check if symbol exists in global environment
-        // If it exists, update it; otherwise define in module or environment
-        auto global_entry = scm_env_search_entry(&g_env, varname, /*search_parent=*/false);
-        if (global_entry) {
-          // Symbol exists in global environment, update it
-          global_entry->value = val;
-        } else {
-          // Symbol doesn't exist in global environment
-          // Check if current module exists, define in module
-          SCM *current_mod = scm_current_module();
-          if (current_mod && is_module(current_mod)) {
-            SCM_Module *module = cast<SCM_Module>(current_mod);
-            // Create binding in module's obarray
-            module_define(module, varname, val);
-          } else {
-            // Otherwise define in environment
-            scm_env_insert(env, varname, val, /*search_parent=*/false);
-          }
-        }
-      }
+    define_variable(env, varname, val);
     return scm_none();
   }
   // Define procedure: (define (name args...) body...)
@@ -147,7 +111,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    define_procedure(env, proc_name, ret);
+    define_variable(env, proc_name, ret);
     return ret;
   }
   
@@ -178,7 +142,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    define_procedure(env, proc_name, val);
+    define_variable(env, proc_name, val);
     return scm_none();
   } else {
     // Should not happen, but handle it
diff --git a/src/c/environment.cc b/src/c/environment.cc
index 98ccd7b..04fb08f 100644
--- a/src/c/environment.cc
+++ b/src/c/environment.cc
@@ -54,63 +54,76 @@ SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym) {
   return nullptr;
 }
 
+// The environment for top-level code: that of the current module, or the global
+// environment for the root module
+SCM_Environment *scm_top_level_env() {
+  SCM *current = scm_current_module();
+  if (current == g_root_module || !is_module(current)) {
+    return &g_env;
+  }
+  return make_module_environment(cast<SCM_Module>(current), &g_env);
+}
+
+// The binding of sym in the lambda frames around env, not counting the global
+// environment and the environments of modules
+SCM_Environment::Entry *scm_env_lexical_entry(SCM_Environment *env, SCM_Symbol *sym) {
+  for (auto e = env; is_lambda_frame(e); e = e->parent) {
+    auto entry = scm_env_search_entry(e, sym, /*search_parent=*/false);
+    if (entry) {
+      return entry;
+    }
+  }
+  return nullptr;
+}
+
+// The top-level value of sym for the code in env: that of the module the code
+// belongs to, otherwise the global one
+SCM *scm_env_top_level_value(SCM_Environment *env, SCM_Symbol *sym) {
+  SCM *value = nullptr;
+  if (env->module) {
+    value = module_visible_lookup(env->module, sym);
+  }
+  if (!value) {
+    value = scm_env_exist(&g_env, sym);
+  }
+  if (!value && !env->module && g_root_module) {
+    value = module_visible_lookup(cast<SCM_Module>(g_root_module), sym);
+  }
+  return value;
+}
+
 SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
-  // 1. First search in lexical environment (local bindings, no parent search)
-  // This ensures local bindings in let/lambda take precedence
-  auto ret = scm_env_exist(env, sym);
-  if (ret) {
-    return ret;
-  }
-  
-  // 2. Search in parent environments (let/lambda bindings)
-  // This must come before module search to ensure lexical scoping works correctly
-  // Parent environments (from let/lambda) should take precedence over module bindings
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
+  // 1. The lambda frames around the expression: lexical scope comes first
+  auto entry = scm_env_lexical_entry(env, sym);
   if (entry) {
-    return entry->value;  // Value can be null (e.g., for #f)
+    return entry->value;
   }
 
-  // 2.5. Search the module baked into the environment chain (if any).
-  // This finds module-private variables (e.g. cur-props in tm-define.scm)
-  // during evaluation of code loaded inside that module.  The module is
-  // set by make_module_environment when the module's file is loaded.
-  // We walk the parent chain to find the first non-null module pointer;
-  // child environments inherit it from make_module_environment via make_env.
-  {
-    SCM_Environment *e = env;
-    while (e) {
-      if (e->module) {
-        SCM *var = module_search_variable(e->module, sym);
-        if (var) {
-          return var;
-        }
-        break;  // found a module but symbol wasn't in it; don't check again
-      }
-      e = e->parent;
-    }
+  // 2. The module the expression belongs to, whatever module is current now,
+  // then the global environment
+  SCM *value = scm_env_top_level_value(env, sym);
+  if (value) {
+    return value;
   }
 
-  // 3. If current module exists, search in module (module bindings override global)
-  // This is important: when define is used in a module, it should shadow global bindings
-  // But module bindings come after lexical bindings (let/lambda)
-  SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod)) {
-    SCM_Module *module = cast<SCM_Module>(current_mod);
-    SCM *var = module_search_variable(module, sym);
-    if (var) {
-      return var;  // Found (value can be #f)
+  // 3. The other ways a module provides variables: root module, binder, autoload
+  SCM_Module *home = env->module;
+  if (!home && g_root_module) {
+    home = cast<SCM_Module>(g_root_module);
+  }
+  if (home) {
+    value = module_search_variable(home, sym);
+    if (value) {
+      return value;
     }
   }
-  
-  // 4. Finally, search in global environment (g_env) if we haven't found it yet
-  // This ensures built-in functions registered via scm_define_function are accessible
-  // This is needed because when env != &g_env, we need to check g_env for built-ins
-  // When env == &g_env, we've already searched it in step 1 and 2, so this is a fallback
-  // for cases where the symbol might be in g_env but not found in the current search path
-  if (env != &g_env) {
-    auto global_entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
-    if (global_entry) {
-      return global_entry->value;  // Value can be null (e.g., for #f)
+
+  // 4. The current module
+  SCM *current_mod = scm_current_module();
+  if (current_mod && is_module(current_mod) && cast<SCM_Module>(current_mod) != home) {
+    value = module_search_variable(cast<SCM_Module>(current_mod), sym);
+    if (value) {
+      return value;
     }
   }
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 50db977..645e658 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -87,33 +87,26 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     return nullptr;
   }
   
-  // First try to update in current environment (no parent search)
-  // This ensures set! updates the binding in the current lexical scope
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/false);
+  // First try to update the binding in the lexical scope
+  auto entry = scm_env_lexical_entry(env, sym);
   if (entry) {
     entry->value = val;
+  } else if (env->module && module_visible_lookup(env->module, sym)) {
+    // A variable of the module this code belongs to
+    module_assign(env->module, sym, val);
+  } else if ((entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false))) {
+    entry->value = val;
   } else {
-    // Not found in current environment, search in parent environments
-    // This handles cases where set! is used to update a binding in a parent scope
-    entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
-    if (entry) {
-      entry->value = val;
-    } else {
-      // Not found in environment, check if it's in the current module
-      SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM_Module *var_module = module_find_variable_module(module, sym);
-        if (var_module) {
-          // Variable exists in a module, update it
-          scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
-        } else {
-          // Variable not found in any module, create new binding in environment
-          scm_env_insert(env, sym, val, /*search_parent=*/false);
-        }
-      } else {
-        // No module, create new binding in environment
+    // A variable of the root module or of the current module
+    SCM *root = g_root_module;
+    SCM *current = scm_current_module();
+    if (!(root && module_assign(cast<SCM_Module>(root), sym, val)) &&
+        !(is_module(current) && module_assign(cast<SCM_Module>(current), sym, val))) {
+      // Variable not found in any module, create new binding
+      if (is_lambda_frame(env) || !env->module) {
         scm_env_insert(env, sym, val, /*search_parent=*/false);
+      } else {
+        module_define(env->module, sym, val);
       }
     }
   }
@@ -262,18 +255,6 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
 }
 
 
-// The binding of sym in the lambda frames around env, not counting the global
-// environment and the environments of modules
-static SCM_Environment::Entry *lexical_entry(SCM_Environment *env, SCM_Symbol *sym) {
-  for (auto e = env; e->parent && e->module == e->parent->module; e = e->parent) {
-    auto entry = scm_env_search_entry(e, sym, /*search_parent=*/false);
-    if (entry) {
-      return entry;
-    }
-  }
-  return nullptr;
-}
-
 // Whether sym is a keyword the expansions of other special forms rely on
 static bool is_core_keyword(SCM *sym) {
   return is_sym_val(sym, "quote") || is_sym_val(sym, "lambda") || is_sym_val(sym, "set!") ||
@@ -284,6 +265,11 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
 
+  // Top-level code belongs to the current module
+  if (env == &g_env) {
+    env = scm_top_level_env();
+  }
+
   // Push onto evaluation stack for call trace
   push_eval_stack(ast);
 
@@ -324,38 +310,16 @@ entry:
 
     // Check if this is a macro call (before checking special forms)
     // A local binding takes precedence over macros and special forms of that name
-    auto lexical = is_core_keyword(l->data) ? nullptr : lexical_entry(env, sym);
-    SCM *val = lexical ? lexical->value : scm_env_exist(env, sym);
+    auto lexical = is_core_keyword(l->data) ? nullptr : scm_env_lexical_entry(env, sym);
+    SCM *val = lexical ? lexical->value : scm_env_top_level_value(env, sym);
     if (!val) {
-      // Search module obarray + use chain for macros imported via use-modules.
-      // Only when we're in a non-root module (root has everything in g_env already).
+      // A macro of the current module
       SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM *var = module_obarray_lookup(module, sym);
-        if (!var) {
-          // Search uses list
-          SCM_List *uses = module->uses;
-          while (uses && !var) {
-            SCM *use_mod = uses->data;
-            if (is_module(use_mod))
-              var = module_obarray_lookup(cast<SCM_Module>(use_mod), sym);
-            uses = uses->next;
-          }
+      if (current_mod && is_module(current_mod)) {
+        SCM *var = module_visible_lookup(cast<SCM_Module>(current_mod), sym);
+        if (var && is_macro(var)) {
+          val = var;
         }
-        val = var;
-      }
-    }
-    // Fallback: search global environment for macros defined at top
-    // level (e.g., texmacs-module in boot.scm). These go into g_env
-    // but are not in any module obarray. Only check for macros here —
-    // non-macro symbols are resolved via lookup_symbol (parent chain
-    // search) in the else branch below; pulling them from g_env here
-    // would shadow local lambda bindings (e.g., exit in cont tests).
-    if (!val) {
-      SCM *g_val = scm_env_exist(&g_env, sym);
-      if (g_val && is_macro(g_val)) {
-        val = g_val;
       }
     }
     if (val && is_macro(val)) {
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 66ae033..6072211 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -131,7 +131,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
     // a parent chain, so env->parent alone doesn't distinguish module
     // scope from lambda scope).
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+    if (!is_lambda_frame(env) && current_mod && is_module(current_mod) && current_mod != g_root_module) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       module_define(module, name, macro_scm);
     } else if (env->parent) {
@@ -177,7 +177,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
 
   // Module-aware insertion: check module first
   SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+  if (!is_lambda_frame(env) && current_mod && is_module(current_mod) && current_mod != g_root_module) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
     module_define(module, name, macro_scm);
   } else if (env->parent) {
@@ -218,7 +218,7 @@ SCM *scm_c_macroexpand_1(SCM *expr) {
     
     // Search for macro in current environment
     // Use scm_env_search to search in lexical environment, modules, and global
-    SCM *val = scm_env_search(&g_env, sym);
+    SCM *val = scm_env_search(scm_top_level_env(), sym);
     
     if (val && is_macro(val)) {
       // Found a macro, expand it once
diff --git a/src/c/module.cc b/src/c/module.cc
index 9aa2d66..24dc35a 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -96,17 +96,13 @@ static SCM_Module *module_interface(SCM_Module *module) {
   return module->public_interface ? module->public_interface : module;
 }
 
-// Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
-// Returns the value if found (can be #f), or nullptr if not found
-// This allows us to distinguish between "not found" and "value is #f"
-SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
-  // 1. Check module obarray
+// Helper function to lookup variable in module's obarray and uses list
+SCM *module_visible_lookup(SCM_Module *module, SCM_Symbol *sym) {
   SCM *var = module_obarray_lookup(module, sym);
   if (var) {
     return var;  // Found (value can be #f)
   }
-
-  // 2. Search uses list
+  // Search uses list
   SCM_List *uses = module->uses;
   while (uses) {
     SCM *use_module_scm = uses->data;
@@ -119,6 +115,18 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
     }
     uses = uses->next;
   }
+  return nullptr;  // Not found
+}
+
+// Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
+// Returns the value if found (can be #f), or nullptr if not found
+// This allows us to distinguish between "not found" and "value is #f"
+SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
+  // 1. Check module obarray, 2. search uses list
+  SCM *var = module_visible_lookup(module, sym);
+  if (var) {
+    return var;  // Found (value can be #f)
+  }
 
   // 3. If not found, also search root module (pscm-user) for global variables like %load-path
   if (g_root_module && module != cast<SCM_Module>(g_root_module)) {
@@ -231,6 +239,16 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
+// Assign val to the variable sym of module, if there is one
+bool module_assign(SCM_Module *module, SCM_Symbol *sym, SCM *val) {
+  SCM_Module *var_module = module_find_variable_module(module, sym);
+  if (!var_module) {
+    return false;
+  }
+  scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
+  return true;
+}
+
 // Look up variable in module
 SCM *scm_module_variable(SCM_Module *module, SCM_Symbol *sym, bool definep) {
   // Delegate to module_search_variable which handles obarray, uses, root, binder, and autoload
diff --git a/src/c/pscm.h b/src/c/pscm.h
index fde1d47..0b603b8 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -206,6 +206,13 @@ inline SCM_Environment *make_env(SCM_Environment *parent) {
   return env;
 }
 
+// Whether env is the frame of a lambda body, rather than the global environment
+// or the environment of a module (the frames below a module environment inherit
+// its module)
+inline bool is_lambda_frame(SCM_Environment *env) {
+  return env->parent && env->module == env->parent->module;
+}
+
 inline SCM_Environment *make_module_environment(SCM_Module *mod, SCM_Environment *parent) {
   auto env = make_env(parent);
   env->module = mod;
@@ -754,6 +761,9 @@ SCM *expand_letrec(SCM *expr);
 void scm_env_insert(SCM_Environment *env, SCM_Symbol *sym, SCM *value, bool search_parent = true);
 SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym);
 SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym);
+SCM_Environment *scm_top_level_env();
+SCM_Environment::Entry *scm_env_lexical_entry(SCM_Environment *env, SCM_Symbol *sym);
+SCM *scm_env_top_level_value(SCM_Environment *env, SCM_Symbol *sym);
 SCM_Environment::Entry *scm_env_search_entry(SCM_Environment *env, SCM_Symbol *sym, bool search_parent = true);
 
 /*
@@ -1028,8 +1038,10 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 // Module helper functions (for internal use, but may be used by other modules)
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
 void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val);
+SCM *module_visible_lookup(SCM_Module *module, SCM_Symbol *sym);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
 SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym);
+bool module_assign(SCM_Module *module, SCM_Symbol *sym, SCM *val);
 
 template <typename F>
 SCM_Function *_create_func(const char *name, F func_ptr) {
diff --git a/src/c/variable.cc b/src/c/variable.cc
index c680e01..e698538 100644
--- a/src/c/variable.cc
+++ b/src/c/variable.cc
@@ -60,7 +60,7 @@ SCM *scm_c_lookup(const char *name) {
   SCM_Symbol *sym = make_sym(name);
   
   // Look up in current environment/module
-  SCM *value = scm_env_search(&g_env, sym);
+  SCM *value = scm_env_search(scm_top_level_env(), sym);
   
   if (!value) {
     // Not found - throw error (like Guile)
@@ -80,7 +80,7 @@ SCM *scm_lookup(SCM *sym) {
   SCM_Symbol *sym_obj = cast<SCM_Symbol>(sym);
   
   // Look up in current environment/module
-  SCM *value = scm_env_search(&g_env, sym_obj);
+  SCM *value = scm_env_search(scm_top_level_env(), sym_obj);
   
   if (!value) {
     eval_error("scm_lookup: unbound variable: %s", sym_obj->data);
-- 
2.43.0


From 5f5ce5f438395b14710da23376957cf67bf84b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:56 +0000
Subject: [PATCH 64/78] fix: the current module is restored when loading or
 calling into a module fails

---
 src/c/module.cc | 86 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 23 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 24dc35a..8a950c2 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 
 // Current module (using simple global variable, can be changed to fluid in the future)
 static SCM *g_current_module = nullptr;
@@ -63,6 +64,25 @@ SCM *scm_set_current_module(SCM *module) {
   return old;
 }
 
+// Throw again, from a catch around a call, what it caught
+static SCM *rethrow(void *data, SCM *tag, SCM *args) {
+  *(bool *)data = true;
+  return scm_list2(tag, args);
+}
+
+// Call func with module as the current module, which is restored in any case
+static SCM *with_current_module(SCM *module, scm_t_catch_body func, void *data) {
+  SCM *old = scm_set_current_module(module);
+  bool thrown = false;
+  SCM *result = scm_c_catch(scm_bool_true(), func, data, rethrow, &thrown);
+  scm_set_current_module(old);
+  if (thrown) {
+    auto caught = cast<SCM_List>(result);
+    scm_throw(caught->data, caught->next->data);
+  }
+  return result;
+}
+
 // Helper function to lookup variable in module's obarray
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -144,8 +164,23 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
     // Arguments are already evaluated values, not AST nodes
     // Use apply_procedure_with_values to pass them directly without re-evaluation
     SCM *args = scm_list3(wrap(module), wrap(sym), scm_bool_true());
-    SCM *result = apply_procedure_with_values(&g_env, module->binder, cast<SCM_List>(args));
+    struct {
+      SCM_Procedure *binder;
+      SCM_List *args;
+    } call = {module->binder, cast<SCM_List>(args)};
+    bool thrown = false;
+    SCM *result = scm_c_catch(
+        scm_bool_true(),
+        [](void *data) -> SCM * {
+          auto c = (decltype(call) *)data;
+          return apply_procedure_with_values(&g_env, c->binder, c->args);
+        },
+        &call, rethrow, &thrown);
     g_in_binder_call = false;
+    if (thrown) {
+      auto caught = cast<SCM_List>(result);
+      scm_throw(caught->data, caught->next->data);
+    }
     if (result && !is_falsy(result)) {
       // Binder returns a variable object, unwrap it to get the value
       if (is_variable(result)) {
@@ -427,24 +462,26 @@ SCM *scm_resolve_module(SCM_List *name) {
   // infinite loops with circular module dependencies (e.g. logic-bind ↔ logic-unify).
   // Guile 1.8 uses the same idempotent approach.
   if (found_path && !module_exists) {
-    // Save current module
-    SCM *old_module = scm_current_module();
-
     // Create a module-aware environment so procedures defined in this
     // file (including macro transformers) capture the module's obarray
     // in their environment chain via proc->env.
     SCM_Module *mod = cast<SCM_Module>(module);
     SCM_Environment *module_env = make_module_environment(mod, &g_env);
 
-    // Set current module for define forms (they check scm_current_module
-    // to decide where to insert bindings).
-    scm_set_current_module(module);
-
-    // Load and evaluate file in module-aware environment
-    scm_c_primitive_load_with_env(found_path, module_env);
-
-    // Restore current module
-    scm_set_current_module(old_module);
+    // Load and evaluate file in module-aware environment, with the module
+    // current for define forms (they check scm_current_module to decide where
+    // to insert bindings).
+    struct {
+      const char *path;
+      SCM_Environment *env;
+    } load = {found_path, module_env};
+    with_current_module(
+        module,
+        [](void *data) -> SCM * {
+          auto l = (decltype(load) *)data;
+          return scm_c_primitive_load_with_env(l->path, l->env);
+        },
+        &load);
 
     if (full_path) {
       free(full_path);
@@ -1164,12 +1201,7 @@ SCM *scm_c_call_with_current_module(SCM *module,
     eval_error("scm_c_call_with_current_module: expected module");
     return nullptr;
   }
-  SCM *old = scm_set_current_module(module);
-
-  SCM *result = func(data);
-
-  scm_set_current_module(old);
-  return result;
+  return with_current_module(module, func, data);
 }
 
 // Create (or resolve) a module and optionally run an init function (Guile 1.8 compatible).
@@ -1189,10 +1221,18 @@ SCM *scm_c_define_module(const char *name,
   }
 
   if (init) {
-    SCM *old = scm_current_module();
-    g_current_module = module;
-    init(data);
-    g_current_module = old;
+    struct {
+      void (*init)(void *);
+      void *data;
+    } call = {init, data};
+    with_current_module(
+        module,
+        [](void *data) -> SCM * {
+          auto c = (decltype(call) *)data;
+          c->init(c->data);
+          return scm_none();
+        },
+        &call);
   }
 
   return module;
-- 
2.43.0


From 1a7bf542f08024f419a1b6eac2e0a6cb9db5dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 65/78] fix: errors in a script are reported on the standard
 error

---
 src/main.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index 44664e0..c695e08 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -17,6 +17,13 @@ void my_eval(SCM *ast) {
   auto val = eval(ast);
   SCM_DEBUG_EVAL(" --> ");
   SCM_PRINT_AST(val);
+  if (!val) {
+    // The error was caught at the API boundary: report it and go on
+    const char *key = pscm_get_last_error_key();
+    const char *message = pscm_get_last_error_message();
+    fprintf(stderr, "ERROR: %s\n", message ? message : key ? key : "unknown error");
+    return;
+  }
   if (!is_none(val)) {
     // In test mode, use write format (with quotes for strings)
     // This matches the expected output format in tests
-- 
2.43.0


From 84e9779582be728d77d3c7bfb9dd1aeb3df06cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 66/78] fix: the REPL survives comments and malformed input and
 evaluates all of its input

---
 src/c/repl.cc | 83 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 50ea3cd..b0116c0 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -2,7 +2,9 @@
 #include <stdlib.h>
 #include <string.h>
 
-#include "pscm.h"
+#include "pscm_api.h"
+#include "error.h"
+#include "throw.h"
 
 // Check if parentheses are balanced in the input string
 static bool is_balanced(const char *s) {
@@ -17,11 +19,6 @@ static bool is_balanced(const char *s) {
       continue;
     }
     
-    if (*p == '\\') {
-      escaped = true;
-      continue;
-    }
-    
     if (in_comment) {
       if (*p == '\n') {
         in_comment = false;
@@ -29,6 +26,11 @@ static bool is_balanced(const char *s) {
       continue;
     }
     
+    if (*p == '\\') {
+      escaped = true;
+      continue;
+    }
+    
     if (*p == '"') {
       in_string = !in_string;
       continue;
@@ -48,14 +50,54 @@ static bool is_balanced(const char *s) {
     } else if (*p == ')') {
       depth--;
       if (depth < 0) {
-        return false;  // Unmatched closing parenthesis
+        return true;  // Unmatched closing parenthesis: more input cannot help
       }
     }
   }
   
-  return depth == 0;
+  return depth == 0 && !in_string;
 }
 
+// Report the error that ended an evaluation
+static void report_error() {
+  const char *key = pscm_get_last_error_key();
+  const char *message = pscm_get_last_error_message();
+  fprintf(stderr, "ERROR: %s\n", message ? message : key ? key : "unknown error");
+}
+
+// Parse and evaluate the expressions of the input
+static void eval_input(const char *input) {
+  struct {
+    const char *input;
+    SCM_List *exprs;
+    bool parsed;
+  } request = {input, nullptr, false};
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        auto r = (decltype(request) *)data;
+        r->exprs = parse_string(r->input);
+        r->parsed = true;
+        return nullptr;
+      },
+      &request, scm_api_catch_handler, nullptr);
+  if (!request.parsed) {
+    report_error();
+    return;
+  }
+  for (auto expr = request.exprs; expr; expr = expr->next) {
+    print_ast(expr->data);
+    printf("\n");
+    auto val = eval(expr->data);
+    if (!val) {
+      report_error();
+      continue;
+    }
+    printf(" --> ");
+    print_ast(val);
+    printf("\n");
+  }
+}
 
 void repl() {
   char line_buffer[4096];  // Buffer for each line
@@ -76,16 +118,9 @@ void repl() {
     }
     
     if (fgets(line_buffer, sizeof(line_buffer), stdin) != NULL) {
-      // Check if input line is too long
+      // The buffer may hold a part of a line only
       size_t line_len = strlen(line_buffer);
-      if (line_len > 0 && line_buffer[line_len - 1] != '\n') {
-        // Input was truncated, clear remaining input
-        int c;
-        while ((c = getchar()) != '\n' && c != EOF) {
-          // Discard remaining characters
-        }
-        printf("Warning: input line too long, truncated\n");
-      }
+      bool line_complete = (line_len > 0 && line_buffer[line_len - 1] == '\n') || feof(stdin);
       
       // Append line to input buffer
       size_t current_len = strlen(input_buffer);
@@ -106,7 +141,7 @@ void repl() {
       strcat(input_buffer, line_buffer);
       
       // Check if parentheses are balanced
-      if (is_balanced(input_buffer)) {
+      if (line_complete && is_balanced(input_buffer)) {
         // Skip whitespace to check if input is empty
         const char *p = input_buffer;
         while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) {
@@ -116,13 +151,7 @@ void repl() {
         // Only parse if there's actual content
         if (*p != '\0') {
           // Expression is complete, parse and evaluate
-          auto ast = parse(input_buffer);
-          print_ast(ast);
-          printf("\n");
-          auto val = eval(ast);
-          printf(" --> ");
-          print_ast(val);
-          printf("\n");
+          eval_input(input_buffer);
         }
         
         // Reset buffer for next expression
@@ -133,6 +162,10 @@ void repl() {
     else {
       // EOF or error
       if (feof(stdin)) {
+        if (input_buffer[0] != '\0') {
+          // Report the incomplete expression
+          eval_input(input_buffer);
+        }
         printf("\n");
         free(input_buffer);
         return;  // Normal exit
-- 
2.43.0


From 4c10e2bf44d033b7e444271229b390eaf555fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:35 +0000
Subject: [PATCH 67/78] fix: error diagnostics go to the standard error,
 without a NUL byte

---
 src/c/logging.cc |  6 +++---
 src/c/pscm.h     | 14 ++++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/c/logging.cc b/src/c/logging.cc
index 5687c04..0c78193 100644
--- a/src/c/logging.cc
+++ b/src/c/logging.cc
@@ -1,7 +1,7 @@
 #include <stdio.h>
 #include <string.h>
 
-void print_basename(const char *path) {
+void fprint_basename(FILE *file, const char *path) {
   auto len = strlen(path);
   int i = len;
   while (i > 0) {
@@ -11,7 +11,7 @@ void print_basename(const char *path) {
     }
     i--;
   }
-  for (int idx = i; idx <= len; idx++) {
-    printf("%c", path[idx]);
+  for (int idx = i; idx < len; idx++) {
+    fprintf(file, "%c", path[idx]);
   }
 }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 0b603b8..699641e 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -840,7 +840,7 @@ SCM *scm_c_set_cdr(SCM *pair, SCM *value);
  * Macro
  */
 #define SCM_FILENAME_LINENO()                                                                                          \
-  print_basename(__BASE_FILE__);                                                                                       \
+  fprint_basename(stdout, __BASE_FILE__);                                                                              \
   printf(":%d ", __LINE__);
 
 #define SCM_INIT_CONT(cont, base)                                                                                      \
@@ -885,10 +885,12 @@ SCM *scm_c_set_cdr(SCM *pair, SCM *value);
 #define SCM_LOGGING(level, category, fmt, ...)                                                                         \
   {                                                                                                                    \
     if (debug_enabled || level >= SCM_LOG_LEVEL_ERROR) {                                                               \
-      printf(category);                                                                                                \
-      printf(" ");                                                                                                     \
-      SCM_FILENAME_LINENO();                                                                                           \
-      printf(fmt, ##__VA_ARGS__);                                                                                      \
+      FILE *scm_log_file = level >= SCM_LOG_LEVEL_ERROR ? stderr : stdout;                                             \
+      fprintf(scm_log_file, category);                                                                                 \
+      fprintf(scm_log_file, " ");                                                                                      \
+      fprint_basename(scm_log_file, __BASE_FILE__);                                                                    \
+      fprintf(scm_log_file, ":%d ", __LINE__);                                                                         \
+      fprintf(scm_log_file, fmt, ##__VA_ARGS__);                                                                       \
     }                                                                                                                  \
   }                                                                                                                    \
   while (0)                                                                                                            \
@@ -923,7 +925,7 @@ SCM *scm_c_set_cdr(SCM *pair, SCM *value);
 
 inline bool debug_enabled = false;
 inline bool ast_debug_enabled = false;
-void print_basename(const char *path);
+void fprint_basename(FILE *file, const char *path);
 
 /*
  * Initialize
-- 
2.43.0


From 04050e85b0ab1ddd53c2afcff16a8db6088e2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:46 +0000
Subject: [PATCH 68/78] fix: a smob bound to a variable can be applied

---
 src/c/eval.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 645e658..56de051 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -503,7 +503,7 @@ entry:
       // Use try-catch to safely check type
       bool type_valid = false;
       try {
-        if (val->type >= SCM::NONE && val->type <= SCM::MODULE) {
+        if (val->type >= SCM::NONE && val->type <= SCM::VARIABLE) {
           type_valid = true;
         }
       } catch (...) {
@@ -517,8 +517,8 @@ entry:
                 (val ? (unsigned int)val->type : 0), 
                 (void *)val);
         fprintf(stderr, "  This suggests the symbol lookup returned a corrupted pointer.\n");
-        fprintf(stderr, "  Valid type range: %d (NONE) to %d (MODULE)\n", 
-                (int)SCM::NONE, (int)SCM::MODULE);
+        fprintf(stderr, "  Valid type range: %d (NONE) to %d (VARIABLE)\n", 
+                (int)SCM::NONE, (int)SCM::VARIABLE);
         fflush(stderr);
         eval_error("symbol '%s' resolved to corrupted value", sym->data);
         return nullptr;
@@ -698,7 +698,7 @@ entry:
       bool type_valid = false;
       try {
         // Check if type is within valid enum range
-        if (expr->type >= SCM::NONE && expr->type <= SCM::MODULE) {
+        if (expr->type >= SCM::NONE && expr->type <= SCM::VARIABLE) {
           type_valid = true;
         }
       } catch (...) {
@@ -724,7 +724,7 @@ entry:
           // Check if list_wrapped type is valid before accessing source_loc
           bool list_type_valid = false;
           try {
-            if (list_wrapped->type >= SCM::NONE && list_wrapped->type <= SCM::MODULE) {
+            if (list_wrapped->type >= SCM::NONE && list_wrapped->type <= SCM::VARIABLE) {
               list_type_valid = true;
             }
           } catch (...) {
@@ -751,7 +751,7 @@ entry:
         // Check if context type is valid before accessing source_loc
         bool ctx_type_valid = false;
         try {
-          if (g_current_eval_context->type >= SCM::NONE && g_current_eval_context->type <= SCM::MODULE) {
+          if (g_current_eval_context->type >= SCM::NONE && g_current_eval_context->type <= SCM::VARIABLE) {
             ctx_type_valid = true;
           }
         } catch (...) {
-- 
2.43.0


From a159c7d7332b1cd1205b43238023386667186892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:46 +0000
Subject: [PATCH 69/78] fix: a rest parameter does not share the argument list
 of a C caller

---
 src/c/procedure.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index 4b3900b..2522bd9 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -1,6 +1,17 @@
 #include "pscm.h"
 #include "eval.h"
 
+// A rest parameter holds a list of its own, not the caller's
+static SCM *copy_rest_args(SCM_List *args) {
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  for (; args; args = args->next) {
+    tail->next = make_list(args->data);
+    tail = tail->next;
+  }
+  return dummy.next ? wrap(dummy.next) : scm_nil();
+}
+
 // Apply procedure with already-evaluated arguments (values)
 // This is used by catch/throw handlers, where arguments are already evaluated
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
@@ -36,7 +47,7 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
   // Special case: only rest parameter (e.g., (values . things))
   if (only_rest_param) {
     // Bind all arguments to the rest parameter (args are already evaluated)
-    SCM *rest_val = args_iter ? wrap(args_iter) : scm_nil();
+    SCM *rest_val = copy_rest_args(args_iter);
     scm_env_insert(proc_env, rest_param_sym, rest_val, /*search_parent=*/false);
     
     // Execute procedure body
@@ -81,7 +92,7 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
   // Bind rest parameter if present
   if (has_rest_param) {
     // Collect remaining arguments into a list (they are already evaluated)
-    SCM *rest_val = args_iter ? wrap(args_iter) : scm_nil();
+    SCM *rest_val = copy_rest_args(args_iter);
     scm_env_insert(proc_env, rest_param_sym, rest_val, /*search_parent=*/false);
   } else {
     // No rest parameter - check for too many arguments
-- 
2.43.0


From 1cc1e0d043c72115ae460567346d8b8e0db66785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:57 +0000
Subject: [PATCH 70/78] fix: a gsubr with optional or rest arguments checks how
 many it is given

---
 src/c/function.cc  | 7 +++++++
 src/c/module.cc    | 2 ++
 src/c/pscm_types.h | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/src/c/function.cc b/src/c/function.cc
index 5151adf..8df0fbe 100644
--- a/src/c/function.cc
+++ b/src/c/function.cc
@@ -99,6 +99,13 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
         return nullptr;
       }
     }
+    int n_given = 0;
+    for (SCM_List *arg = l->next; arg; arg = arg->next) {
+      n_given++;
+    }
+    if (n_given < func->min_args || (func->max_args > 0 && n_given > func->max_args)) {
+      throw_wrong_number_of_args(func, l->next, nullptr);
+    }
     typedef SCM *(*func_var)(SCM_List *);
     auto f = (func_var)func->func_ptr;
     return f(l->next);
diff --git a/src/c/module.cc b/src/c/module.cc
index 8a950c2..228ba36 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -643,9 +643,11 @@ SCM *scm_c_define_gsubr(const char *name, int req, int opt, int rst,
   } else if (opt > 0) {
     func->n_args = -2;   // treat optional-arg functions as vararg for now
     func->generic = nullptr;
+    func->max_args = req + opt;
   } else {
     func->n_args = req;  // 0, 1, 2, or 3
   }
+  func->min_args = req;
 
   SCM *proc = wrap(func);
 
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 5148b95..44d6e70 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -85,6 +85,8 @@ struct SCM_Function {
   int n_args;
   void *func_ptr;
   SCM *generic;
+  int min_args;   // Of a vararg function: how few arguments it takes
+  int max_args;   // Of a vararg function: how many it takes, 0 for no limit
 };
 
 struct SCM_Continuation {
-- 
2.43.0


From 17cc543012436a95b58f7a7fd2cef710c94b8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 71/78] fix: apply, map, map-in-order and call/cc can be called
 from C like other procedures

---
 src/c/function.cc | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/c/function.cc b/src/c/function.cc
index 8df0fbe..c903bee 100644
--- a/src/c/function.cc
+++ b/src/c/function.cc
@@ -26,6 +26,22 @@ SCM *eval_with_func_3(SCM_Function *func, SCM *arg1, SCM *arg2, SCM *arg3) {
   return f(arg1, arg2, arg3);
 }
 
+static bool evaluates_its_arguments(const char *name) {
+  return strcmp(name, "apply") == 0 || strcmp(name, "map") == 0 || strcmp(name, "map-in-order") == 0 ||
+         strcmp(name, "call-with-current-continuation") == 0 || strcmp(name, "call/cc") == 0;
+}
+
+// Call a function that evaluates its arguments with values
+static SCM *eval_quoted_call(SCM *func, SCM_List *args) {
+  SCM_List *call = make_list(func);
+  SCM_List *tail = call;
+  for (; args; args = args->next) {
+    tail->next = make_list(scm_list2(scm_sym_quote(), args->data));
+    tail = tail->next;
+  }
+  return eval_with_env(&g_env, wrap(call));
+}
+
 SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
   if (debug_enabled) {
     SCM_DEBUG_EVAL("eval func ");
@@ -82,22 +98,10 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
   }
   if (func->n_args == -2) {
     // Variable argument function (like list)
-    // Special handling for apply, map, and map-in-order: they need access to environment
-    // But we can't access env here, so these should be handled in eval.cc
-    // If they reach here, it's an error
-    if (func->name) {
-      if (strcmp(func->name->data, "apply") == 0) {
-        eval_error("apply: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map") == 0) {
-        eval_error("map: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map-in-order") == 0) {
-        eval_error("map-in-order: internal error - should be handled as special form");
-        return nullptr;
-      }
+    // apply, map, map-in-order and call/cc need access to the environment and
+    // evaluate their arguments themselves
+    if (func->name && evaluates_its_arguments(func->name->data)) {
+      return eval_quoted_call(wrap(func), l->next);
     }
     int n_given = 0;
     for (SCM_List *arg = l->next; arg; arg = arg->next) {
-- 
2.43.0


From a4f45f7dfb8459e2b6dd011b2c0641ab0017b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 72/78] fix: continuations save the stack up to the outermost
 call into Scheme

---
 src/c/apply.cc        | 10 ++++++++++
 src/c/continuation.cc |  7 +++++++
 src/c/eval.cc         |  6 ++----
 src/c/pscm.h          |  1 +
 src/c/pscm_api.cc     |  6 ++----
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index fbc1f6b..6861805 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -14,6 +14,8 @@ SCM *scm_c_apply(SCM_List *args) {
 
 // scm_call_0: Call procedure with 0 arguments
 SCM *scm_call_0(SCM *proc) {
+  long stack_base;
+  scm_enter_from_c(&stack_base);
   if (!proc) {
     eval_error("scm_call_0: procedure is null");
     return nullptr;
@@ -41,6 +43,8 @@ SCM *scm_call_0(SCM *proc) {
 
 // scm_call_1: Call procedure with 1 argument
 SCM *scm_call_1(SCM *proc, SCM *arg1) {
+  long stack_base;
+  scm_enter_from_c(&stack_base);
   if (!proc) {
     eval_error("scm_call_1: procedure is null");
     return nullptr;
@@ -70,6 +74,8 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
 
 // scm_call_2: Call procedure with 2 arguments
 SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
+  long stack_base;
+  scm_enter_from_c(&stack_base);
   if (!proc) {
     eval_error("scm_call_2: procedure is null");
     return nullptr;
@@ -101,6 +107,8 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
 
 // scm_call_3: Call procedure with 3 arguments
 SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
+  long stack_base;
+  scm_enter_from_c(&stack_base);
   if (!proc) {
     eval_error("scm_call_3: procedure is null");
     return nullptr;
@@ -134,6 +142,8 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
 
 // scm_apply_0: Apply procedure with arguments in a list
 SCM *scm_apply_0(SCM *proc, SCM *args) {
+  long stack_base;
+  scm_enter_from_c(&stack_base);
   if (!proc) {
     eval_error("scm_apply_0: procedure is null");
     return nullptr;
diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 9833717..5c6a3c3 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -6,6 +6,13 @@
 #include <string.h>
 
 
+// Continuations save the stack up to the outermost call into Scheme
+void scm_enter_from_c(long *stack_base) {
+  if (!cont_base || cont_base < stack_base) {
+    cont_base = stack_base;
+  }
+}
+
 long scm_stack_size(long *start) {
   long stack;
   SCM_DEBUG_CONT("stack_top: %p\n", &stack);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 56de051..17640d9 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -52,10 +52,8 @@ SCM *scm_c_eval_string(const char *expr) {
   }
   
   // Evaluate all expressions, return the last result
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
+  long stack_base;
+  scm_enter_from_c(&stack_base);
   SCM *last_result = nullptr;
   SCM_List *current = exprs;
   while (current) {
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 699641e..ee923f9 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1011,6 +1011,7 @@ inline SCM_Environment g_env{};
 inline SCM_List *g_wind_chain = nullptr; // Global wind chain for dynamic-wind
 inline SCM *g_root_module = nullptr;     // Root module (pscm-user)
 inline long *cont_base = nullptr;        // Stack base pointer for continuations
+void scm_enter_from_c(long *stack_base);
 
 /*
  * Hash table functions
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index 3c88582..46db39a 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -30,10 +30,8 @@ SCM *pscm_eval(SCM *ast) {
   if (!ast) {
     return nullptr;
   }
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
+  long stack_base;
+  scm_enter_from_c(&stack_base);
   return scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
-- 
2.43.0


From 5ab951ec247af6ab87c6e7b468ac163ef5e9d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:20 +0000
Subject: [PATCH 73/78] fix: blocks keep the 16-byte stride the sweep relies on

A continuation is 264 bytes; the sweep stepped from it into the padding, stopped there
and left the marks of all later blocks set, so the next collection freed what they refer to.
---
 src/c/gc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..2f88067 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -212,6 +212,8 @@ static void *bump_allocate(size_t total_size) {
 // =========================================================================
 
 void *gc_alloc(TypeTag tag, size_t size) {
+  // Blocks follow one another at 16-byte boundaries; the sweep steps from one to the next by their size.
+  size = (size + 15) & ~(size_t)15;
   size_t total_size = sizeof(GCBlock) + size;
 
   // Trigger GC if threshold exceeded.
-- 
2.43.0


From 994a035ed749e87c9885fe8b504637c257332f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:20 +0000
Subject: [PATCH 74/78] fix: a stale pointer to a reclaimed vector or table
 does not crash the collector

A swept vector has no elements but keeps its length; reached from an old word of the
stack in a later collection it was traced through a null pointer.
---
 src/c/gc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 2f88067..3356ed4 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -140,6 +140,8 @@ static int size_to_bucket(size_t size) {
 
 static void free_to_list(GCBlock *block) {
   int b = size_to_bucket(block->size);
+  // A stale pointer may still lead here; a free block has nothing to trace or release.
+  block->type_tag = GC_TYPE_COUNT;
   block->next_free = free_lists[b];
   free_lists[b] = block;
 }
-- 
2.43.0


From 414f23a9e7d675852c7dd13c2ce67762b1527e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:20 +0000
Subject: [PATCH 75/78] fix: a collection keeps what a stored continuation
 refers to

The saved stack was not scanned; re-entering a continuation after a collection used freed objects.
---
 src/c/gc.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 3356ed4..1d70b9b 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -333,6 +333,12 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   }
 }
 
+static void scan_words(void *start, size_t size, MarkStack *stack) {
+  for (size_t i = 0; i + sizeof(void *) <= size; i += sizeof(void *)) {
+    mark_if_valid_block(*(void **)((char *)start + i), stack);
+  }
+}
+
 static void scan_conservative_roots(MarkStack *stack) {
   // 1. Registered roots.
   for (int i = 0; i < g_num_roots; i++) {
@@ -360,10 +366,7 @@ static void scan_conservative_roots(MarkStack *stack) {
   }
   // Scan the setjmp buffer word-by-word (jmp_buf may have
   // platform-dependent layout; scan bytewise but only at aligned offsets).
-  for (size_t i = 0; i + sizeof(void *) <= sizeof(jmp_buf); i += sizeof(void *)) {
-    void *val = *(void **)((char *)&env + i);
-    mark_if_valid_block(val, stack);
-  }
+  scan_words(&env, sizeof(jmp_buf), stack);
 
   // 3. Conservative scan of the C stack from the current frame
   //    up to the stack top marker set from main().  This covers ALL
@@ -552,7 +555,9 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+  // The saved stack and registers become live again when the continuation is invoked.
+  scan_words(cont->stack_data, sizeof(long) * cont->stack_len, stack);
+  scan_words(&cont->cont_jump_buffer, sizeof(cont->cont_jump_buffer), stack);
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From 9f332107890b887808565c225f993084dfccd1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:20 +0000
Subject: [PATCH 76/78] fix: a collection keeps what the frames of a C host
 hold

A host that had not called gc_set_stack_top (not part of the public API) got no stack scan at all.
---
 src/c/gc.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 1d70b9b..c2b6242 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "gc.h"
 
+#include <pthread.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -300,6 +301,24 @@ void gc_set_stack_top(void *marker) {
   g_gc_stack_top = (char *)marker;
 }
 
+// The base of the stack, for a host that has not called gc_set_stack_top: its
+// frames may hold objects whatever call into pscm they make.
+static char *find_stack_base() {
+#if defined(__GLIBC__)
+  pthread_attr_t attr;
+  if (pthread_getattr_np(pthread_self(), &attr) == 0) {
+    void *addr = nullptr;
+    size_t size = 0;
+    pthread_attr_getstack(&attr, &addr, &size);
+    pthread_attr_destroy(&attr);
+    return addr ? (char *)addr + size : nullptr;
+  }
+#elif defined(__APPLE__)
+  return (char *)pthread_get_stackaddr_np(pthread_self());
+#endif
+  return nullptr;
+}
+
 void gc_register_root(SCM **ptr, const char *name) {
   if (g_num_roots >= MAX_ROOTS) {
     fprintf(stderr, "WARNING: too many GC roots (max %d), root registration skipped for %s\n", MAX_ROOTS, name);
@@ -789,6 +808,10 @@ void gc_init() {
   g_heap_start = seg->start;
   g_heap_end   = seg->start + seg->size;
 
+  if (!g_gc_stack_top) {
+    g_gc_stack_top = find_stack_base();
+  }
+
   // 2. Clear free lists (already zero-initialised statically).
   for (int i = 0; i < NUM_BUCKETS; i++) {
     free_lists[i] = nullptr;
-- 
2.43.0


From 588d20e8430eb2d8e3e07e18a2426a4b34ee80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:20 +0000
Subject: [PATCH 77/78] fix: a collection keeps the Scheme objects stored in a
 smob

Its data fields were never traced, and the mark function of the type is not used.
---
 src/c/gc.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index c2b6242..aed4463 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "gc.h"
+#include "smob.h"
 
 #include <pthread.h>
 #include <sys/mman.h>
@@ -775,8 +776,12 @@ static void sweep_cont(GCBlock *block) {
 }
 
 // --- GC_SMOB ----------------------------------------------------------
-static void trace_smob(GCBlock *, MarkStack *) {
-  // SCM_Smob contains long, void*, int64_t -- no SCM* fields to trace.
+static void trace_smob(GCBlock *block, MarkStack *stack) {
+  // The data fields may hold anything, Scheme objects included.
+  SCM_Smob *smob = (SCM_Smob *)block_to_obj(block);
+  mark_if_valid_block(smob->data, stack);
+  mark_if_valid_block((void *)smob->data2, stack);
+  mark_if_valid_block((void *)smob->data3, stack);
 }
 
 // =========================================================================
-- 
2.43.0


From ad9b302e4fe8c0c4821aea4aa5f63e5c330715bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:06 +0000
Subject: [PATCH 78/78] fix: a collection reads only memory its heap has handed
 out

---
 src/c/gc.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index aed4463..29d1323 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -335,6 +335,15 @@ void gc_register_root(SCM **ptr, const char *name) {
 // Conservative root scanning
 // =========================================================================
 
+// Only memory a segment has handed out may be read: the word may be anything,
+// and there need not be memory before the first segment or between two.
+static bool is_in_segment(const char *p) {
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if (p >= seg->start && p < seg->bump) return true;
+  }
+  return false;
+}
+
 static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   if (!ptr) return;
   char *cptr = (char *)ptr;
@@ -346,6 +355,7 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
 
   // Block header must be 16-byte aligned.
   if (block_addr & (sizeof(GCBlock) - 1)) return;
+  if (!is_in_segment((char *)block_addr)) return;
 
   GCBlock *block = (GCBlock *)block_addr;
   if (block->gc_magic == GC_MAGIC) {
-- 
2.43.0

