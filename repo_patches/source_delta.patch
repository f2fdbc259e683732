From 2bccce01d88db254079d83eac84153870d3a5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 001/176] fix: print the base of a "Fixed**N" dimension power

---
 src/dynd/types/pow_dimsym_type.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 2961fe5..149a282 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -26,6 +26,9 @@ void ndt::pow_dimsym_type::print_type(std::ostream &o) const {
       o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
     }
     break;
+  case fixed_dim_kind_id:
+    o << "Fixed";
+    break;
   case var_dim_id:
     o << "var";
     break;
-- 
2.43.0


From 0ae594a0aa0dd17c5282fda5d51c314a81e65cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 002/176] fix: print variadic tuple and struct types without
 fields as valid datashape

---
 src/dynd/types/struct_type.cpp | 2 +-
 src/dynd/types/tuple_type.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9933419..f7ffcfe 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -89,7 +89,7 @@ void ndt::struct_type::print_type(std::ostream &o) const {
     o << ": " << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...}";
+    o << (m_field_count == 0 ? "...}" : ", ...}");
   } else {
     o << "}";
   }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5d774b5..bcb2589 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -194,7 +194,7 @@ void ndt::tuple_type::print_type(std::ostream &o) const {
     o << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...)";
+    o << (m_field_count == 0 ? "...)" : ", ...)");
   } else {
     o << ")";
   }
-- 
2.43.0


From d244769763b4d0fbba6a8e04f259fe8cffc16566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 003/176] fix: do not drop the keyword fields of "(T, x: U)"
 when no "->" follows

---
 src/dynd/types/datashape_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index a4dc23d..713bc20 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -563,8 +563,8 @@ static ndt::type parse_tuple_or_funcproto(const char *&rbegin, const char *end,
           funcproto_kwd = parse_funcproto_kwds(begin, end, symtable);
           if (!funcproto_kwd.is_null()) {
             if (!datashape::parse_token(begin, end, "->")) {
-              rbegin = begin;
-              return ndt::make_type<ndt::tuple_type>(field_type_list.size(), field_type_list.data());
+              // A tuple has no keyword arguments, so this can only be a function prototype
+              throw datashape::internal_parse_error(begin, "expected '->' after function prototype arguments");
             }
 
             ndt::type return_type = datashape::parse(begin, end, symtable);
-- 
2.43.0


From 6f56158857aa243c5c5ea4b2240bd30bbcb68932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 004/176] fix: refuse an incomplete dimensional power such as
 "3**N" or "3**2 *", allow white space in it

---
 src/dynd/types/datashape_parser.cpp | 43 ++++++++++++++++-------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 713bc20..b31d63b 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -665,6 +665,7 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
       // Save the extents of the base dim token
       const char *bbegin = nbegin;
       const char *bend = nend;
+      skip_whitespace_and_pound_comments(begin, end);
       if (parse_name_or_number(begin, end, nbegin, nend)) {
         if ('1' <= *nbegin && *nbegin <= '9') {
           intptr_t exponent = parse<intptr_t>(nbegin, nend);
@@ -672,6 +673,9 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
           }
           ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
           if ('0' <= *bbegin && *bbegin <= '9') {
             intptr_t dim_size = parse<intptr_t>(bbegin, bend);
             result = ndt::pow(ndt::make_fixed_dim(dim_size, element_tp), exponent);
@@ -686,26 +690,27 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
           }
         } else if (isupper(*nbegin)) {
           std::string exponent_name(nbegin, nend);
-          if (datashape::parse_token(begin, end, '*')) {
-            if ('0' <= *bbegin && *bbegin <= '9') {
-              intptr_t dim_size = parse<intptr_t>(bbegin, bend);
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "var")) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
-              result =
-                  ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
-                                                       exponent_name, datashape::parse(begin, end, symtable));
-            } else if (isupper(*bbegin)) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(
-                  ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
-                  exponent_name, datashape::parse(begin, end, symtable));
-            } else {
-              throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
-            }
+          if (!datashape::parse_token(begin, end, '*')) {
+            throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
+          }
+          ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
+          ndt::type base_tp;
+          if ('0' <= *bbegin && *bbegin <= '9') {
+            intptr_t dim_size = parse<intptr_t>(bbegin, bend);
+            base_tp = ndt::make_fixed_dim(dim_size, ndt::make_type<void>());
+          } else if (compare_range_to_literal(bbegin, bend, "var")) {
+            base_tp = ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>());
+          } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
+            base_tp = ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>());
+          } else if (isupper(*bbegin)) {
+            base_tp = ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>());
+          } else {
+            throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
           }
+          result = ndt::make_type<ndt::pow_dimsym_type>(base_tp, exponent_name, element_tp);
         } else {
           throw datashape::internal_parse_error(begin, "expected a number or a typevar symbol");
         }
-- 
2.43.0


From d1a7b654013dc16e1d52239d565968ca11eb9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 005/176] fix: accept the \U escape that printing a type writes

---
 src/dynd/parse_util.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index c3bb728..27532c0 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -458,12 +458,14 @@ bool datashape::parse_quoted_string(const char *&rbegin, const char *end, std::s
       case 't':
         out_val += '\t';
         break;
-      case 'u': {
-        if (end - begin < 4) {
+      case 'u':
+      case 'U': {
+        int digit_count = (c == 'u') ? 4 : 8;
+        if (end - begin < digit_count) {
           throw datashape::internal_parse_error(begin - 2, "invalid unicode escape sequence in string");
         }
         uint32_t cp = 0;
-        for (int i = 0; i < 4; ++i) {
+        for (int i = 0; i < digit_count; ++i) {
           char d = *begin++;
           cp *= 16;
           if ('0' <= d && d <= '9') {
-- 
2.43.0


From 5d0cd5566d56009a734554bf45fc0eb4bcfe3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 006/176] fix: refuse datashape text that nests too deeply
 instead of overflowing the stack

---
 src/dynd/types/datashape_parser.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index b31d63b..43467ee 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -45,6 +45,26 @@ static const map<std::string, ndt::type> &builtin_types() {
   return bit;
 }
 
+// The parser, and what is done with the types it makes, recurses once per level of nesting, so
+// text that nests deeper than this is refused instead of overflowing the stack.
+static const int max_nesting = 256;
+
+class nesting_guard {
+  static int &depth() {
+    static thread_local int depth = 0;
+    return depth;
+  }
+
+public:
+  nesting_guard(const char *position) {
+    if (depth() >= max_nesting) {
+      throw datashape::internal_parse_error(position, "the datashape is nested too deeply");
+    }
+    ++depth();
+  }
+  ~nesting_guard() { --depth(); }
+};
+
 static bool parse_name_or_number(const char *&rbegin, const char *end, const char *&out_nbegin, const char *&out_nend) {
   const char *begin = rbegin;
   // NAME
@@ -676,6 +696,9 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
           if (element_tp.is_null()) {
             throw datashape::internal_parse_error(begin, "expected a dynd type");
           }
+          if (exponent > max_nesting - element_tp.get_ndim()) {
+            throw datashape::internal_parse_error(nbegin, "the dimensional power has too many dimensions");
+          }
           if ('0' <= *bbegin && *bbegin <= '9') {
             intptr_t dim_size = parse<intptr_t>(bbegin, bend);
             result = ndt::pow(ndt::make_fixed_dim(dim_size, element_tp), exponent);
@@ -836,6 +859,7 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
 //              | QUESTIONMARK datashape_nooption
 ndt::type datashape::parse(const char *&rbegin, const char *end, map<std::string, ndt::type> &symtable) {
   const char *begin = rbegin;
+  nesting_guard guard(begin);
   skip_whitespace_and_pound_comments(begin, end);
   if (parse_token_no_ws(begin, end, '?')) {
     ndt::type val_tp = parse_datashape_nooption(begin, end, symtable);
-- 
2.43.0


From 4f6ee7ea91292133433eeb9f344138bd6983d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 007/176] fix: refuse sizes and alignments in datashape text
 that do not fit instead of truncating them

---
 src/dynd/types/bytes_type.cpp        | 2 +-
 src/dynd/types/fixed_bytes_type.cpp  | 6 ++++--
 src/dynd/types/fixed_dim_type.cpp    | 2 +-
 src/dynd/types/fixed_string_type.cpp | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dynd/types/bytes_type.cpp b/src/dynd/types/bytes_type.cpp
index 216dd39..4778812 100644
--- a/src/dynd/types/bytes_type.cpp
+++ b/src/dynd/types/bytes_type.cpp
@@ -128,7 +128,7 @@ ndt::type ndt::bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), const char
         throw datashape::internal_parse_error(begin, "expected closing ']'");
       }
       rbegin = begin;
-      return ndt::make_type<ndt::bytes_type>(atoi(align_val.c_str()));
+      return ndt::make_type<ndt::bytes_type>(parse<int>(align_val.data(), align_val.data() + align_val.size()));
     }
     throw datashape::internal_parse_error(begin, "expected 'align'");
   } else {
diff --git a/src/dynd/types/fixed_bytes_type.cpp b/src/dynd/types/fixed_bytes_type.cpp
index 025e193..68eaf9d 100644
--- a/src/dynd/types/fixed_bytes_type.cpp
+++ b/src/dynd/types/fixed_bytes_type.cpp
@@ -80,7 +80,7 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
     if (datashape::parse_token(begin, end, ']')) {
       // Fixed bytes with just a size parameter
       rbegin = begin;
-      return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), 1);
+      return ndt::make_type<ndt::fixed_bytes_type>(parse<int>(size_val.data(), size_val.data() + size_val.size()), 1);
     }
     if (!datashape::parse_token(begin, end, ',')) {
       throw datashape::internal_parse_error(begin, "expected closing ']' or another argument");
@@ -99,7 +99,9 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
     rbegin = begin;
-    return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), atoi(align_val.c_str()));
+    return ndt::make_type<ndt::fixed_bytes_type>(
+        parse<int>(size_val.data(), size_val.data() + size_val.size()),
+        parse<int>(align_val.data(), align_val.data() + align_val.size()));
   }
   throw datashape::internal_parse_error(begin, "expected opening '['");
 }
\ No newline at end of file
diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 894c534..75372bd 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -544,7 +544,7 @@ ndt::type ndt::fixed_dim_type::parse_type_args(type_id_t DYND_UNUSED(id), const
     if (dim_size_str.empty()) {
       throw datashape::internal_parse_error(saved_begin, "expected dimension size");
     }
-    intptr_t dim_size = (intptr_t)std::atoll(dim_size_str.c_str());
+    intptr_t dim_size = parse<intptr_t>(dim_size_str.data(), dim_size_str.data() + dim_size_str.size());
     if (!datashape::parse_token(begin, end, ']')) {
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index a7fa89c..5284003 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -151,7 +151,7 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
     string_encoding_t encoding = string_encoding_utf_8;
     int string_size = 0;
     if (!value.empty()) {
-      string_size = atoi(value.c_str());
+      string_size = parse<int>(value.data(), value.data() + value.size());
       if (string_size == 0) {
         throw datashape::internal_parse_error(saved_begin, "string size cannot be zero");
       }
-- 
2.43.0


From fb73bb827488c5e0f4b742eb3ab8083768ba6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 008/176] fix: refuse fixed_string['encoding'] without a size,
 which made a zero-size string type

---
 src/dynd/types/fixed_string_type.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index 5284003..84e7e58 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -163,10 +163,7 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
         encoding = datashape::string_to_encoding(saved_begin, encoding_str);
       }
     } else {
-      if (!datashape::parse_quoted_string(begin, end, encoding_str)) {
-        throw datashape::internal_parse_error(saved_begin, "expected a size integer");
-      }
-      encoding = datashape::string_to_encoding(saved_begin, encoding_str);
+      throw datashape::internal_parse_error(saved_begin, "expected a size integer");
     }
     if (!datashape::parse_token(begin, end, ']')) {
       throw datashape::internal_parse_error(begin, "expected closing ']'");
-- 
2.43.0


From b5b91ed686b4c3ca3b21bcd2cc386dcaabe80e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 009/176] fix: skip comment lines in a loop, their number is
 not bounded by the stack

---
 include/dynd/parse_util.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index dec3e89..c01f503 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -232,19 +232,17 @@ inline void skip_whitespace(char *const *src) {
 inline void skip_whitespace_and_pound_comments(const char *&rbegin, const char *end) {
   using namespace std;
   const char *begin = rbegin;
-  while (begin < end && DYND_ISSPACE(*begin)) {
-    ++begin;
-  }
+  for (;;) {
+    while (begin < end && DYND_ISSPACE(*begin)) {
+      ++begin;
+    }
 
-  // Comments
-  if (begin < end && *begin == '#') {
-    const char *line_end = (const char *)memchr(begin, '\n', end - begin);
-    if (line_end == NULL) {
-      begin = end;
-    } else {
-      begin = line_end + 1;
-      skip_whitespace_and_pound_comments(begin, end);
+    // Comments
+    if (begin == end || *begin != '#') {
+      break;
     }
+    const char *line_end = (const char *)memchr(begin, '\n', end - begin);
+    begin = (line_end == NULL) ? end : line_end + 1;
   }
 
   rbegin = begin;
-- 
2.43.0


From 3b51728cdf2e28f16d06607d710eb1563177dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 010/176] fix: do not take a type's own name, as in "Int**3 *
 T", for a dimension variable

---
 src/dynd/types/datashape_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 43467ee..a261413 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -706,7 +706,7 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             result = ndt::pow(ndt::make_type<ndt::var_dim_type>(element_tp), exponent);
           } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
             result = ndt::pow(ndt::make_type<ndt::fixed_dim_kind_type>(element_tp), exponent);
-          } else if (isupper(*bbegin)) {
+          } else if (isupper(*bbegin) && lookup_id_by_name(std::string(bbegin, bend)).first == uninitialized_id) {
             result = ndt::pow(ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), element_tp), exponent);
           } else {
             throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
@@ -728,7 +728,7 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             base_tp = ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>());
           } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
             base_tp = ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>());
-          } else if (isupper(*bbegin)) {
+          } else if (isupper(*bbegin) && lookup_id_by_name(std::string(bbegin, bend)).first == uninitialized_id) {
             base_tp = ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>());
           } else {
             throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
-- 
2.43.0


From aa4ca46beac6cc708087ef7c288790a8f6f8aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 011/176] fix: detect every overflow when parsing an integer,
 not only those that wrap to a smaller value

---
 include/dynd/parse_util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index c01f503..6208546 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -929,8 +929,9 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
   while (begin < end) {
     char c = *begin;
     if ('0' <= c && c <= '9') {
+      prev_result = result;
       result = (result * 10u) + static_cast<T>(c - '0');
-      if (result < prev_result) {
+      if (prev_result > static_cast<T>((std::numeric_limits<T>::max)() - static_cast<T>(c - '0')) / 10u) {
         std::stringstream ss;
         ss << "overflow converting string ";
         ss.write(begin, end - begin);
@@ -974,7 +975,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
             // overflow checking
             for (int i = 0; i < exponent; ++i) {
               result = result * 10u;
-              if (result < prev_result) {
+              if (prev_result > (std::numeric_limits<T>::max)() / 10u) {
                 std::stringstream ss;
                 ss << "overflow converting string ";
                 ss.write(begin, end - begin);
@@ -994,7 +995,6 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
       throw std::invalid_argument(ss.str());
     }
     ++begin;
-    prev_result = result;
   }
 
   return result;
-- 
2.43.0


From 4c6beb5cccbbc90d7a017929cae334d3dd0f6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 012/176] fix: int128 arithmetic: +=, the borrow of -, times of
 a negative, and conversion from bool and to floating point of a negative

---
 include/dynd/int128.hpp | 11 +++++------
 src/dynd/int128.cpp     | 27 +++++++++++----------------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index d815039..cba838a 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -22,7 +22,7 @@ public:
   int128() {}
   int128(uint64_t hi, uint64_t lo) : m_lo(lo), m_hi(hi) {}
 
-  int128(bool1) { throw std::runtime_error("int128(bool1) is not implemented"); }
+  int128(bool1 value) : m_lo(static_cast<bool>(value)), m_hi(0ULL) {}
 
   int128(char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   int128(signed char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
@@ -93,7 +93,7 @@ public:
   int128 &operator+=(const int128 &rhs)
   {
     uint64_t lo = m_lo + rhs.m_lo;
-    *this = int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    *this = int128(m_hi + rhs.m_hi + (lo < m_lo), lo);
 
     return *this;
   }
@@ -114,8 +114,7 @@ public:
 
   int128 operator-(const int128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return int128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   int128 operator*(uint32_t rhs) const;
@@ -128,7 +127,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.f;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.f);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.f;
@@ -139,7 +138,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.0;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.0);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.0;
diff --git a/src/dynd/int128.cpp b/src/dynd/int128.cpp
index 9f6c140..8fd8b5d 100644
--- a/src/dynd/int128.cpp
+++ b/src/dynd/int128.cpp
@@ -62,7 +62,7 @@ dynd::int128::int128(const uint128 &value) : m_lo(value.m_lo), m_hi(value.m_hi)
 #endif
 
 dynd::int128::int128(const float16 &value)
-    : m_lo((int64_t)value), m_hi(value.signbit_() ? 0xffffffffffffffffULL : 0UL)
+    : m_lo((int64_t)value), m_hi((int64_t)value < 0 ? 0xffffffffffffffffULL : 0UL)
 {
 }
 
@@ -75,21 +75,16 @@ dynd::int128::int128(const float128 &DYND_UNUSED(value))
 
 int128 dynd::int128::operator*(uint32_t rhs) const
 {
-  if ((int64_t)m_hi < 0) {
-    // TODO: fix case for minimum int, which will recurse forever
-    return -(-(*this) * rhs);
-  } else {
-    // Split the multiplication into three
-    // First product
-    uint64_t lo_partial = (m_lo & 0x00000000ffffffffULL) * rhs;
-    // Second product
-    uint64_t tmp = ((m_lo & 0xffffffff00000000ULL) >> 32) * rhs;
-    uint64_t lo = lo_partial + (tmp << 32);
-    uint64_t hi = (tmp >> 32) + (lo < lo_partial);
-    // Third product
-    hi += m_hi * rhs;
-    return int128(hi, lo);
-  }
+  // Split the multiplication into three
+  // First product
+  uint64_t lo_partial = (m_lo & 0x00000000ffffffffULL) * rhs;
+  // Second product
+  uint64_t tmp = ((m_lo & 0xffffffff00000000ULL) >> 32) * rhs;
+  uint64_t lo = lo_partial + (tmp << 32);
+  uint64_t hi = (tmp >> 32) + (lo < lo_partial);
+  // Third product
+  hi += m_hi * rhs;
+  return int128(hi, lo);
 }
 
 /*
-- 
2.43.0


From 0ae3b5cd8550233d580955e5fe1f8f59c1f4f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 013/176] fix: uint128 arithmetic: negation, !, the borrow of
 -, and conversion from bool and from a negative

---
 include/dynd/uint128.hpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 45ba2dd..eb69aab 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -26,18 +26,18 @@ public:
   uint128() {}
   uint128(uint64_t hi, uint64_t lo) : m_lo(lo), m_hi(hi) {}
 
-  uint128(bool1) { throw std::runtime_error("uint128(bool1) is not implemented"); }
+  uint128(bool1 value) : m_lo(static_cast<bool>(value)), m_hi(0ULL) {}
 
-  uint128(char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(signed char value) : m_lo(value), m_hi(0ULL) {}
+  uint128(char value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
+  uint128(signed char value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(short value) : m_lo(value), m_hi(0ULL) {}
+  uint128(short value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned short value) : m_lo(value), m_hi(0ULL) {}
-  uint128(int value) : m_lo(value), m_hi(0ULL) {}
+  uint128(int value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned int value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long long value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long long value) : m_lo(value), m_hi(0ULL) {}
   uint128(float value);
   uint128(double value);
@@ -59,7 +59,7 @@ public:
   {
     DYND_ALLOW_UNSIGNED_UNARY_MINUS
     if (this->m_lo != 0) {
-      return uint128(!this->m_hi, -this->m_lo);
+      return uint128(~this->m_hi, -this->m_lo);
     }
     else {
       return uint128(-this->m_hi, 0);
@@ -67,7 +67,7 @@ public:
     DYND_END_ALLOW_UNSIGNED_UNARY_MINUS
   }
 
-  bool operator!() const { return (m_hi != 0) && (m_lo != 0); }
+  bool operator!() const { return (m_hi == 0) && (m_lo == 0); }
 
   uint128 operator~() const { return uint128(~m_hi, ~m_lo); }
 
@@ -111,14 +111,12 @@ public:
 
   uint128 operator-(const uint128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return uint128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return uint128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   uint128 operator-(uint64_t rhs) const
   {
-    uint64_t lo = m_lo + ~rhs + 1;
-    return uint128(m_hi + 0xffffffffffffffffULL + (lo < m_lo), lo);
+    return uint128(m_hi - (m_lo < rhs), m_lo - rhs);
   }
 
   uint128 operator*(uint32_t rhs) const;
-- 
2.43.0


From d8147f4c5734f7a559d7f5cdb5e64950fd331feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 014/176] fix: assigning infinity or NaN between floating point
 types is not an overflow nor a loss of precision

---
 include/dynd/assignment.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..7b73729 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -97,7 +97,7 @@ check_cast(ArgType arg, inexact_check_t) {
   //    throw std::runtime_error("inexact precision loss while assigning
   //    double to float");
   //}
-  if (res != arg) {
+  if (res != arg && !isnan(arg)) {
     std::stringstream ss;
     ss << "inexact precision loss while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << arg << " to " << ndt::make_type<RetType>();
@@ -129,7 +129,8 @@ check_cast(ArgType arg, inexact_check_t) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (arg.real() < -std::numeric_limits<float>::max() || arg.real() > std::numeric_limits<float>::max()) {
+  if (isfinite(arg.real()) &&
+      (arg.real() < -std::numeric_limits<float>::max() || arg.real() > std::numeric_limits<float>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << arg << " to " << ndt::make_type<float>();
@@ -138,7 +139,7 @@ check_cast(ArgType arg, inexact_check_t) {
   res = static_cast<float>(arg.real());
 #endif // DYND_USE_FPSTATUS
 
-  if (res != arg.real()) {
+  if (res != arg.real() && !isnan(arg.real())) {
     std::stringstream ss;
     ss << "inexact precision loss while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << arg << " to " << ndt::make_type<float>();
@@ -173,7 +174,7 @@ check_cast(ArgType s, inexact_check_t DYND_UNUSED(check)) {
   d = static_cast<typename RetType::value_type>(s);
 #endif // DYND_USE_FPSTATUS
 
-  if (d != s) {
+  if (d != s && !isnan(s)) {
     std::stringstream ss;
     ss << "inexact precision loss while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -198,8 +199,10 @@ check_cast(ArgType s, inexact_check_t DYND_UNUSED(check)) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
@@ -215,7 +218,7 @@ check_cast(ArgType s, inexact_check_t DYND_UNUSED(check)) {
   //    throw std::runtime_error("inexact precision loss while assigning
   //    double to float");
   //}
-  if (d.real() != s.real() || d.imag() != s.imag()) {
+  if ((d.real() != s.real() && !isnan(s.real())) || (d.imag() != s.imag() && !isnan(s.imag()))) {
     std::stringstream ss;
     ss << "inexact precision loss while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
@@ -438,7 +441,8 @@ std::enable_if_t<is_floating_point<RetType>::value && is_complex<ArgType>::value
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max()) {
+  if (isfinite(s.real()) &&
+      (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -493,8 +497,10 @@ overflow_cast(ArgType s) {
   }
   return d;
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
-- 
2.43.0


From c85883f4668b3c7a87b2874149aa58c0d30c86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 015/176] fix: report a NaN, or a value that rounds to one past
 the largest int, assigned to an int as an overflow

---
 include/dynd/assignment.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 7b73729..084c29f 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -243,12 +243,21 @@ check_cast(ArgType s, inexact_check_t) {
   return d;
 }
 
+// Whether a floating point value, NaN included, is out of the range of an int. The largest int, when
+// it has to be rounded to be a floating point value, is rounded up to the first value out of range.
+template <typename IntType, typename RealType>
+bool is_real_overflow(RealType s) {
+  return !(static_cast<RealType>(std::numeric_limits<IntType>::min()) <= s &&
+           s <= static_cast<RealType>(std::numeric_limits<IntType>::max()) &&
+           s < std::ldexp(static_cast<RealType>(1), 8 * sizeof(IntType) - (is_signed<IntType>::value ? 1 : 0)));
+}
+
 // Floating point -> signed int with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
+  if (is_real_overflow<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -271,7 +280,7 @@ overflow_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
+  if (is_real_overflow<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -288,7 +297,7 @@ std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && i
                  RetType>
 overflow_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
+  if (is_real_overflow<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -309,7 +318,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
+  if (is_real_overflow<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -515,7 +524,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
+  if (is_real_overflow<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -544,7 +553,7 @@ fractional_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
+  if (is_real_overflow<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -567,7 +576,7 @@ std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && i
                  RetType>
 fractional_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
+  if (is_real_overflow<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -596,7 +605,7 @@ fractional_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
+  if (is_real_overflow<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
-- 
2.43.0


From 2f2e53789cf7512c9f2efb88afbeba1bfa6fa693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 016/176] fix: float16 operator! and conversion to bool, which
 took every value for non-zero

---
 include/dynd/float16.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/float16.hpp b/include/dynd/float16.hpp
index d4f320c..430426d 100644
--- a/include/dynd/float16.hpp
+++ b/include/dynd/float16.hpp
@@ -202,9 +202,9 @@ public:
 
   float16 operator-() const { return float16(-static_cast<float>(*this)); }
 
-  bool operator!() const { return (0x7fffu | m_bits) == 0; }
+  bool operator!() const { return (0x7fffu & m_bits) == 0; }
 
-  explicit operator bool() const { return (0x7ffu | m_bits) != 0; }
+  explicit operator bool() const { return (0x7fffu & m_bits) != 0; }
 };
 
 inline float16 operator+(const float16 &DYND_UNUSED(lhs), const float16 &DYND_UNUSED(rhs))
-- 
2.43.0


From aaf2d25e20418aeeba06792dfdd67572fc531a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 017/176] fix: stop searching for a single character at the end
 of the string

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 60111e7..5662e80 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -43,7 +43,7 @@ namespace detail {
     else {
       const char *s = haystack;
       while (s < haystack + n) {
-        void *candidate = memchr((void *)s, needle, n);
+        void *candidate = memchr((void *)s, needle, haystack + n - s);
         if (candidate == NULL) {
           return;
         }
-- 
2.43.0


From 787bba5fc6978dc45c2cf520cabcbcd4f33ccc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 018/176] fix: search backwards for a single character, which
 only looked at one-character strings

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 5662e80..7611da4 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -59,7 +59,7 @@ namespace detail {
   template <class match_handler>
   void string_search_1char_reverse(const char *haystack, size_t n, char needle, match_handler &handle_match)
   {
-    for (size_t i = n - 1; i <= 0; --i) {
+    for (size_t i = n; i-- > 0;) {
       if (haystack[i] == needle) {
         if (handle_match(i)) {
           return;
-- 
2.43.0


From 4552e730723d4e61da7fc90836562bd6378a6767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 019/176] fix: do not skip characters after a match when
 searching on, which missed adjacent matches

---
 include/dynd/string_search.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 7611da4..39b5707 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -147,6 +147,7 @@ namespace detail {
             return;
           }
           i = i + mlast;
+          continue;
         }
         /* miss: check if next character is part of pattern */
         if (i < w && !bloom.has_char(ss[i + 1])) {
-- 
2.43.0


From 9ec824d8679d5f7bcddd81c4f7ac44615296e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 020/176] fix: resizing a short string from a size with bits
 the new size does not have

---
 include/dynd/types/sso_bytestring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..ee610a0 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -180,7 +180,8 @@ public:
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffull) |
+                                    (static_cast<uint64_t>(new_size) << 56));
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From 9d6960bcaa5420ff46b85b6215bdeb58fd4857a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 021/176] fix: assigning a short string to itself, or a part of
 a string to it, which lost bytes

---
 include/dynd/types/sso_bytestring.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index ee610a0..a9a97d7 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -34,10 +34,12 @@ protected:
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
+      // `data` may be in this object, and m_size overlaps the data
+      memmove(sso_data(), data, size);
       // Zero out the rest of the bytes for a unique representation
       memset(sso_data() + size, 0, 15u - size);
+      m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffull) |
+                                    (static_cast<uint64_t>(size) << 56));
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -116,7 +118,7 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
-- 
2.43.0


From 8d05d9dab9ccf8f0e2eb0c4619258611f513bd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 022/176] fix: appending a string to itself, which read freed
 or overwritten memory

---
 include/dynd/types/sso_bytestring.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index a9a97d7..65197f4 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -148,8 +148,11 @@ public:
 
   void append(const char *bytestr, size_t bssize) {
     size_t old_size = size();
+    // `bytestr` may be in this bytestring, whose data moves when it grows
+    bool is_inside = bytestr >= data() && bytestr < data() + old_size;
+    size_t offset = is_inside ? bytestr - data() : 0;
     resize_grow(old_size + bssize);
-    DYND_MEMCPY(data() + old_size, bytestr, bssize);
+    DYND_MEMCPY(data() + old_size, is_inside ? data() + offset : bytestr, bssize);
   }
 
   void clear() {
-- 
2.43.0


From b6166328759a983ca65729d57bf8c777a825c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 023/176] fix: order strings by code point, not by the sign of
 char

---
 include/dynd/kernels/total_order_kernel.hpp |  4 +---
 include/dynd/types/string_type.hpp          | 14 ++++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/dynd/kernels/total_order_kernel.hpp b/include/dynd/kernels/total_order_kernel.hpp
index 23fb76c..f201546 100644
--- a/include/dynd/kernels/total_order_kernel.hpp
+++ b/include/dynd/kernels/total_order_kernel.hpp
@@ -33,9 +33,7 @@ namespace nd {
   template <>
   struct total_order_kernel<string, string> : base_strided_kernel<total_order_kernel<string, string>, 2> {
     void single(char *dst, char *const *src) {
-      *reinterpret_cast<int *>(dst) = std::lexicographical_compare(
-          reinterpret_cast<string *>(src[0])->begin(), reinterpret_cast<string *>(src[0])->end(),
-          reinterpret_cast<string *>(src[1])->begin(), reinterpret_cast<string *>(src[1])->end());
+      *reinterpret_cast<int *>(dst) = *reinterpret_cast<string *>(src[0]) < *reinterpret_cast<string *>(src[1]);
     }
   };
 
diff --git a/include/dynd/types/string_type.hpp b/include/dynd/types/string_type.hpp
index aff14c5..564ee57 100644
--- a/include/dynd/types/string_type.hpp
+++ b/include/dynd/types/string_type.hpp
@@ -16,6 +16,12 @@
 namespace dynd {
 
 class DYNDT_API string : public sso_bytestring<1> {
+  /** Compares unsigned bytes, so that the order is the one of the code points */
+  static bool less(const string &lhs, const string &rhs) {
+    int res = memcmp(lhs.data(), rhs.data(), std::min(lhs.size(), rhs.size()));
+    return res < 0 || (res == 0 && lhs.size() < rhs.size());
+  }
+
 public:
   /** Default-constructs to an empty string */
   string() {}
@@ -43,19 +49,19 @@ public:
   }
 
   bool operator<(const string &rhs) const {
-    return std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
+    return less(*this, rhs);
   }
 
   bool operator<=(const string &rhs) const {
-    return !std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
+    return !less(rhs, *this);
   }
 
   bool operator>=(const string &rhs) const {
-    return !std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
+    return !less(*this, rhs);
   }
 
   bool operator>(const string &rhs) const {
-    return std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
+    return less(rhs, *this);
   }
 
   string operator+(const string &rhs) {
-- 
2.43.0


From 5a597a5c5c46adbb78e3be864ee787b15b65049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 024/176] fix: step over invalid UTF-8 when it is substituted,
 which looped forever

---
 src/dynd/string_encodings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..25d2133 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,7 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
@@ -156,9 +157,11 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
         ++it;
         return cp;
       } else {
+        ++it;
         return ERROR_SUBSTITUTE_CODEPOINT;
       }
     } else {
+      ++it;
       return ERROR_SUBSTITUTE_CODEPOINT;
     }
   } else {
-- 
2.43.0


From 10545faedd75fdaf443ab0089b3204c01ba27e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 025/176] fix: do not read past the end of UTF-16 that ends in
 a lead surrogate

---
 src/dynd/string_encodings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 25d2133..6473687 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -241,7 +241,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From 12c502e473343255f2a00b21d770f26018d4f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 026/176] fix: refuse an assignment between types that have
 none instead of recursing without end

---
 include/dynd/callables/assign_callable.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 5e2c0ad..9168150 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -943,6 +943,11 @@ namespace nd {
           dst_tp.get_id() == option_id ? dst_tp.extended<ndt::option_type>()->get_value_type() : dst_tp;
       ndt::type val_src_tp =
           src_tp[0].get_id() == option_id ? src_tp[0].extended<ndt::option_type>()->get_value_type() : src_tp[0];
+      if (dst_tp.get_id() != option_id && src_tp[0].get_id() != option_id) {
+        std::stringstream ss;
+        ss << "cannot assign from " << src_tp[0] << " to " << dst_tp;
+        throw type_error(ss.str());
+      }
       assign->resolve(this, nullptr, cg, val_dst_tp, 1, &val_src_tp, nkwd, kwds, tp_vars);
 
       return dst_tp;
-- 
2.43.0


From ed5d2ff25b8682fd88a4d6e416f0e0939e0d26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 027/176] fix: do not keep a pointer to the argument types of
 an assignment past the call that resolves it

---
 include/dynd/callables/assign_callable.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 9168150..1db60da 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -81,13 +81,14 @@ namespace nd {
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      ndt::type src0_tp = src_tp[0];
       switch (error_mode) {
       case assign_error_default:
       case assign_error_nocheck:
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -95,7 +96,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src0_tp,
                                                                                            src_arrmeta[0]);
         });
         break;
@@ -103,7 +104,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src0_tp,
                                                                                              src_arrmeta[0]);
         });
         break;
@@ -111,7 +112,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -284,10 +285,11 @@ namespace nd {
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
+      ndt::type src0_tp = src_tp[0];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
-        const ndt::fixed_string_type *src_fs = src_tp[0].extended<ndt::fixed_string_type>();
+        const ndt::fixed_string_type *src_fs = src0_tp.extended<ndt::fixed_string_type>();
         kb.emplace_back<
             detail::assignment_kernel<ndt::fixed_string_type, ndt::fixed_string_type, assign_error_nocheck>>(
             kernreq, get_next_unicode_codepoint_function(src_fs->get_encoding(), error_mode),
@@ -312,11 +314,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      type_id_t src0_id = src_tp[0].get_id();
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
         kb.emplace_back<detail::assignment_kernel<string, int8_t, assign_error_nocheck>>(
-            kernreq, dst_tp, src_tp[0].get_id(), dst_arrmeta);
+            kernreq, dst_tp, src0_id, dst_arrmeta);
       });
 
       return dst_tp;
@@ -419,10 +422,11 @@ namespace nd {
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
+      ndt::type src0_tp = src_tp[0];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *src_arrmeta) {
-        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src_tp[0],
+        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                         src_arrmeta[0], error_mode);
       });
 
-- 
2.43.0


From d2f815cb0db5baea2a657556952598e5c5b0dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 028/176] fix: a fixed_string which fills its destination
 exactly is not too large for it

---
 include/dynd/kernels/assignment_kernels.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 78bcd5b..de6ee64 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1325,7 +1325,7 @@ namespace nd {
           }
         }
         if (src_copy < src_end) {
-          if (m_overflow_check) {
+          if (m_overflow_check && next_fn(const_cast<const char *&>(src_copy), src_end) != 0) {
             throw std::runtime_error("Input string is too large to convert to "
                                      "destination fixed-size string");
           }
-- 
2.43.0


From 56079df62373981c0ecef8d26abe3ed99f340b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 029/176] fix: the size of a strided slice overflowed for a
 large step

---
 src/dynd/shape_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index db02636..712a501 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -365,7 +365,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + step - 1) / step;
+        out_dimension_size = (size - 1) / step + 1;
       }
     }
     else {
@@ -458,7 +458,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + (-step) - 1) / (-step);
+        out_dimension_size = -((size - 1) / step) + 1;
       }
     }
     else {
-- 
2.43.0


From 4af39aaf02f86e8354558bf046cb5159d647fca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 030/176] fix: index the fields of the original type when
 slicing a tuple or struct with more indices

---
 src/dynd/types/struct_type.cpp | 5 +++--
 src/dynd/types/tuple_type.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index f7ffcfe..72537b5 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -264,10 +264,11 @@ intptr_t ndt::struct_type::apply_linear_index(intptr_t nindices, const irange *i
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &dt = result_e_dt->get_field_type(i);
+        const type &dt = get_field_type(idx);
         if (!dt.is_builtin()) {
           out_offsets[i] +=
-              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], dt,
+              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx],
+                                                result_e_dt->get_field_type(i),
                                                 out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
                                                 current_i + 1, root_tp, false, NULL, tmp);
         }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index bcb2589..2bd2202 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -171,10 +171,11 @@ intptr_t ndt::tuple_type::apply_linear_index(intptr_t nindices, const irange *in
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &ft = result_e_dt->get_field_type(i);
+        const type &ft = get_field_type(idx);
         if (!ft.is_builtin()) {
           out_offsets[i] +=
-              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], ft,
+              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx],
+                                                result_e_dt->get_field_type(i),
                                                 out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
                                                 current_i + 1, root_tp, false, NULL, tmp);
         }
-- 
2.43.0


From a6b1e91f89dce934a24855332ef48e7aea45facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 031/176] fix: the elements of a variable dimension may outlive
 the array whose metadata their memory block used

---
 .../memblock/objectarray_memory_block.hpp     | 20 ++++++++++---------
 src/dynd/types/var_dim_type.cpp               |  3 +--
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 15c7e9f..e0deeff 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -26,7 +26,6 @@ namespace nd {
    * The initial count of elements can be set if a good estimate is known.
    *
    * \param dt  The data type of the objects to allocate.
-   * \param arrmeta  The arrmeta corresponding to the data type for the objects to allocate.
    * \param stride  For objects without a fixed size, the size of the memory to allocate
    *                for each element. This would be typically set to the value for
    *                get_default_data_size() corresponding to default-constructed arrmeta.
@@ -34,8 +33,8 @@ namespace nd {
    */
   class objectarray_memory_block : public base_memory_block {
     ndt::type m_dt;
-    size_t arrmeta_size;
-    const char *m_arrmeta;
+    /** Default-constructed arrmeta of the elements, without block references (the block may outlive any array) */
+    char *m_arrmeta;
     intptr_t m_stride;
     size_t m_total_allocated_count;
     bool m_finalized;
@@ -43,10 +42,9 @@ namespace nd {
     std::vector<memory_chunk> m_memory_handles;
 
   public:
-    objectarray_memory_block(const ndt::type &dt, size_t arrmeta_size, const char *arrmeta, intptr_t stride,
-                             intptr_t initial_count)
-        : m_dt(dt), arrmeta_size(arrmeta_size), m_arrmeta(arrmeta), m_stride(stride), m_total_allocated_count(0),
-          m_finalized(false), m_memory_handles() {
+    objectarray_memory_block(const ndt::type &dt, intptr_t stride, intptr_t initial_count)
+        : m_dt(dt), m_arrmeta(NULL), m_stride(stride), m_total_allocated_count(0), m_finalized(false),
+          m_memory_handles() {
       if ((dt.get_flags() & type_flag_destructor) == 0) {
         std::stringstream ss;
         ss << "Cannot create objectarray memory block with dynd type " << dt;
@@ -54,14 +52,18 @@ namespace nd {
         throw std::runtime_error(ss.str());
       }
       append_memory(initial_count);
+      m_arrmeta = new char[dt.get_arrmeta_size()]();
+      dt.extended()->arrmeta_default_construct(m_arrmeta, false);
     }
 
     ~objectarray_memory_block() {
       for (size_t i = 0, i_end = m_memory_handles.size(); i != i_end; ++i) {
         memory_chunk &mc = m_memory_handles[i];
-        m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
         free(mc.memory);
       }
+      m_dt.extended()->arrmeta_destruct(m_arrmeta);
+      delete[] m_arrmeta;
     }
 
     /**
@@ -136,7 +138,7 @@ namespace nd {
           mc->used_count += (count - previous_count);
         } else {
           // Call the destructor on the elements no longer used
-          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, previous_allocated + m_stride * count,
+          m_dt.extended()->data_destruct_strided(m_arrmeta, previous_allocated + m_stride * count,
                                                  m_stride, previous_count - count);
           mc->used_count -= (previous_count - count);
         }
diff --git a/src/dynd/types/var_dim_type.cpp b/src/dynd/types/var_dim_type.cpp
index fbaba7e..3fdded2 100644
--- a/src/dynd/types/var_dim_type.cpp
+++ b/src/dynd/types/var_dim_type.cpp
@@ -318,8 +318,7 @@ void ndt::var_dim_type::arrmeta_default_construct(char *arrmeta, bool blockref_a
   if (blockref_alloc) {
     uint32_t flags = m_element_tp.get_flags();
     if (flags & type_flag_destructor) {
-      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, sizeof(metadata_type), arrmeta,
-                                                                         element_size, 64);
+      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, element_size, 64);
     } else if (flags & type_flag_zeroinit) {
       md->blockref = nd::make_memory_block<nd::zeroinit_memory_block>(m_element_tp);
     } else {
-- 
2.43.0


From e0c112d2dfe9395057a64c7deffa8c0d6a5a3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 032/176] fix: objectarray_memory_block::resize moved too
 little, and used a chunk which had moved

---
 include/dynd/memblock/objectarray_memory_block.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index e0deeff..3b5d432 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -116,11 +116,12 @@ namespace nd {
       if (mc->capacity_count - previous_index < count) {
         append_memory(std::max(m_total_allocated_count, count));
         memory_chunk *new_mc = &m_memory_handles.back();
+        mc = new_mc - 1;
         // Move the old memory to the newly allocated block
         if (previous_count > 0) {
           // Subtract the previously used memory from the old chunk's count
           mc->used_count -= previous_count;
-          memcpy(new_mc->memory, previous_allocated, previous_count);
+          memcpy(new_mc->memory, previous_allocated, m_stride * previous_count);
           // If the old memory only had the memory being resized,
           // free it completely.
           if (previous_allocated == mc->memory) {
@@ -148,7 +149,7 @@ namespace nd {
         // Zero-init the new memory
         intptr_t new_count = count - (intptr_t)previous_count;
         if (new_count > 0) {
-          memset(mc->memory + m_stride * previous_count, 0, m_stride * new_count);
+          memset(result + m_stride * previous_count, 0, m_stride * new_count);
         }
       } else {
         // TODO: Add a default data constructor to base_type
-- 
2.43.0


From 1190d23ba3e5d0bdd13fe26175dd567f36b40802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 033/176] fix: reshape to zero dimensions or to negative sizes

---
 src/dynd/array.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 8bd213a..0bb39cc 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -860,6 +860,9 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
   }
   intptr_t size = 1;
   for (intptr_t i = 0; i < ndim; ++i) {
+    if (shape(i).as<intptr_t>() < 0) {
+      throw invalid_argument("dynd reshape: cannot reshape to a negative size");
+    }
     size *= shape(i).as<intptr_t>();
   }
 
@@ -872,7 +875,9 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
   }
 
   dimvector strides(ndim);
-  strides[ndim - 1] = a.get_dtype().get_data_size();
+  if (ndim > 0) {
+    strides[ndim - 1] = a.get_dtype().get_data_size();
+  }
   for (intptr_t i = ndim - 2; i >= 0; --i) {
     strides[i] = shape(i + 1).as<intptr_t>() * strides[i + 1];
   }
-- 
2.43.0


From 38e2fe527bcf89398a3744cc4187980e0e571325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 034/176] fix: permuting several separate groups of axes, or
 none

---
 src/dynd/array.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 0bb39cc..4b51204 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -479,9 +479,10 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
     // If there are more permutation axes left, process the subtype
     if (max_i < pdd->ndim - 1) {
       pdd->i = max_i + 1;
-      tp.extended()->transform_child_types(&permute_type_dims,
-                                           arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, subtp,
-                                           out_was_transformed);
+      ndt::type original_subtp = subtp;
+      permute_type_dims(original_subtp, arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, subtp,
+                        out_was_transformed);
+      pdd->i = i;
     }
     // Apply the permutation
     dimvector shape(perm_ndim), permuted_shape(perm_ndim);
@@ -516,6 +517,10 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
     throw invalid_argument(ss.str());
   }
 
+  if (ndim == 0) {
+    return *this;
+  }
+
   // Make a shallow copy of the arrmeta. When we permute the type,
   // its arrmeta has identical structure, so we can fix it up
   // while we're transforming the type.
-- 
2.43.0


From 16d4e4b781235a3eb6e3097835ed6cffd9745b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 035/176] fix: permuting with a leading axis that stays in
 place

---
 src/dynd/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 4b51204..332e597 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -449,7 +449,7 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
       // No more perm dimensions left, leave type as is
       out_transformed_tp = tp;
     } else {
-      if (tp.get_base_id() == dim_kind_id) {
+      if (tp.get_base_id() == dim_kind_id || tp.get_base_id() == fixed_dim_kind_id) {
         ++pdd->i;
       }
       tp.extended()->transform_child_types(&permute_type_dims, arrmeta_offset, extra, out_transformed_tp,
-- 
2.43.0


From 9352a8034d98b13dfd5459c38d2eb810e7a26e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 036/176] fix: elementwise calls gave the element metadata of a
 broadcast dimension the wrong position

---
 .../dynd/callables/base_elwise_callable.hpp   |  9 ++++---
 include/dynd/callables/elwise_callable.hpp    | 27 +++++++++----------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..aa140e7 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -29,6 +29,7 @@ namespace nd {
       struct data_type {
         std::array<bool, N> arg_broadcast;
         std::array<bool, N> arg_var;
+        std::array<size_t, N> arg_arrmeta_size; // arrmeta of the dimension itself, 0 where the argument does not have it
         intptr_t res_alignment;
         size_t ndim;
         bool res_ignore;
@@ -58,10 +59,14 @@ namespace nd {
         intptr_t max_ndim = reinterpret_cast<codata_type *>(codata)->ndim;
         for (size_t i = 0; i < N; ++i) {
           data.arg_broadcast[i] = (arg_tp[i].get_ndim() - child_arg_tp[i].get_ndim()) < max_ndim;
+          data.arg_var[i] = !data.arg_broadcast[i] && arg_tp[i].get_id() == var_dim_id;
           if (data.arg_broadcast[i]) {
+            data.arg_arrmeta_size[i] = 0;
             arg_size[i] = 1;
             arg_element_tp[i] = arg_tp[i];
           } else {
+            data.arg_arrmeta_size[i] =
+                data.arg_var[i] ? sizeof(ndt::var_dim_type::metadata_type) : sizeof(size_stride_t);
             arg_size[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_dim_size();
             if (arg_size[i] == 1) {
               data.arg_broadcast[i] = true;
@@ -70,10 +75,6 @@ namespace nd {
           }
         }
 
-        for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
-        }
-
         intptr_t res_size;
         ndt::type res_element_tp;
         if (res_ignore) {
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..e0631ad 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -49,10 +49,11 @@ namespace nd {
       void subresolve(call_graph &cg, const char *data) {
         bool res_broadcast = reinterpret_cast<const data_type *>(data)->res_ignore;
         const std::array<bool, N> &arg_broadcast = reinterpret_cast<const data_type *>(data)->arg_broadcast;
+        const std::array<size_t, N> &arg_arrmeta_size = reinterpret_cast<const data_type *>(data)->arg_arrmeta_size;
 
-        cg.emplace_back([res_broadcast, arg_broadcast](kernel_builder &kb, kernel_request_t kernreq, char *data,
-                                                       const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
-                                                       const char *const *src_arrmeta) {
+        cg.emplace_back([res_broadcast, arg_broadcast, arg_arrmeta_size](
+            kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
+            size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
           size_t size;
           if (res_broadcast) {
             size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
@@ -75,11 +76,10 @@ namespace nd {
           for (size_t i = 0; i < N; ++i) {
             if (arg_broadcast[i]) {
               src_stride[i] = 0;
-              child_src_arrmeta[i] = src_arrmeta[i];
             } else {
               src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-              child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
+            child_src_arrmeta[i] = src_arrmeta[i] + arg_arrmeta_size[i];
           }
 
           kb.emplace_back<elwise_kernel<fixed_dim_id, fixed_dim_id, TraitsType, N>>(kernreq, data, size, dst_stride,
@@ -103,10 +103,11 @@ namespace nd {
       void subresolve(call_graph &cg, const char *data) {
         std::array<bool, N> arg_broadcast = reinterpret_cast<const data_type *>(data)->arg_broadcast;
         std::array<bool, N> arg_var = reinterpret_cast<const data_type *>(data)->arg_var;
+        std::array<size_t, N> arg_arrmeta_size = reinterpret_cast<const data_type *>(data)->arg_arrmeta_size;
 
-        cg.emplace_back([arg_broadcast, arg_var](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-                                                 const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
-                                                 const char *const *src_arrmeta) {
+        cg.emplace_back([arg_broadcast, arg_var, arg_arrmeta_size](
+            kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
+            size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
           intptr_t dst_size = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->dim_size;
           intptr_t dst_stride = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->stride;
 
@@ -118,18 +119,16 @@ namespace nd {
                   reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[i]);
               src_stride[i] = src_md->stride;
               src_offset[i] = src_md->offset;
-              child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
             } else {
               if (arg_broadcast[i]) {
                 src_offset[i] = 0;
                 src_stride[i] = 0;
-                child_src_arrmeta[i] = src_arrmeta[i];
               } else {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
               }
             }
+            child_src_arrmeta[i] = src_arrmeta[i] + arg_arrmeta_size[i];
           }
 
           kb.emplace_back<elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, N>>(
@@ -160,9 +159,10 @@ namespace nd {
       void subresolve(call_graph &cg, const char *data) {
         std::array<bool, N> arg_broadcast = reinterpret_cast<const node_type *>(data)->arg_broadcast;
         std::array<bool, N> arg_var = reinterpret_cast<const node_type *>(data)->arg_var;
+        std::array<size_t, N> arg_arrmeta_size = reinterpret_cast<const node_type *>(data)->arg_arrmeta_size;
         intptr_t res_alignment = reinterpret_cast<const node_type *>(data)->res_alignment;
 
-        cg.emplace_back([arg_broadcast, arg_var, res_alignment](
+        cg.emplace_back([arg_broadcast, arg_var, arg_arrmeta_size, res_alignment](
             kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
             size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
 
@@ -179,13 +179,11 @@ namespace nd {
                   reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[i]);
               src_stride[i] = src_md->stride;
               src_offset[i] = src_md->offset;
-              child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
               //            src_size[i] = -1;
             } else {
               if (arg_broadcast[i]) {
                 src_stride[i] = 0;
                 src_offset[i] = 0;
-                child_src_arrmeta[i] = src_arrmeta[i];
                 src_size[i] = 1;
               } else {
                 src_offset[i] = 0;
@@ -193,6 +191,7 @@ namespace nd {
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
               }
             }
+            child_src_arrmeta[i] = src_arrmeta[i] + arg_arrmeta_size[i];
           }
 
           kb.emplace_back<elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, N>>(
-- 
2.43.0


From 436ddca5b9256465e01a90c4ed1e3c2b11c88e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 037/176] fix: assigning tuples and structs with more than 8
 fields, or with the fields in another order

---
 include/dynd/callables/assign_callable.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 1db60da..1df2f8d 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -689,8 +689,8 @@ namespace nd {
         throw type_error(ss.str());
       }
 
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
-      std::array<uintptr_t, 8> src_arrmeta_offsets;
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> src_arrmeta_offsets(field_count);
       for (int i = 0; i < field_count; ++i) {
         src_arrmeta_offsets[i] = src_sd->get_arrmeta_offsets()[i];
         dst_arrmeta_offsets[i] = dst_sd->get_arrmeta_offsets()[i];
@@ -750,9 +750,9 @@ namespace nd {
       const ndt::struct_type *dst_sd = dst_tp.extended<ndt::struct_type>();
       const ndt::struct_type *src_sd = src_tp[0].extended<ndt::struct_type>();
       intptr_t field_count = dst_sd->get_field_count();
-      std::array<intptr_t, 8> src_permutation;
-      std::array<uintptr_t, 8> src_fields_arrmeta_offsets;
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
+      std::vector<intptr_t> src_permutation(field_count);
+      std::vector<uintptr_t> src_fields_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
 
       if (field_count != src_sd->get_field_count()) {
         std::stringstream ss;
@@ -798,7 +798,7 @@ namespace nd {
         for (intptr_t i = 0; i != field_count; ++i) {
           intptr_t src_i = src_permutation[i];
           src_data_offsets[i] = src_data_offsets_orig[src_i];
-          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[src_i];
+          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[i];
         }
 
         shortvector<const char *> dst_fields_arrmeta(field_count);
-- 
2.43.0


From 54f977530aab7e4d8fedae388d6bf41afead73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 038/176] fix: comparing tuples and structs elementwise, with
 more than 8 fields or with different fields

---
 include/dynd/callables/equal_callable.hpp     | 36 +++++++++----------
 include/dynd/callables/not_equal_callable.hpp | 36 +++++++++----------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..8f4652f 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -32,14 +32,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count()) != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -60,9 +60,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,14 +88,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count()) != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -116,9 +116,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..dc1ca09 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -32,14 +32,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count()) != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -60,9 +60,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,14 +88,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count()) != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -116,9 +116,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
-- 
2.43.0


From 97b4e7e1b6b255b14a01f972c854af04b0364a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 039/176] fix: integer division and modulo check the divisor
 for zero by the divisor's own type

---
 include/dynd/kernels/arithmetic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..61ffefb 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,7 +163,7 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
   }
 
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
-- 
2.43.0


From 655d94276d715baa02abaa12dd3cba68ac9b4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 040/176] fix: complex numbers compared by != with a real
 number are unequal where they differ

---
 include/dynd/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/complex.hpp b/include/dynd/complex.hpp
index 8de7b49..1b69cf2 100644
--- a/include/dynd/complex.hpp
+++ b/include/dynd/complex.hpp
@@ -254,7 +254,7 @@ bool operator!=(complex<T> lhs, complex<U> rhs) {
 
 template <typename T, typename U>
 bool operator!=(complex<T> lhs, U rhs) {
-  return lhs.m_real == rhs && !lhs.m_imag;
+  return !(lhs.m_real == rhs && !lhs.m_imag);
 }
 
 template <typename T>
-- 
2.43.0


From 61fef47d641418dce692f12fd83fa0ba41195441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 041/176] fix: a destination whose type is not the result type
 is refused instead of overwritten with other bytes

---
 include/dynd/callables/base_dispatch_callable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/callables/base_dispatch_callable.hpp b/include/dynd/callables/base_dispatch_callable.hpp
index d69e080..9e0d4e9 100644
--- a/include/dynd/callables/base_dispatch_callable.hpp
+++ b/include/dynd/callables/base_dispatch_callable.hpp
@@ -8,6 +8,7 @@
 #include <dynd/callable.hpp>
 #include <dynd/callables/base_callable.hpp>
 #include <dynd/callables/call_graph.hpp>
+#include <dynd/exceptions.hpp>
 
 namespace dynd {
 namespace nd {
@@ -20,6 +21,11 @@ namespace nd {
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
       const callable &child = specialize(dst_tp, nsrc, src_tp);
+      if (!dst_tp.is_symbolic() && !child->get_ret_type().match(dst_tp)) {
+        std::stringstream ss;
+        ss << "cannot store a result of type " << child->get_ret_type() << " in a destination of type " << dst_tp;
+        throw type_error(ss.str());
+      }
       return child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, nsrc, src_tp,
                             nkwd, kwds, tp_vars);
     }
-- 
2.43.0


From 302364e61f7f5bd7aa1334c1a3e51f1d39e88c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 042/176] fix: assigning fixed_bytes values of the same size
 copies them instead of always throwing

---
 include/dynd/callables/assign_callable.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 1df2f8d..7bf7085 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -132,11 +132,20 @@ namespace nd {
               ndt::make_type<ndt::fixed_bytes_kind_type>(), {ndt::make_type<ndt::fixed_bytes_kind_type>()},
               {{ndt::make_type<ndt::option_type>(ndt::make_type<assign_error_mode>()), "error_mode"}})) {}
 
-    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &DYND_UNUSED(cg),
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
+    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      throw std::runtime_error("cannot assign to a fixed_bytes type of a different size");
+      size_t data_size = dst_tp.get_data_size();
+      if (src_tp[0].get_data_size() != data_size) {
+        throw std::runtime_error("cannot assign to a fixed_bytes type of a different size");
+      }
+
+      cg.emplace_back([data_size](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+                                  const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
+                                  const char *const *DYND_UNUSED(src_arrmeta)) {
+        kb.emplace_back<unaligned_copy_ck>(kernreq, data_size);
+      });
 
       return dst_tp;
     }
-- 
2.43.0


From 3112378d8ca93b29aff5500abffb092aaa5b8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 043/176] fix: an operator on a variable dimension and a scalar
 gets the kernel of the result type it declares

---
 .../callables/elwise_dispatch_callable.hpp    | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..c6a7c13 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -44,31 +44,29 @@ namespace nd {
 
         // Do a pass through the src types to classify them
         const std::vector<ndt::type> &child_arg_tp = child_tp->get_argument_types();
-        bool src_all_strided = true, src_all_strided_or_var = true;
+        intptr_t ndim = reinterpret_cast<data_type *>(data)->ndim;
+        bool src_all_strided = true, src_all_strided_or_var = true, var_broadcast = true;
         for (size_t i = 0; i < nsrc; ++i) {
           intptr_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          if (src_ndim < ndim) {
+            // It does not have the dimension being processed, so it broadcasts
+            // like a strided dimension of size one
+            continue;
+          }
           switch (src_tp[i].get_id()) {
           case fixed_dim_id:
+            var_broadcast &= src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1;
             break;
           case var_dim_id:
             src_all_strided = false;
             break;
           default:
-            // If it's a scalar, allow it to broadcast like
-            // a strided dimension
-            if (src_ndim > 0) {
-              src_all_strided_or_var = false;
-            }
+            src_all_strided_or_var = false;
+            var_broadcast = false;
             break;
           }
         }
-
-        bool var_broadcast = !src_all_strided;
-        for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
-                           (src_tp[i].get_id() == fixed_dim_id &&
-                            src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
-        }
+        var_broadcast &= !src_all_strided;
 
         if ((dst_variadic || (dst_tp.get_id() == fixed_dim_id || res_ignore)) && src_all_strided) {
           static callable f = make_callable<elwise_callable<fixed_dim_id, fixed_dim_id, no_traits, N>>();
-- 
2.43.0


From 5e4434e33d1d0dbcea176b40f95bb617d53d197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 044/176] fix: an operator with no overload for its scalar
 arguments throws instead of recursing until the stack overflows

---
 include/dynd/callables/elwise_entry_callable.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/dynd/callables/elwise_entry_callable.hpp b/include/dynd/callables/elwise_entry_callable.hpp
index 051cb22..4f458c9 100644
--- a/include/dynd/callables/elwise_entry_callable.hpp
+++ b/include/dynd/callables/elwise_entry_callable.hpp
@@ -71,6 +71,18 @@ namespace nd {
         }
 
         if (data.ndim == 0) {
+          if (!m_child) {
+            // There is no dimension to peel off, so the caller would only pick
+            // this callable for the same types again
+            std::stringstream ss;
+            ss << "no overload for the argument types (";
+            for (size_t i = 0; i < nsrc; ++i) {
+              ss << (i == 0 ? "" : ", ") << src_tp[i];
+            }
+            ss << ")";
+            throw type_error(ss.str());
+          }
+
           return data.child->resolve(this, nullptr, cg, dst_tp.is_variadic() ? child_ret_tp : dst_tp, nsrc, src_tp,
                                      nkwd, kwds, tp_vars);
         }
-- 
2.43.0


From bf2534acabfab47889ac208c1b557eea9cc8e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 045/176] fix: an elementwise call of more than seven arguments
 is refused instead of reading past a table

---
 include/dynd/callables/elwise_entry_callable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynd/callables/elwise_entry_callable.hpp b/include/dynd/callables/elwise_entry_callable.hpp
index 4f458c9..159b464 100644
--- a/include/dynd/callables/elwise_entry_callable.hpp
+++ b/include/dynd/callables/elwise_entry_callable.hpp
@@ -87,6 +87,10 @@ namespace nd {
                                      nkwd, kwds, tp_vars);
         }
 
+        if (nsrc >= 8) {
+          throw std::invalid_argument("elwise supports at most 7 arguments");
+        }
+
         static callable table[8] = {
             make_callable<elwise_dispatch_callable<0>>(), make_callable<elwise_dispatch_callable<1>>(),
             make_callable<elwise_dispatch_callable<2>>(), make_callable<elwise_dispatch_callable<3>>(),
-- 
2.43.0


From 20303ea54d997c37f47ffb1a73c1b5baeaaf05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 046/176] fix: uint128 times uint128 no longer drops all but
 the low 32 bits of the right operand

---
 include/dynd/uint128.hpp | 1 +
 src/dynd/uint128.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index eb69aab..fb4297d 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -120,6 +120,7 @@ public:
   }
 
   uint128 operator*(uint32_t rhs) const;
+  uint128 operator*(const uint128 &rhs) const;
   uint128 operator/(uint32_t rhs) const;
 
   void divrem(uint32_t rhs, uint32_t &out_rem);
diff --git a/src/dynd/uint128.cpp b/src/dynd/uint128.cpp
index 7b372f5..3898e32 100644
--- a/src/dynd/uint128.cpp
+++ b/src/dynd/uint128.cpp
@@ -82,6 +82,14 @@ uint128 dynd::uint128::operator*(uint32_t rhs) const
     return uint128(hi, lo);
 }
 
+uint128 dynd::uint128::operator*(const uint128 &rhs) const
+{
+    // The low word of rhs in two 32 bit steps, its high word only reaches the high word
+    uint128 lo = *this * static_cast<uint32_t>(rhs.m_lo);
+    uint128 mid = *this * static_cast<uint32_t>(rhs.m_lo >> 32);
+    uint128 res = lo + uint128((mid.m_hi << 32) | (mid.m_lo >> 32), mid.m_lo << 32);
+    return uint128(res.m_hi + m_lo * rhs.m_hi, res.m_lo);
+}
 
 uint128 dynd::uint128::operator/(uint32_t rhs) const
 {
-- 
2.43.0


From bd4f94a0e8e63872ac5b9433ee1c2739925653d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 047/176] fix: += and /= on arrays work instead of always
 refusing their one operand

---
 include/dynd/compound_arithmetic.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/dynd/compound_arithmetic.hpp b/include/dynd/compound_arithmetic.hpp
index ea5f33b..55e6d44 100644
--- a/include/dynd/compound_arithmetic.hpp
+++ b/include/dynd/compound_arithmetic.hpp
@@ -20,8 +20,7 @@ typedef type_sequence<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, in
 template <template <typename, typename> class KernelType, typename TypeSequence>
 nd::callable make_compound_arithmetic() {
   const ndt::type &tp = ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>(), ndt::make_type<ndt::any_kind_type>()}),
+      ndt::make_type<ndt::any_kind_type>(), ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>()}),
       ndt::make_type<ndt::struct_type>());
 
   auto dispatcher = nd::callable::make_all<KernelType, TypeSequence, TypeSequence>(
@@ -42,20 +41,13 @@ nd::callable make_compound_arithmetic() {
                                                    ndt::make_type<dynd::complex<float>>(),
                                                    ndt::make_type<dynd::complex<double>>()};
 
+  // The destination is the left operand, so it has the dimensions
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::scalar_kind_type>(),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-      ndt::make_type<ndt::struct_type>())));
-  dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::scalar_kind_type>()}),
-      ndt::make_type<ndt::struct_type>())));
+      ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::scalar_kind_type>()}), ndt::make_type<ndt::struct_type>())));
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
+      ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
       ndt::make_type<ndt::struct_type>())));
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
-- 
2.43.0


From de7b8036acc77ca6cc937f09265e37a0e3106e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 048/176] fix: reducing a trailing axis of an array with
 several kept axes uses each axis's own stride

---
 include/dynd/callables/base_reduction_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index e985a12..6f5c11a 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -189,7 +189,7 @@ namespace nd {
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, nullptr, (keepdim || broadcast) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
-- 
2.43.0


From 57c86f6aa74068fd901103fef6ee5db005059d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 049/176] fix: a reduction of two arrays over the first of
 three axes reads the second array

---
 include/dynd/kernels/reduction_kernel.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 58f6a9b..9a00cf0 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -568,7 +568,10 @@ namespace nd {
         kernel_prefix *init_child = this->get_child(dst_init_kernel_offset);
         kernel_prefix *reduction_child = this->get_child();
 
-        char *child_src[NArg] = {src[0]};
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
         if (dst_stride == 0) {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
-- 
2.43.0


From 2eae012c6cf53e9677127a713a01530dfc0a308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 050/176] fix: a reduction over an empty axis no longer reads
 elements that are not there

---
 .../callables/base_reduction_callable.hpp     | 30 +++++++++++-----
 include/dynd/kernels/reduction_kernel.hpp     | 35 ++++++++++++++++---
 2 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 6f5c11a..64128ef 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -34,6 +34,12 @@ namespace nd {
         bool keepdim;
       };
 
+      // What a dimension passes to its child kernel if there is nothing to reduce
+      static char *empty_tag() {
+        static char tag;
+        return &tag;
+      }
+
       base_reduction_callable() : base_callable(ndt::type()) {}
 
       virtual void resolve(call_graph &cg, char *data) = 0;
@@ -104,12 +110,15 @@ namespace nd {
         bool broadcast = reinterpret_cast<node_type *>(data)->broadcast;
         bool keepdim = reinterpret_cast<node_type *>(data)->keepdim;
 
-        cg.emplace_back([inner, broadcast, keepdim](kernel_builder &kb, kernel_request_t kernreq,
-                                                    char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+        cg.emplace_back([inner, broadcast, keepdim](kernel_builder &kb, kernel_request_t kernreq, char *data,
+                                                    const char *dst_arrmeta, size_t nsrc,
                                                     const char *const *src_arrmeta) {
+          // When an outer dimension being reduced is empty, there are no elements,
+          // and the destination is only to be initialized
+          bool empty = data == empty_tag();
           if (inner) {
             if (!broadcast) {
-              intptr_t src_size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
+              intptr_t src_size = empty ? 0 : reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
 
               typedef reduction_kernel<ndt::fixed_dim_type, false, true, NArg> self_type;
               intptr_t root_ckb_offset = kb.size();
@@ -156,6 +165,7 @@ namespace nd {
 
               // The striding parameters
               self_k->_size = src_size;
+              self_k->empty = empty;
               // Need to retrieve 'e' again because it may have moved
               self_k->size_first = self_k->_size;
               self_k->dst_stride_first = 0;
@@ -189,8 +199,12 @@ namespace nd {
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, (keepdim || broadcast) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
-               src_element_arrmeta);
+            if (!broadcast && src_size == 0) {
+              empty = true;
+            }
+
+            kb(kernreq, empty ? empty_tag() : nullptr,
+               (keepdim || broadcast) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc, src_element_arrmeta);
           }
         });
       }
@@ -199,15 +213,15 @@ namespace nd {
     template <size_t NArg>
     class reduction_callable<var_dim_id, NArg> : public base_reduction_callable {
       void resolve(call_graph &cg, char *DYND_UNUSED(data)) {
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq,
-                           char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) {
+        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
+                           size_t nsrc, const char *const *src_arrmeta) {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
               kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride);
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
+          e->empty = data == empty_tag();
           const char *src_element_arrmeta[NArg];
           for (size_t j = 0; j < NArg; ++j) {
             src_element_arrmeta[j] = src_arrmeta[j] + sizeof(ndt::var_dim_type::metadata_type);
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 9a00cf0..2453551 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -81,7 +81,9 @@ namespace nd {
                                         const intptr_t *src_stride, size_t count)
 
       {
-        return reinterpret_cast<SelfType *>(self)->strided_first(dst, dst_stride, src, src_stride, count);
+        if (count != 0) {
+          reinterpret_cast<SelfType *>(self)->strided_first(dst, dst_stride, src, src_stride, count);
+        }
       }
 
       static void strided_followup_wrapper(kernel_prefix *self, char *dst, intptr_t dst_stride, char *const *src,
@@ -324,6 +326,8 @@ namespace nd {
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
       intptr_t init_offset;
+      // There are no elements because an outer dimension being reduced is empty
+      bool empty;
 
       reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
 
@@ -333,6 +337,11 @@ namespace nd {
       }
 
       void single_first(char *dst, char *const *src) {
+        if (empty) {
+          this->get_child(init_offset)->single(dst, src);
+          return;
+        }
+
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
         char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
@@ -346,6 +355,14 @@ namespace nd {
         kernel_prefix *reduction_child = this->get_child();
 
         char *src0 = src[0];
+        if (empty) {
+          for (size_t i = 0; i != count; ++i) {
+            init_child->single(dst, src);
+            dst += dst_stride;
+          }
+          return;
+        }
+
         for (size_t i = 0; i != count; ++i) {
           char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
           init_child->single(dst, &src0_data);
@@ -358,6 +375,10 @@ namespace nd {
       }
 
       void strided_followup(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t size) {
+        if (empty) {
+          return;
+        }
+
         kernel_prefix *child = this->get_child();
 
         char *src0 = src[0];
@@ -537,6 +558,8 @@ namespace nd {
       intptr_t dst_stride;
       intptr_t src_stride[NArg];
       size_t dst_init_kernel_offset;
+      // There are no elements because an outer dimension being reduced is empty
+      bool empty;
 
       intptr_t size_first;
       intptr_t dst_stride_first;
@@ -558,7 +581,7 @@ namespace nd {
       void single_first(char *dst, char *const *src) {
         // Initialize the dst values
         this->get_child(dst_init_kernel_offset)->strided(dst, dst_stride, src, src_stride_first, _size);
-        if (src_stride_first[0] == 0) {
+        if (src_stride_first[0] == 0 && !empty) {
           // Then do the accumulation
           this->get_child()->strided(dst, dst_stride, src, src_stride, _size);
         }
@@ -582,7 +605,7 @@ namespace nd {
             child_src[j] += src_stride_first[j];
           }
 
-          for (size_t i = 1; i != count; ++i) {
+          for (size_t i = 1; i != count && !empty; ++i) {
             reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
             for (size_t j = 0; j < NArg; ++j) {
@@ -593,7 +616,7 @@ namespace nd {
           // With a non-zero stride, every iteration is an initialization
           for (size_t i = 0; i != count; ++i) {
             init_child->strided(dst, this->dst_stride, child_src, src_stride_first, _size);
-            if (src_stride_first[0] == 0) {
+            if (src_stride_first[0] == 0 && !empty) {
               reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, _size);
             }
 
@@ -607,6 +630,10 @@ namespace nd {
 
       void strided_followup(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride,
                             size_t count) {
+        if (empty) {
+          return;
+        }
+
         // No initialization, all reduction
         kernel_prefix *child = this->get_child();
 
-- 
2.43.0


From 7ac9fb81aa7ba4566de7fa2d0c3d2c5fa6e9db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 051/176] fix: reducing a field of the elements of a variable
 dimension reduces that field

---
 include/dynd/callables/base_reduction_callable.hpp | 1 +
 include/dynd/kernels/reduction_kernel.hpp          | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 64128ef..52c19e2 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -222,6 +222,7 @@ namespace nd {
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
           e->empty = data == empty_tag();
+          e->src0_offset = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->offset;
           const char *src_element_arrmeta[NArg];
           for (size_t j = 0; j < NArg; ++j) {
             src_element_arrmeta[j] = src_arrmeta[j] + sizeof(ndt::var_dim_type::metadata_type);
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 2453551..9e476b8 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -325,6 +325,7 @@ namespace nd {
     struct reduction_kernel<ndt::var_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
+      intptr_t src0_offset;
       intptr_t init_offset;
       // There are no elements because an outer dimension being reduced is empty
       bool empty;
@@ -344,7 +345,7 @@ namespace nd {
 
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
-        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
+        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin + src0_offset;
         this->get_child(init_offset)->single(dst, &src0_data);
 
         this->get_child()->strided(dst, 0, &src0_data, &src0_inner_stride, inner_size);
@@ -364,7 +365,7 @@ namespace nd {
         }
 
         for (size_t i = 0; i != count; ++i) {
-          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_offset;
           init_child->single(dst, &src0_data);
 
           reduction_child->strided(dst, 0, &src0_data, &src0_inner_stride,
@@ -383,7 +384,8 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != size; ++i) {
-          child->strided(dst, 0, &reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin, &src0_inner_stride,
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_offset;
+          child->strided(dst, 0, &src0_data, &src0_inner_stride,
                          reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->size);
           dst += dst_stride;
           src0 += src_stride[0];
-- 
2.43.0


From 1aa2749ed2c224ce536f92152a39b3a681b3c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 052/176] fix: a reduction refuses axes, dimensions and numbers
 of arrays that it would read out of bounds

---
 .../callables/base_reduction_callable.hpp     | 20 ++++++++++++++++++-
 include/dynd/callables/reduction_callable.hpp | 15 ++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 52c19e2..4fabd92 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -61,7 +61,25 @@ namespace nd {
         node.broadcast = !reduce;
         node.keepdim = reinterpret_cast<data_type *>(data)->keepdims;
 
-        std::vector<ndt::type> arg_element_tp(2);
+        if (src_tp[0].get_id() == var_dim_id &&
+            (nsrc != 1 || !reduce ||
+             reinterpret_cast<data_type *>(data)->axis + 1 != reinterpret_cast<data_type *>(data)->ndim)) {
+          std::stringstream ss;
+          ss << "a var dimension can be reduced only as the innermost dimension of one array, got " << src_tp[0];
+          throw std::runtime_error(ss.str());
+        }
+
+        for (size_t i = 1; i < nsrc; ++i) {
+          if (src_tp[i].get_id() != src_tp[0].get_id() ||
+              src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() !=
+                  src_tp[0].extended<ndt::fixed_dim_type>()->get_fixed_dim_size()) {
+            std::stringstream ss;
+            ss << "the arrays reduced together have different dimensions, " << src_tp[0] << " and " << src_tp[i];
+            throw std::runtime_error(ss.str());
+          }
+        }
+
+        std::vector<ndt::type> arg_element_tp(nsrc);
         for (size_t i = 0; i < nsrc; ++i) {
           if (reduce) {
             arg_element_tp[i] = src_tp[i].extended<ndt::base_dim_type>()->get_element_type();
diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 8f72e5d..210eeec 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -28,6 +28,16 @@ namespace nd {
                         const std::map<std::string, ndt::type> &tp_vars) {
         new_data_type new_data;
         if (data == nullptr) {
+          if (nsrc < 1 || nsrc > 2) {
+            throw std::runtime_error("a reduction of other than one or two arrays is not implemented");
+          }
+          if (nsrc == 2 && src_tp[0].get_ndim() - m_child->get_arg_types()[0].get_ndim() !=
+                               src_tp[1].get_ndim() - m_child->get_arg_types()[1].get_ndim()) {
+            std::stringstream ss;
+            ss << "the arrays reduced together have different dimensions, " << src_tp[0] << " and " << src_tp[1];
+            throw std::runtime_error(ss.str());
+          }
+
           new_data.identity = m_identity;
           new_data.child = m_child;
           if (kwds[0].is_na()) {
@@ -45,6 +55,11 @@ namespace nd {
           }
 
           intptr_t ndim = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
+          for (size_t i = 0; i < new_data.naxis && new_data.axes != NULL; ++i) {
+            if (new_data.axes[i] < 0 || new_data.axes[i] >= ndim) {
+              throw axis_out_of_bounds(new_data.axes[i], ndim);
+            }
+          }
           new_data.ndim = ndim;
           new_data.axis = 0;
 
-- 
2.43.0


From 2bcb061b39996d81af854b9cdcddcefa9fa936c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 053/176] fix: the maximum of minus infinities is minus
 infinity, and the minimum of infinities infinity

---
 include/dynd/callables/max_callable.hpp |  8 ++++++++
 include/dynd/callables/min_callable.hpp |  8 ++++++++
 include/dynd/kernels/max_kernel.hpp     |  8 ++++++++
 include/dynd/kernels/min_kernel.hpp     |  9 +++++++++
 src/dynd/statistics.cpp                 | 11 ++++-------
 5 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/dynd/callables/max_callable.hpp b/include/dynd/callables/max_callable.hpp
index 00622bd..0d6551c 100644
--- a/include/dynd/callables/max_callable.hpp
+++ b/include/dynd/callables/max_callable.hpp
@@ -11,6 +11,14 @@
 namespace dynd {
 namespace nd {
 
+  template <typename DstType>
+  class max_identity_callable : public default_instantiable_callable<max_identity_kernel<DstType>> {
+  public:
+    max_identity_callable()
+        : default_instantiable_callable<max_identity_kernel<DstType>>(
+              ndt::make_type<ndt::callable_type>(ndt::make_type<DstType>(), {})) {}
+  };
+
   template <typename Arg0Type>
   class max_callable : public default_instantiable_callable<max_kernel<Arg0Type>> {
   public:
diff --git a/include/dynd/callables/min_callable.hpp b/include/dynd/callables/min_callable.hpp
index 9565903..ce21677 100644
--- a/include/dynd/callables/min_callable.hpp
+++ b/include/dynd/callables/min_callable.hpp
@@ -11,6 +11,14 @@
 namespace dynd {
 namespace nd {
 
+  template <typename DstType>
+  class min_identity_callable : public default_instantiable_callable<min_identity_kernel<DstType>> {
+  public:
+    min_identity_callable()
+        : default_instantiable_callable<min_identity_kernel<DstType>>(
+              ndt::make_type<ndt::callable_type>(ndt::make_type<DstType>(), {})) {}
+  };
+
   template <typename Arg0Type>
   class min_callable : public default_instantiable_callable<min_kernel<Arg0Type>> {
   public:
diff --git a/include/dynd/kernels/max_kernel.hpp b/include/dynd/kernels/max_kernel.hpp
index b74dd37..699a880 100644
--- a/include/dynd/kernels/max_kernel.hpp
+++ b/include/dynd/kernels/max_kernel.hpp
@@ -12,6 +12,14 @@
 namespace dynd {
 namespace nd {
 
+  template <typename DstType>
+  struct max_identity_kernel : base_strided_kernel<max_identity_kernel<DstType>, 0> {
+    void single(char *dst, char *const *DYND_UNUSED(src)) {
+      typedef std::numeric_limits<DstType> limits;
+      *reinterpret_cast<DstType *>(dst) = limits::has_infinity ? static_cast<DstType>(-limits::infinity()) : limits::lowest();
+    }
+  };
+
   template <typename Arg0Type>
   struct max_kernel : base_strided_kernel<max_kernel<Arg0Type>, 1> {
     typedef Arg0Type dst_type;
diff --git a/include/dynd/kernels/min_kernel.hpp b/include/dynd/kernels/min_kernel.hpp
index eff8ec5..d0004d5 100644
--- a/include/dynd/kernels/min_kernel.hpp
+++ b/include/dynd/kernels/min_kernel.hpp
@@ -6,11 +6,20 @@
 #pragma once
 
 #include <dynd/kernels/base_kernel.hpp>
+#include <dynd/kernels/base_strided_kernel.hpp>
 #include <dynd/types/callable_type.hpp>
 
 namespace dynd {
 namespace nd {
 
+  template <typename DstType>
+  struct min_identity_kernel : base_strided_kernel<min_identity_kernel<DstType>, 0> {
+    void single(char *dst, char *const *DYND_UNUSED(src)) {
+      typedef std::numeric_limits<DstType> limits;
+      *reinterpret_cast<DstType *>(dst) = limits::has_infinity ? static_cast<DstType>(limits::infinity()) : limits::max();
+    }
+  };
+
   template <typename Arg0Type>
   struct min_kernel : base_strided_kernel<min_kernel<Arg0Type>, 1> {
     typedef Arg0Type dst_type;
diff --git a/src/dynd/statistics.cpp b/src/dynd/statistics.cpp
index 15f21bf..c63aaec 100644
--- a/src/dynd/statistics.cpp
+++ b/src/dynd/statistics.cpp
@@ -3,14 +3,11 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
-#include <dynd/callables/limits/max_callable.hpp>
-#include <dynd/callables/limits/min_callable.hpp>
 #include <dynd/callables/max_callable.hpp>
 #include <dynd/callables/mean_callable.hpp>
 #include <dynd/callables/min_callable.hpp>
 #include <dynd/callables/multidispatch_callable.hpp>
 #include <dynd/functional.hpp>
-#include <dynd/limits.hpp>
 #include <dynd/statistics.hpp>
 #include <dynd/types/scalar_kind_type.hpp>
 
@@ -34,8 +31,8 @@ static std::vector<ndt::type> func_ptr_dst(const ndt::type &dst_tp, size_t DYND_
 DYND_API nd::callable nd::max = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::min_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
-                                                                       uint16_t, uint32_t, uint64_t, float, double>>(
+        nd::callable::make_all<nd::max_identity_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+                                                                    uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
@@ -47,8 +44,8 @@ DYND_API nd::callable nd::mean = nd::make_callable<nd::mean_callable>(ndt::make_
 DYND_API nd::callable nd::min = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::max_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
-                                                                       uint16_t, uint32_t, uint64_t, float, double>>(
+        nd::callable::make_all<nd::min_identity_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+                                                                    uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
-- 
2.43.0


From faac29992786e5b87e3d4868a0fea79aa701165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 054/176] fix: a reduction does not write its result into an
 array of another type

---
 include/dynd/callables/reduction_callable.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 210eeec..6732821 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -63,7 +63,15 @@ namespace nd {
           new_data.ndim = ndim;
           new_data.axis = 0;
 
-          data = reinterpret_cast<char *>(&new_data);
+          ndt::type ret_tp =
+              resolve(this, reinterpret_cast<char *>(&new_data), cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          if (!dst_tp.is_symbolic() && dst_tp != ret_tp) {
+            std::stringstream ss;
+            ss << "cannot write the result of a reduction, of type " << ret_tp << ", to " << dst_tp;
+            throw type_error(ss.str());
+          }
+
+          return ret_tp;
         }
 
         if (src_tp[0].is_scalar()) {
-- 
2.43.0


From 95ebd2f72916497b618b8180ec8361d4d812b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 055/176] fix: sum starts from a zero of the type it adds up,
 not always from an int32

---
 include/dynd/callables/sum_callable.hpp |  8 ++++++++
 include/dynd/kernels/sum_kernel.hpp     |  5 +++++
 src/dynd/sum.cpp                        | 18 +++++++++++++-----
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/sum_callable.hpp b/include/dynd/callables/sum_callable.hpp
index 026a1b8..0146c5d 100644
--- a/include/dynd/callables/sum_callable.hpp
+++ b/include/dynd/callables/sum_callable.hpp
@@ -11,6 +11,14 @@
 namespace dynd {
 namespace nd {
 
+  template <typename DstType>
+  class sum_identity_callable : public default_instantiable_callable<sum_identity_kernel<DstType>> {
+  public:
+    sum_identity_callable()
+        : default_instantiable_callable<sum_identity_kernel<DstType>>(
+              ndt::make_type<ndt::callable_type>(ndt::make_type<DstType>(), {})) {}
+  };
+
   template <typename Arg0Type>
   class sum_callable : public default_instantiable_callable<sum_kernel<Arg0Type>> {
   public:
diff --git a/include/dynd/kernels/sum_kernel.hpp b/include/dynd/kernels/sum_kernel.hpp
index da565c6..006ed97 100644
--- a/include/dynd/kernels/sum_kernel.hpp
+++ b/include/dynd/kernels/sum_kernel.hpp
@@ -10,6 +10,11 @@
 namespace dynd {
 namespace nd {
 
+  template <typename DstType>
+  struct sum_identity_kernel : base_strided_kernel<sum_identity_kernel<DstType>, 0> {
+    void single(char *dst, char *const *DYND_UNUSED(src)) { *reinterpret_cast<DstType *>(dst) = DstType(0); }
+  };
+
   template <typename Arg0Type>
   struct sum_kernel : base_strided_kernel<sum_kernel<Arg0Type>, 1> {
     typedef Arg0Type dst_type;
diff --git a/src/dynd/sum.cpp b/src/dynd/sum.cpp
index 756064d..2ce9215 100644
--- a/src/dynd/sum.cpp
+++ b/src/dynd/sum.cpp
@@ -19,14 +19,22 @@ static std::vector<ndt::type> func_ptr(const ndt::type &DYND_UNUSED(dst_tp), siz
   return {src_tp[0].get_dtype()};
 }
 
+static std::vector<ndt::type> func_ptr_dst(const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc),
+                                           const ndt::type *DYND_UNUSED(src_tp)) {
+  return {dst_tp};
+}
+
+typedef type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float16, float, double,
+                      dynd::complex<float>, dynd::complex<double>>
+    sum_types;
+
 } // unnamed namespace
 
 DYND_API nd::callable nd::sum = nd::functional::reduction(
-    [] { return 0; },
+    nd::make_callable<nd::multidispatch_callable<1>>(
+        ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
+        nd::callable::make_all<nd::sum_identity_callable, sum_types>(func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
                                            {ndt::make_type<ndt::scalar_kind_type>()}),
-        nd::callable::make_all<nd::sum_callable,
-                               type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t,
-                                             float16, float, double, dynd::complex<float>, dynd::complex<double>>>(
-            func_ptr)));
+        nd::callable::make_all<nd::sum_callable, sum_types>(func_ptr)));
-- 
2.43.0


From e552278fea0c88c671048834a4ef15860fec1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 056/176] fix: a reduction refuses an identity of another type
 than its result

---
 src/dynd/functional.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 6a8f38b..97ab42c 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -181,6 +181,13 @@ nd::callable nd::functional::reduction(const callable &identity, const callable
     throw invalid_argument("'child' cannot be null");
   }
 
+  if (!identity->get_ret_type().is_symbolic() && !child->get_ret_type().is_symbolic() &&
+      identity->get_ret_type() != child->get_ret_type()) {
+    stringstream ss;
+    ss << "'identity' returns " << identity->get_ret_type() << ", but 'child' returns " << child->get_ret_type();
+    throw invalid_argument(ss.str());
+  }
+
   vector<ndt::type> arg_tp;
   for (auto tp : child->get_arg_types()) {
     arg_tp.push_back(ndt::make_type<ndt::ellipsis_dim_type>("Dims", tp));
-- 
2.43.0


From ad6e4e44e686982c91f10f5ca84c50caa58f6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 057/176] fix: a keyword given by position is checked against
 the keyword's type

---
 src/dynd/callable.cpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 5cdec25..39976ea 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -71,6 +71,22 @@ void nd::detail::check_arg(const base_callable *self, intptr_t i, const ndt::typ
   }
 }
 
+static void check_kwd(const std::pair<ndt::type, std::string> &kwd, const nd::array &value,
+                      std::map<std::string, ndt::type> &tp_vars) {
+  ndt::type expected_tp = kwd.first;
+  if (expected_tp.get_id() == option_id) {
+    expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
+  }
+
+  const ndt::type &actual_tp = value.get_type();
+  if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
+    std::stringstream ss;
+    ss << "keyword \"" << kwd.second << "\" does not match, ";
+    ss << "callable expected " << expected_tp << " but passed " << actual_tp;
+    throw std::invalid_argument(ss.str());
+  }
+}
+
 nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
                              const pair<const char *, array> *unordered_kwds) const {
   std::map<std::string, ndt::type> tp_vars;
@@ -85,6 +101,8 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
   unique_ptr<const char *[]> args_arrmeta(new const char *[narg]);
   unique_ptr<array[]> kwds(new array[narg + m_ptr->get_nkwd()]);
 
+  const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
+
   size_t j = 0;
   if (m_ptr->is_arg_variadic()) {
     for (size_t i = 0; i < narg; ++i) {
@@ -108,13 +126,15 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
 
     for (; narg > m_ptr->get_narg(); ++i, --narg, ++j, ++nkwd) {
+      if (j < kwd_tp.size()) {
+        check_kwd(kwd_tp[j], args[i], tp_vars);
+      }
       kwds[j] = args[i];
     }
   }
 
   array dst;
 
-  const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
   for (; j < nkwd; ++j, ++unordered_kwds) {
     intptr_t k = m_ptr->get_kwd_index(unordered_kwds->first);
 
@@ -135,18 +155,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
       }
       value = unordered_kwds->second;
 
-      ndt::type expected_tp = kwd_tp[k].first;
-      if (expected_tp.get_id() == option_id) {
-        expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
-      }
-
-      const ndt::type &actual_tp = value.get_type();
-      if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
-        std::stringstream ss;
-        ss << "keyword \"" << kwd_tp[k].second << "\" does not match, ";
-        ss << "callable expected " << expected_tp << " but passed " << actual_tp;
-        throw std::invalid_argument(ss.str());
-      }
+      check_kwd(kwd_tp[k], value, tp_vars);
     }
   }
 
-- 
2.43.0


From 518ebfbfd47e6ad9790624be1f3c3d71d27657ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 058/176] fix: a missing keyword is reported also when dst is
 given; the reduction of a scalar has a scalar's type

---
 include/dynd/callables/reduction_callable.hpp | 3 ++-
 src/dynd/callable.cpp                         | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 6732821..3ca1441 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -111,7 +111,8 @@ namespace nd {
 
           });
 
-          ndt::type ret_tp = m_child->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
+          ndt::type ret_tp = m_child->resolve(this, nullptr, cg, m_child->get_ret_type(), nsrc, src_tp, nkwd - 2,
+                                              kwds + 2, tp_vars);
 
           m_identity->resolve(this, nullptr, cg, ret_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
 
diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 39976ea..9bf74d6 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -134,12 +134,14 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
   }
 
   array dst;
+  size_t nspecial = 0;
 
   for (; j < nkwd; ++j, ++unordered_kwds) {
     intptr_t k = m_ptr->get_kwd_index(unordered_kwds->first);
 
     if (k == -1) {
       if (detail::is_special_kwd(dst, unordered_kwds->first, unordered_kwds->second)) {
+        ++nspecial;
       } else {
         std::stringstream ss;
         ss << "passed an unexpected keyword \"" << unordered_kwds->first << "\" to callable with type "
@@ -159,6 +161,9 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
   }
 
+  // The special keywords are not parameters of the callable
+  nkwd -= nspecial;
+
   // Validate the destination type, if it was provided
   if (!dst.is_null()) {
     if (!m_ptr->get_ret_type().match(dst.get_type(), tp_vars)) {
-- 
2.43.0


From 9bf9515793ac2e83d8d66250918f4daf70c2e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 059/176] fix: the axes of a reduction may be a strided array

---
 include/dynd/callables/reduction_callable.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 3ca1441..5d16afb 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -27,6 +27,7 @@ namespace nd {
                         size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                         const std::map<std::string, ndt::type> &tp_vars) {
         new_data_type new_data;
+        std::vector<int> axes;
         if (data == nullptr) {
           if (nsrc < 1 || nsrc > 2) {
             throw std::runtime_error("a reduction of other than one or two arrays is not implemented");
@@ -45,7 +46,12 @@ namespace nd {
             new_data.axes = NULL;
           } else {
             new_data.naxis = kwds[0].get_dim_size();
-            new_data.axes = reinterpret_cast<const int *>(kwds[0].cdata());
+            intptr_t stride = reinterpret_cast<const size_stride_t *>(kwds[0]->metadata())->stride;
+            axes.resize(new_data.naxis + 1);
+            for (size_t i = 0; i < new_data.naxis; ++i) {
+              axes[i] = *reinterpret_cast<const int *>(kwds[0].cdata() + i * stride);
+            }
+            new_data.axes = axes.data();
           }
 
           if (kwds[1].is_na()) {
-- 
2.43.0


From bee685b7cabdca32edf8aab8dc7104489637555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 060/176] fix: assigning more than a buffer's worth of optional
 values keeps to the source array

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index de6ee64..55bae49 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -792,19 +792,19 @@ namespace nd {
         kernel_strided_t dst_assign_na_fn = dst_assign_na->get_function<kernel_strided_t>();
         // Process in chunks using the dynd default buffer size
         bool1 missing[DYND_BUFFER_CHUNK_SIZE];
+        char *src_copy = src[0];
         while (count > 0) {
           size_t chunk_size = std::min(count, (size_t)DYND_BUFFER_CHUNK_SIZE);
           count -= chunk_size;
-          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, src, src_stride, chunk_size);
+          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, &src_copy, src_stride, chunk_size);
           void *missing_ptr = missing;
-          char *src_copy = src[0];
           do {
             // Process a run of available values
             void *next_missing_ptr = memchr(missing_ptr, 1, chunk_size);
             if (!next_missing_ptr) {
               value_assign_fn(value_assign, dst, dst_stride, &src_copy, src_stride, chunk_size);
               dst += chunk_size * dst_stride;
-              src += chunk_size * src_stride[0];
+              src_copy += chunk_size * src_stride[0];
               break;
             } else if (next_missing_ptr > missing_ptr) {
               size_t segment_size = (char *)next_missing_ptr - (char *)missing_ptr;
-- 
2.43.0


From 8d35feaaa3300906e59a6d1d671d90746e6ebebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 061/176] fix: assigning a string to an optional string, bool
 or number leaves no unused kernels behind, and a missing bool is missing

---
 include/dynd/callables/assign_callable.hpp  | 11 +++++------
 include/dynd/kernels/assignment_kernels.hpp |  6 +++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 7bf7085..f8af91f 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -625,7 +625,7 @@ namespace nd {
                            const char *const *DYND_UNUSED(src_arrmeta)) {
           kb.emplace_back<detail::string_to_option_bool_ck>(kernreq);
         });
-        break;
+        return dst_tp;
       case int8_id:
       case int16_id:
       case int32_id:
@@ -639,12 +639,11 @@ namespace nd {
                                           const char *const *DYND_UNUSED(src_arrmeta)) {
           kb.emplace_back<detail::string_to_option_number_ck>(kernreq, tid, error_mode);
         });
-        break;
+        return dst_tp;
       case string_id:
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-                           const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) { kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta); });
-        break;
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
+        return dst_tp;
       default:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                            const char *dst_arrmeta, size_t nsrc, const char *const *src_arrmeta) {
diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 55bae49..6cc0faf 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -837,7 +837,11 @@ namespace nd {
     struct DYND_API string_to_option_bool_ck : nd::base_strided_kernel<string_to_option_bool_ck, 1> {
       void single(char *dst, char *const *src) {
         const string *std = reinterpret_cast<string *>(src[0]);
-        *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        if (parse_na(std->begin(), std->end())) {
+          assign_na_builtin(bool_id, dst);
+        } else {
+          *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        }
       }
     };
 
-- 
2.43.0


From 8975928cba09c6aedd5eaf452d3a8d4e5f57781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 062/176] fix: missing values of unsigned and half-precision
 types are written and recognised; optional strings print their text

---
 src/dynd/option.cpp            |  4 ++--
 src/dynd/types/option_type.cpp | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index b2df4b1..f70bf8e 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -27,7 +27,7 @@ static std::vector<ndt::type> is_na_func_ptr(const ndt::type &DYND_UNUSED(dst_tp
 nd::callable make_assign_na() {
   auto children = nd::callable::make_all<
       nd::assign_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, uint128, float, double, dynd::complex<float>,
                     dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(
       assign_na_func_ptr);
   children.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
@@ -43,7 +43,7 @@ nd::callable make_assign_na() {
 nd::callable make_is_na() {
   dispatcher<1, nd::callable> dispatcher = nd::callable::make_all<
       nd::is_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, uint128, float, double, dynd::complex<float>,
                     dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(is_na_func_ptr);
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ed93fdb..38df914 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -28,6 +28,25 @@ void dynd::assign_na_builtin(type_id_t value_id, char *data) {
   case int64_id:
     *reinterpret_cast<int64_t *>(data) = DYND_INT64_NA;
     return;
+  // As assign_na_kernel does, the largest value of the unsigned types
+  case uint8_id:
+    *reinterpret_cast<uint8_t *>(data) = std::numeric_limits<uint8_t>::max();
+    return;
+  case uint16_id:
+    *reinterpret_cast<uint16_t *>(data) = std::numeric_limits<uint16_t>::max();
+    return;
+  case uint32_id:
+    *reinterpret_cast<uint32_t *>(data) = DYND_UINT32_NA;
+    return;
+  case uint64_id:
+    *reinterpret_cast<uint64_t *>(data) = std::numeric_limits<uint64_t>::max();
+    return;
+  case uint128_id:
+    *reinterpret_cast<uint128 *>(data) = std::numeric_limits<uint128>::max();
+    return;
+  case float16_id:
+    *reinterpret_cast<uint16_t *>(data) = DYND_FLOAT16_NA_AS_UINT;
+    return;
   case int128_id:
     *reinterpret_cast<int128 *>(data) = DYND_INT128_NA;
     return;
@@ -61,8 +80,19 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
     return *reinterpret_cast<const int16_t *>(data) != DYND_INT16_NA;
   case int32_id:
     return *reinterpret_cast<const int32_t *>(data) != DYND_INT32_NA;
+  case uint8_id:
+    return *reinterpret_cast<const uint8_t *>(data) != std::numeric_limits<uint8_t>::max();
+  case uint16_id:
+    return *reinterpret_cast<const uint16_t *>(data) != std::numeric_limits<uint16_t>::max();
   case uint32_id:
     return *reinterpret_cast<const uint32_t *>(data) != DYND_UINT32_NA;
+  case uint64_id:
+    return *reinterpret_cast<const uint64_t *>(data) != std::numeric_limits<uint64_t>::max();
+  case uint128_id:
+    return *reinterpret_cast<const uint128 *>(data) != std::numeric_limits<uint128>::max();
+  case float16_id:
+    // As for the other floating point types, any NaN is missing
+    return (*reinterpret_cast<const uint16_t *>(data) & 0x7fffu) <= 0x7c00u;
   case int64_id:
     return *reinterpret_cast<const int64_t *>(data) != DYND_INT64_NA;
   case int128_id:
@@ -87,7 +117,8 @@ void ndt::option_type::get_vars(std::unordered_set<std::string> &vars) const { m
 void ndt::option_type::print_type(std::ostream &o) const { o << "?" << m_value_tp; }
 
 void ndt::option_type::print_data(std::ostream &o, const char *arrmeta, const char *data) const {
-  if (is_avail_builtin(m_value_tp.get_id(), data)) {
+  // Only builtin types with a missing value can be tested here
+  if (!m_value_tp.is_builtin() || is_avail_builtin(m_value_tp.get_id(), data)) {
     m_value_tp.print_data(o, arrmeta, data);
   } else {
     o << "NA";
-- 
2.43.0


From 77c42fc143d9a8772642600007ab42d0ade9e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 063/176] fix: parsing the smallest int64 negates it without
 overflow

---
 include/dynd/parse_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 6208546..eb9b26a 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -92,7 +92,7 @@ is_overflow(SrcType DYND_UNUSED(src)) {
 template <class T>
 struct overflow_check {
   static bool is_overflow(uint64_t value, bool negative) {
-    if (negative && value == static_cast<uint64_t>(-static_cast<int64_t>(std::numeric_limits<T>::min()))) {
+    if (negative && value == static_cast<uint64_t>(0) - static_cast<uint64_t>(std::numeric_limits<T>::min())) {
       return false;
     }
 
@@ -105,7 +105,7 @@ void assign_signed_int_value(char *out_int, uint64_t uvalue, bool &negative, boo
   overflow = overflow || overflow_check<T>::is_overflow(uvalue, negative);
   if (!overflow) {
     *reinterpret_cast<T *>(out_int) =
-        static_cast<T>(negative ? -static_cast<int64_t>(uvalue) : static_cast<int64_t>(uvalue));
+        static_cast<T>(negative ? static_cast<uint64_t>(0) - uvalue : uvalue);
   }
 }
 
-- 
2.43.0


From 33f8a0d4810cce36928b68a5f6706e963c1548cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 064/176] fix: assign_na of a string or bytes has no operand to
 read

---
 include/dynd/kernels/assign_na_kernel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/assign_na_kernel.hpp b/include/dynd/kernels/assign_na_kernel.hpp
index af5c6dd..af6245d 100644
--- a/include/dynd/kernels/assign_na_kernel.hpp
+++ b/include/dynd/kernels/assign_na_kernel.hpp
@@ -134,12 +134,12 @@ namespace nd {
   };
 
   template <>
-  struct assign_na_kernel<bytes> : base_strided_kernel<assign_na_kernel<bytes>, 1> {
+  struct assign_na_kernel<bytes> : base_strided_kernel<assign_na_kernel<bytes>, 0> {
     void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<bytes *>(res)->clear(); }
   };
 
   template <>
-  struct assign_na_kernel<string> : base_strided_kernel<assign_na_kernel<string>, 1> {
+  struct assign_na_kernel<string> : base_strided_kernel<assign_na_kernel<string>, 0> {
     void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<bytes *>(res)->clear(); }
   };
 
-- 
2.43.0


From 2d701a448f1d8dd320a015b5d40447acebb99259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 065/176] fix: parsing a floating point number reads only the
 given range and refuses an empty one

---
 include/dynd/parse_util.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index eb9b26a..87d619b 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1069,12 +1069,14 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
 
   // TODO: use http://www.netlib.org/fp/dtoa.c
   char *end_ptr;
-  T value = strto<T>(begin, &end_ptr);
-  if (end_ptr - begin != end - begin) {
+  // The range does not have to be followed by a NUL
+  std::string s(begin, end);
+  T value = strto<T>(s.c_str(), &end_ptr);
+  if (s.empty() || end_ptr != s.c_str() + s.size()) {
     std::stringstream ss;
     ss << "parse error converting string ";
     ss.write(begin, end - begin);
-    ss << " to float64";
+    ss << " to " << ndt::make_type<T>();
     throw std::invalid_argument(ss.str());
   }
 
-- 
2.43.0


From 2483f1576d96fd35f10ca62cf493fab52b6e6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 066/176] fix: a decimal number out of the range of a floating
 point type is refused

---
 include/dynd/parse_util.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 87d619b..0c6127a 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <stdexcept>
 #include <string>
 
@@ -1079,6 +1080,14 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
     ss << " to " << ndt::make_type<T>();
     throw std::invalid_argument(ss.str());
   }
+  // The named infinities start with a letter (or are handled above), a number starts with a digit or "."
+  if (std::isinf(value) && s.find_first_of("0123456789") != std::string::npos) {
+    std::stringstream ss;
+    ss << "overflow converting string ";
+    ss.write(begin, end - begin);
+    ss << " to " << ndt::make_type<T>();
+    throw std::out_of_range(ss.str());
+  }
 
   return value;
 }
-- 
2.43.0


From b1a2f87f293e412d36bff26a509889832aea15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 067/176] fix: an integer has at least one digit

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 0c6127a..f899300 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -924,7 +924,7 @@ template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
   T result = 0, prev_result = 0;
-  if (begin == end) {
+  if (begin == end || *begin < '0' || '9' < *begin) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
   }
   while (begin < end) {
-- 
2.43.0


From 3799ef79ea59eff916b408601cf026e862558312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 068/176] fix: assigning the smallest int64 from text negates
 it without overflow

---
 include/dynd/kernels/assignment_kernels.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 6cc0faf..8c74bb3 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1176,14 +1176,14 @@ namespace nd {
         T result;
         if (error_mode == assign_error_nocheck) {
           uint64_t value = parse<uint64_t>(s.data(), s.data() + s.size(), nocheck);
-          result = negative ? static_cast<T>(-static_cast<int64_t>(value)) : static_cast<T>(value);
+          result = negative ? static_cast<T>(0 - value) : static_cast<T>(value);
         } else {
           bool overflow = false;
           uint64_t value = parse<uint64_t>(s.data(), s.data() + s.size());
           if (overflow || overflow_check<T>::is_overflow(value, negative)) {
             raise_string_cast_overflow_error(ndt::make_type<T>(), src_string_tp, src_arrmeta, src[0]);
           }
-          result = negative ? static_cast<T>(-static_cast<int64_t>(value)) : static_cast<T>(value);
+          result = negative ? static_cast<T>(0 - value) : static_cast<T>(value);
         }
         *reinterpret_cast<T *>(dst) = result;
       }
-- 
2.43.0


From 046d3ef6ab5c0c0367e75f47144766b5860c4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 069/176] fix: text assigned to float32 is rounded once, and
 refused when out of range

---
 include/dynd/kernels/assignment_kernels.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 8c74bb3..59c03bf 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1220,19 +1220,19 @@ namespace nd {
         std::string s = reinterpret_cast<const ndt::base_string_type *>(src_string_tp.extended())
                             ->get_utf8_string(src_arrmeta, src[0], error_mode);
         trim(s);
+        // The nearest float to the text, which going through the nearest double does not always give
+        if (error_mode == assign_error_default || error_mode == assign_error_overflow) {
+          *reinterpret_cast<float *>(dst) = parse<float>(s.data(), s.data() + s.size());
+          return;
+        }
         double value = parse<double>(s.data(), s.data() + s.size());
         // Assign double -> float according to the error mode
         char *child_src[1] = {reinterpret_cast<char *>(&value)};
         switch (error_mode) {
-        case assign_error_default:
         case assign_error_nocheck:
           dynd::nd::detail::assignment_kernel<float, double, assign_error_nocheck>::single_wrapper(NULL, dst,
                                                                                                    child_src);
           break;
-        case assign_error_overflow:
-          dynd::nd::detail::assignment_kernel<float, double, assign_error_overflow>::single_wrapper(NULL, dst,
-                                                                                                    child_src);
-          break;
         case assign_error_fractional:
           dynd::nd::detail::assignment_kernel<float, double, assign_error_fractional>::single_wrapper(NULL, dst,
                                                                                                       child_src);
-- 
2.43.0


From 8c28f893657ea7755738a1a86b95be7e6d0e1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 070/176] fix: assigning an int to a fixed_string writes its
 text instead of parsing the int as a string

---
 include/dynd/callables/assign_callable.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index f8af91f..0f277eb 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -197,10 +197,11 @@ namespace nd {
               {{ndt::make_type<ndt::option_type>(ndt::make_type<assign_error_mode>()), "error_mode"}})) {}
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       type_id_t dst_id = dst_tp.get_id();
+      type_id_t src0_id = src_tp[0].get_id();
       size_t string_size = 0;
       string_encoding_t string_encoding = string_encoding_ascii;
       if (dst_id == fixed_string_id) {
@@ -208,14 +209,14 @@ namespace nd {
         string_encoding = dst_tp.extended<ndt::fixed_string_type>()->get_encoding();
       }
 
-      cg.emplace_back([dst_id, string_size, string_encoding](
+      cg.emplace_back([dst_id, src0_id, string_size, string_encoding](
           kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
           size_t DYND_UNUSED(nsrc), const char *const *DYND_UNUSED(src_arrmeta)) {
 
         ndt::type string_tp = dst_id == fixed_string_id
                                   ? ndt::make_type<ndt::fixed_string_type>(string_size, string_encoding)
                                   : ndt::make_type<ndt::string_type>();
-        kb.emplace_back<detail::assignment_kernel<IntType, string, assign_error_default>>(kernreq, string_tp,
+        kb.emplace_back<detail::assignment_kernel<string, IntType, assign_error_default>>(kernreq, string_tp, src0_id,
                                                                                           dst_arrmeta);
       });
 
-- 
2.43.0


From 5a689b9bda996d9fd0a6cd457688641314cd8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 071/176] fix: floating point numbers are printed with the
 digits that tell them apart

---
 src/dynd/type.cpp | 49 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 3b2793a..67c97bb 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -28,10 +28,13 @@
 #include <dynd/types/var_dim_type.hpp>
 
 #include <algorithm>
+#include <cmath>
 #include <cstring>
 #include <functional>
 #include <iomanip>
 #include <iterator>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <vector>
 
@@ -557,6 +560,42 @@ static void print_as(std::ostream &o, const char *data) {
   o << static_cast<Tas>(value);
 }
 
+// Prints the shortest text, of at least the default 6 digits, that parses back to the same value. A stream
+// whose formatting was changed is left in charge.
+template <class T>
+static void print_float(std::ostream &o, T value) {
+  if (!std::isfinite(value) || o.precision() != 6 || (o.flags() & std::ios_base::floatfield)) {
+    o << value;
+    return;
+  }
+  for (int precision = 6;; ++precision) {
+    std::stringstream ss;
+    ss.imbue(std::locale::classic());
+    ss.precision(precision);
+    ss << value;
+    if (precision >= std::numeric_limits<T>::max_digits10 || strto<T>(ss.str().c_str(), NULL) == value) {
+      o << ss.str();
+      return;
+    }
+  }
+}
+
+template <class T, class Tas>
+static void print_float_as(std::ostream &o, const char *data) {
+  T value;
+  memcpy(&value, data, sizeof(value));
+  print_float(o, static_cast<Tas>(value));
+}
+
+template <class T>
+static void print_complex(std::ostream &o, const char *data) {
+  o << "(";
+  print_float_as<T, T>(o, data);
+  o << " + ";
+  print_float_as<T, T>(o, data + sizeof(T));
+  o << "j)";
+}
+
 void dynd::hexadecimal_print(std::ostream &o, char value) {
   static char hexadecimal[] = "0123456789abcdef";
   unsigned char v = (unsigned char)value;
@@ -809,22 +848,22 @@ void dynd::print_builtin_scalar(type_id_t type_id, std::ostream &o, const char *
     print_as<uint128, uint128>(o, data);
     break;
   case float16_id:
-    print_as<float16, float32>(o, data);
+    print_float_as<float16, float32>(o, data);
     break;
   case float32_id:
-    print_as<float32, float32>(o, data);
+    print_float_as<float32, float32>(o, data);
     break;
   case float64_id:
-    print_as<float64, float64>(o, data);
+    print_float_as<float64, float64>(o, data);
     break;
   case float128_id:
     print_as<float128, float128>(o, data);
     break;
   case complex_float32_id:
-    print_as<complex<float>, complex<float>>(o, data);
+    print_complex<float>(o, data);
     break;
   case complex_float64_id:
-    print_as<complex<double>, complex<double>>(o, data);
+    print_complex<double>(o, data);
     break;
   case void_id:
     o << "(void)";
-- 
2.43.0


From 7a315cc3f749e668ad8453ed3a742c6d5056de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 072/176] fix: text assigned to float32 in the default context
 is rounded once too

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 59c03bf..05bc493 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1221,7 +1221,7 @@ namespace nd {
                             ->get_utf8_string(src_arrmeta, src[0], error_mode);
         trim(s);
         // The nearest float to the text, which going through the nearest double does not always give
-        if (error_mode == assign_error_default || error_mode == assign_error_overflow) {
+        if (error_mode != assign_error_nocheck && error_mode != assign_error_inexact) {
           *reinterpret_cast<float *>(dst) = parse<float>(s.data(), s.data() + s.size());
           return;
         }
@@ -1233,10 +1233,6 @@ namespace nd {
           dynd::nd::detail::assignment_kernel<float, double, assign_error_nocheck>::single_wrapper(NULL, dst,
                                                                                                    child_src);
           break;
-        case assign_error_fractional:
-          dynd::nd::detail::assignment_kernel<float, double, assign_error_fractional>::single_wrapper(NULL, dst,
-                                                                                                      child_src);
-          break;
         case assign_error_inexact:
           dynd::nd::detail::assignment_kernel<float, double, assign_error_inexact>::single_wrapper(NULL, dst,
                                                                                                    child_src);
-- 
2.43.0


From 02d65b3ddf1845b7a4fb17e04071c8f13fa080b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 073/176] fix: a number in a JSON string is read after its
 escapes are replaced

---
 include/dynd/parse_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index f899300..eaa01b1 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1415,13 +1415,13 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
   } else if (parse_doublequote_string_no_ws(begin, end, nbegin, nend, escaped)) {
     // Interpret the data inside the string as an int
     try {
-      if (!escaped) {
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
-      } else {
-        std::string s;
+      std::string s;
+      if (escaped) {
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
+        nbegin = s.data();
+        nend = nbegin + s.size();
       }
+      string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
     } catch (const dynd::dynd_exception &e) {
-- 
2.43.0


From c0d462a73c1a02c4c53a1c339d5e1b51ac03756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 074/176] fix: a missing value in a JSON string is no number

---
 include/dynd/parse_util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index eaa01b1..5c17596 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1421,6 +1421,9 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
         nbegin = s.data();
         nend = nbegin + s.size();
       }
+      if (!option && parse_na(nbegin, nend)) {
+        throw json_parse_error(rbegin, "expected a number, got a missing value", tp);
+      }
       string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
-- 
2.43.0


From f83cf32298ad79f463d827728afd617655502928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 075/176] fix: parsing JSON from a string uses all of it, not
 the part before a NUL

---
 src/dynd/json_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index a8484fd..aa29df1 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -16,7 +16,9 @@
 using namespace std;
 using namespace dynd;
 
-nd::array nd::json::parse2(const ndt::type &tp, const std::string &str) { return parse_json(tp, str.data()); }
+nd::array nd::json::parse2(const ndt::type &tp, const std::string &str) {
+  return parse_json(tp, str.data(), str.data() + str.size(), &eval::default_eval_context);
+}
 
 static void json_as_buffer(const nd::array &json, nd::array &out_tmp_ref, const char *&begin, const char *&end) {
   // Check the type of 'json', and get pointers to the begin/end of a UTF-8
-- 
2.43.0


From b2b7f8ff3eea7d05b3afdeac8b08f9a9a1e5b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 076/176] fix: JSON is parsed from a fixed_string too

---
 src/dynd/json_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index aa29df1..2ab98a1 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -25,7 +25,8 @@ static void json_as_buffer(const nd::array &json, nd::array &out_tmp_ref, const
   // buffer
   ndt::type json_type = json.get_type().value_type();
   switch (json_type.get_base_id()) {
-  case string_kind_id: {
+  case string_kind_id:
+  case fixed_string_kind_id: {
     const ndt::base_string_type *sdt = json_type.extended<ndt::base_string_type>();
     switch (sdt->get_encoding()) {
     case string_encoding_ascii:
-- 
2.43.0


From 72bb92549e7d32c29125c3bbd3cde98f1bd5c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 077/176] fix: skipping deeply nested JSON does not overflow
 the stack

---
 src/dynd/json_parser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index 2ab98a1..b432f3a 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -80,7 +80,11 @@ nd::array dynd::parse_json(const ndt::type &tp, const nd::array &json, const eva
 static void parse_json(const ndt::type &tp, const char *arrmeta, char *out_data, const char *&json_begin,
                        const char *json_end, const eval::eval_context *ectx);
 
-static void skip_json_value(const char *&begin, const char *end) {
+static void skip_json_value(const char *&begin, const char *end, int depth = 0) {
+  // Skipping a nested value uses the stack, which the text must not be able to exhaust
+  if (depth > 1000) {
+    throw parse_error(begin, "JSON value is nested too deeply");
+  }
   skip_whitespace(begin, end);
   if (begin == end) {
     throw parse_error(begin, "malformed JSON, expecting an element");
@@ -101,7 +105,7 @@ static void skip_json_value(const char *&begin, const char *end) {
         if (!parse_token(begin, end, ":")) {
           throw parse_error(begin, "expected ':' separating name from value in object dict");
         }
-        skip_json_value(begin, end);
+        skip_json_value(begin, end, depth + 1);
         if (!parse_token(begin, end, ",")) {
           break;
         }
@@ -116,7 +120,7 @@ static void skip_json_value(const char *&begin, const char *end) {
     ++begin;
     if (!parse_token(begin, end, "]")) {
       for (;;) {
-        skip_json_value(begin, end);
+        skip_json_value(begin, end, depth + 1);
         if (!parse_token(begin, end, ",")) {
           break;
         }
-- 
2.43.0


From 0de08b85723c93180db190c777959a8715ec86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 078/176] fix: nd::json::parse replaces the escapes in a string

---
 include/dynd/kernels/parse_kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/parse_kernel.hpp b/include/dynd/kernels/parse_kernel.hpp
index 196be58..918902e 100644
--- a/include/dynd/kernels/parse_kernel.hpp
+++ b/include/dynd/kernels/parse_kernel.hpp
@@ -138,7 +138,7 @@ namespace nd {
         if (parse_doublequote_string_no_ws(begin, end, strbegin, strend, escaped)) {
           std::string val;
           unescape_string(strbegin, strend, val);
-          reinterpret_cast<string *>(res)->assign(strbegin, strend - strbegin);
+          reinterpret_cast<string *>(res)->assign(val.data(), val.size());
 
           /*
                     try {
-- 
2.43.0


From 64b42c1f699eca74316f9f9c39d10b32c46c8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 079/176] fix: nd::json::parse takes only null for a missing
 value, as JSON does

---
 include/dynd/kernels/parse_kernel.hpp | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/include/dynd/kernels/parse_kernel.hpp b/include/dynd/kernels/parse_kernel.hpp
index 918902e..f717b58 100644
--- a/include/dynd/kernels/parse_kernel.hpp
+++ b/include/dynd/kernels/parse_kernel.hpp
@@ -74,32 +74,7 @@ namespace nd {
       return true;
     }
 
-    inline bool _parse_na(const char *&begin, const char *end) {
-      size_t size = end - begin;
-
-      if (size >= 4) {
-        if (((begin[0] == 'N' || begin[0] == 'n') && (begin[1] == 'U' || begin[1] == 'u') &&
-             (begin[2] == 'L' || begin[2] == 'l') && (begin[3] == 'L' || begin[3] == 'l'))) {
-          begin += 4;
-          return true;
-        }
-        if (begin[0] == 'N' && begin[1] == 'o' && begin[2] == 'n' && begin[3] == 'e') {
-          begin += 4;
-          return true;
-        }
-      }
-
-      if (size >= 2 && begin[0] == 'N' && begin[1] == 'A') {
-        begin += 2;
-        return true;
-      }
-
-      if (size == 0) {
-        return true;
-      }
-
-      return false;
-    }
+    inline bool _parse_na(const char *&begin, const char *end) { return parse_token(begin, end, "null"); }
 
     template <typename ReturnType>
     struct parse_kernel : base_strided_kernel<parse_kernel<ReturnType>, 2> {
-- 
2.43.0


From dc0aff5c462311b822543444509c40efca2a4f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 080/176] fix: nd::json::parse of dimensions and structs is
 refused instead of calling a null kernel

---
 include/dynd/callables/parse_callable.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/parse_callable.hpp b/include/dynd/callables/parse_callable.hpp
index f89fc5e..6c2ed9f 100644
--- a/include/dynd/callables/parse_callable.hpp
+++ b/include/dynd/callables/parse_callable.hpp
@@ -84,7 +84,9 @@ namespace nd {
                         const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
                         size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                         const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-        return dst_tp;
+        std::stringstream ss;
+        ss << "nd::json::parse of " << dst_tp << " is not implemented";
+        throw std::runtime_error(ss.str());
       }
 
       /*
@@ -129,7 +131,9 @@ namespace nd {
                         const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
                         size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                         const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-        return dst_tp;
+        std::stringstream ss;
+        ss << "nd::json::parse of " << dst_tp << " is not implemented";
+        throw std::runtime_error(ss.str());
       }
 
       /*
@@ -166,7 +170,9 @@ namespace nd {
                         const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
                         size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                         const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-        return dst_tp;
+        std::stringstream ss;
+        ss << "nd::json::parse of " << dst_tp << " is not implemented";
+        throw std::runtime_error(ss.str());
       }
 
       /*
-- 
2.43.0


From c00e35fdc8f62514a9f00a1bef47c4b46e475b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 081/176] fix: form feeds and vertical tabs are not white space
 in JSON

---
 include/dynd/parse_util.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 5c17596..c1c7a21 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -206,15 +206,14 @@ public:
 };
 
 /**
- * Modifies `begin` to skip past any whitespace.
+ * Modifies `begin` to skip past any whitespace, as defined by JSON.
  *
  * Example:
  *     skip_whitespace(begin, end);
  */
 inline void skip_whitespace(const char *&rbegin, const char *end) {
-  using namespace std;
   const char *begin = rbegin;
-  while (begin < end && DYND_ISSPACE(*begin)) {
+  while (begin < end && (*begin == ' ' || *begin == '\t' || *begin == '\n' || *begin == '\r')) {
     ++begin;
   }
   rbegin = begin;
-- 
2.43.0


From 3a9066e7d5efd72a14f413644b10f644c7218a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 082/176] fix: two escapes in a JSON string that form a
 surrogate pair are one code point

---
 src/dynd/parse_util.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index 27532c0..7477f4a 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -175,6 +175,18 @@ void dynd::unescape_string(const char *strbegin, const char *strend, std::string
             cp = '?';
           }
         }
+        // Two escapes which form a surrogate pair are one code point
+        if (0xd800 <= cp && cp < 0xdc00 && strend - strbegin >= 6 && strbegin[0] == '\\' && strbegin[1] == 'u') {
+          uint32_t low = 0;
+          for (int i = 2; i < 6; ++i) {
+            char d = strbegin[i];
+            low = 16 * low + ('0' <= d && d <= '9' ? d - '0' : (d | 0x20) - 'a' + 10);
+          }
+          if (0xdc00 <= low && low < 0xe000) {
+            cp = 0x10000 + ((cp - 0xd800) << 10) + (low - 0xdc00);
+            strbegin += 6;
+          }
+        }
         append_utf8_codepoint(cp, out);
         break;
       }
-- 
2.43.0


From 950b93ee22f3d050d8a920bbf3588139df2efaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 083/176] fix: numbers without a JSON syntax are formatted as
 strings, which the parser reads

---
 src/dynd/json_formatter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index 9562ef1..b93b553 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -84,7 +84,15 @@ static void format_json_bool(output_data &out, const ndt::type &dt, const char *
 static void format_json_number(output_data &out, const ndt::type &dt, const char *arrmeta, const char *data) {
   stringstream ss;
   dt.print_data(ss, arrmeta, data);
-  out.write(ss.str());
+  std::string s = ss.str();
+  if (s.find_first_not_of("+-.0123456789eE") == std::string::npos) {
+    out.write(s);
+  } else {
+    // JSON has no syntax for infinities, NaN and complex numbers. The parser reads numbers in strings.
+    out.write('"');
+    out.write(s);
+    out.write('"');
+  }
 }
 
 static void print_escaped_unicode_codepoint(output_data &out, uint32_t cp, append_unicode_codepoint_t append_fn) {
-- 
2.43.0


From 52e22e607938caf0d01aa49162ee725748abbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 084/176] fix: types are formatted as JSON in the encoding they
 are printed in

---
 src/dynd/json_formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index b93b553..2ec93a5 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -191,7 +191,7 @@ static void format_json_type(output_data &out, const ndt::type &dt, const char *
     stringstream ss;
     dt.print_data(ss, arrmeta, data);
     std::string s = ss.str();
-    format_json_encoded_string(out, s.data(), s.data() + s.size(), string_encoding_ascii);
+    format_json_encoded_string(out, s.data(), s.data() + s.size(), string_encoding_utf_8);
     break;
   }
   default: {
-- 
2.43.0


From 236531383fcb15a7d317afba93b3df3faa2cf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 085/176] fix: resizing an array of elements without data does
 not divide by zero

---
 include/dynd/memblock/objectarray_memory_block.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 3b5d432..b58a71b 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -108,6 +108,10 @@ namespace nd {
     }
 
     char *resize(char *previous_allocated, size_t count) {
+      if (m_stride == 0) {
+        // Elements without data take no memory
+        return previous_allocated;
+      }
       memory_chunk *mc = &m_memory_handles.back();
       size_t previous_index = (previous_allocated - mc->memory) / m_stride;
       size_t previous_count = mc->used_count - previous_index;
-- 
2.43.0


From b187a0d92d17cb9c3a556b34d072419c4533e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 086/176] fix: resetting an object memory block with a single
 chunk resets it

---
 include/dynd/memblock/objectarray_memory_block.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index b58a71b..2394efd 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -178,11 +178,12 @@ namespace nd {
         }
         m_memory_handles.front() = m_memory_handles.back();
         m_memory_handles.resize(1);
-        // Reset to zero used elements in the chunk
-        memory_chunk &mc = m_memory_handles.front();
-        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
-        mc.used_count = 0;
       }
+      // Reset to zero used elements in the chunk
+      memory_chunk &mc = m_memory_handles.front();
+      m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
+      mc.used_count = 0;
+      m_total_allocated_count = mc.capacity_count;
     }
 
     void debug_print(std::ostream &o, const std::string &indent) {
-- 
2.43.0


From f0ee7af8851d92e0027e8571014c4448e4f63104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 087/176] fix: memory added by resizing a zero-initialized
 block is zeroed

---
 include/dynd/memblock/zeroinit_memory_block.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index d92e1d9..aad27f4 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -93,20 +93,19 @@ namespace nd {
       // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
       //    cout << "memory state before " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
       // " << (void *)m_memory_end << endl;
-      char **inout_end = &m_memory_current;
+      char *old_end = m_memory_current;
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
         // If it fits, just adjust the current allocation point
         m_memory_current = end;
         // Zero-initialize any newly allocated memory
-        if (end > *inout_end) {
-          memset(*inout_end, 0, end - *inout_end);
+        if (end > old_end) {
+          memset(old_end, 0, end - old_end);
         }
-        *inout_end = end;
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
-        intptr_t old_size_bytes = *inout_end - inout_begin;
+        char *old_current = inout_begin;
+        intptr_t old_size_bytes = old_end - inout_begin;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
@@ -117,7 +116,6 @@ namespace nd {
         memset(m_memory_begin + old_size_bytes, 0, size_bytes - old_size_bytes);
 
         inout_begin = m_memory_begin;
-        *inout_end = end;
         m_total_allocated_capacity -= old_end - old_current;
       }
       //    cout << "memory state after " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
-- 
2.43.0


From fd38c0858a0fac41a35dd53ae3ce7aba172814b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 088/176] fix: an array too large for the address space is
 refused instead of wrapping around

---
 include/dynd/types/fixed_string_type.hpp |  6 ++++++
 src/dynd/types/fixed_dim_type.cpp        | 12 ++++++++----
 src/dynd/types/struct_type.cpp           | 10 ++++++----
 src/dynd/types/tuple_type.cpp            | 10 ++++++----
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/dynd/types/fixed_string_type.hpp b/include/dynd/types/fixed_string_type.hpp
index 152d669..302e804 100644
--- a/include/dynd/types/fixed_string_type.hpp
+++ b/include/dynd/types/fixed_string_type.hpp
@@ -9,6 +9,9 @@
 
 #pragma once
 
+#include <limits>
+#include <stdexcept>
+
 #include <dynd/string_encodings.hpp>
 #include <dynd/type.hpp>
 #include <dynd/types/fixed_string_kind_type.hpp>
@@ -25,6 +28,9 @@ namespace ndt {
     fixed_string_type(type_id_t id, intptr_t stringsize, string_encoding_t encoding = string_encoding_utf_8)
         : base_string_type(id, 0, 1, type_flag_none, 0), m_stringsize(stringsize), m_encoding(encoding),
           m_encoding_repr(encoding_as_string(encoding)) {
+      if (static_cast<size_t>(stringsize) > static_cast<size_t>(std::numeric_limits<intptr_t>::max()) / 4) {
+        throw std::length_error("the size of a dynd fixed_string is too large");
+      }
       switch (encoding) {
       case string_encoding_ascii:
       case string_encoding_utf_8:
diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 75372bd..dbe1d19 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -3,6 +3,9 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <limits>
+#include <stdexcept>
+
 #include <dynd/buffer.hpp>
 #include <dynd/exceptions.hpp>
 #include <dynd/parse_util.hpp>
@@ -15,11 +18,12 @@ using namespace std;
 using namespace dynd;
 
 size_t ndt::fixed_dim_type::get_default_data_size() const {
-  if (!m_element_tp.is_builtin()) {
-    return m_dim_size * m_element_tp.extended()->get_default_data_size();
-  } else {
-    return m_dim_size * m_element_tp.get_data_size();
+  size_t element_size = m_element_tp.get_default_data_size();
+  if (element_size != 0 &&
+      static_cast<size_t>(m_dim_size) > static_cast<size_t>(std::numeric_limits<intptr_t>::max()) / element_size) {
+    throw std::length_error("the size in bytes of a dynd array is too large");
   }
+  return m_dim_size * element_size;
 }
 
 void ndt::fixed_dim_type::print_data(std::ostream &o, const char *arrmeta, const char *data) const {
diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 72537b5..885bed0 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -3,6 +3,9 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <limits>
+#include <stdexcept>
+
 #include <dynd/buffer.hpp>
 #include <dynd/exceptions.hpp>
 #include <dynd/shape_tools.hpp>
@@ -63,10 +66,9 @@ size_t ndt::struct_type::get_default_data_size() const {
   for (intptr_t i = 0; i != field_count; ++i) {
     const type &ft = get_field_type(i);
     s = inc_to_alignment(s, ft.get_data_alignment());
-    if (!ft.is_builtin()) {
-      s += ft.extended()->get_default_data_size();
-    } else {
-      s += ft.get_data_size();
+    s += ft.get_default_data_size();
+    if (s > static_cast<size_t>(std::numeric_limits<intptr_t>::max())) {
+      throw std::length_error("the size in bytes of a dynd struct is too large");
     }
   }
   s = inc_to_alignment(s, this->m_data_alignment);
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 2bd2202..d10132f 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -3,6 +3,9 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <limits>
+#include <stdexcept>
+
 #include <dynd/buffer.hpp>
 #include <dynd/exceptions.hpp>
 #include <dynd/shape_tools.hpp>
@@ -52,10 +55,9 @@ size_t ndt::tuple_type::get_default_data_size() const {
   for (intptr_t i = 0; i != field_count; ++i) {
     const type &ft = get_field_type(i);
     s = inc_to_alignment(s, ft.get_data_alignment());
-    if (!ft.is_builtin()) {
-      s += ft.extended()->get_default_data_size();
-    } else {
-      s += ft.get_data_size();
+    s += ft.get_default_data_size();
+    if (s > static_cast<size_t>(std::numeric_limits<intptr_t>::max())) {
+      throw std::length_error("the size in bytes of a dynd tuple is too large");
     }
   }
   s = inc_to_alignment(s, this->m_data_alignment);
-- 
2.43.0


From 07c93f23698880617ec6ff5bcbcee94ac6bfd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 089/176] fix: an array made like another keeps the order of
 axes with negative strides

---
 src/dynd/types/fixed_dim_type.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index dbe1d19..e98c78b 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -3,6 +3,7 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <cstdlib>
 #include <limits>
 #include <stdexcept>
 
@@ -454,10 +455,10 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       if (stride == numeric_limits<intptr_t>::max()) {
         break;
       }
-      if (previous_stride != 0 && previous_stride < stride) {
+      if (previous_stride != 0 && previous_stride < std::abs(stride)) {
         c_order = false;
       }
-      previous_stride = stride;
+      previous_stride = std::abs(stride);
     }
     strides[i] = stride;
   }
-- 
2.43.0


From b5ab5042c87452e9a0c9677c38d38104493c4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 090/176] fix: float16 promotes with an integer to the same
 type in either order

---
 src/dynd/type_promotion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type_promotion.cpp b/src/dynd/type_promotion.cpp
index 715ae58..b822545 100644
--- a/src/dynd/type_promotion.cpp
+++ b/src/dynd/type_promotion.cpp
@@ -132,11 +132,12 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
         return tp0_val;
       }
       switch (tp1_val.get_base_id()) {
-      // Integer type sizes don't affect float type sizes
+      // Integer type sizes don't affect float type sizes, except
+      // require at least float32
       case bool_kind_id:
       case int_kind_id:
       case uint_kind_id:
-        return tp0_val;
+        return tp0_val.unchecked_get_builtin_id() != float16_id ? tp0_val : ndt::make_type<float>();
       case float_kind_id:
         return ndt::type(reinterpret_cast<ndt::base_type *>(max(
                              max(tp0_val.unchecked_get_builtin_id(), tp1_val.unchecked_get_builtin_id()), float32_id)),
-- 
2.43.0


From c692fb5417a67fd20aea7fe1adb487d09f41339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 091/176] fix: converting an option to a plain type is not
 lossless

---
 src/dynd/types/option_type.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index 38df914..2bb9ef8 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -165,9 +165,13 @@ ndt::type ndt::option_type::get_type_at_dimension(char **inout_arrmeta, intptr_t
 
 bool ndt::option_type::is_lossless_assignment(const type &dst_tp, const type &src_tp) const {
   if (dst_tp.extended() == this) {
+    if (src_tp.get_id() == option_id) {
+      return ::is_lossless_assignment(m_value_tp, src_tp.extended<option_type>()->get_value_type());
+    }
     return ::is_lossless_assignment(m_value_tp, src_tp);
   } else {
-    return ::is_lossless_assignment(dst_tp, m_value_tp);
+    // A missing value only fits into another option
+    return false;
   }
 }
 
-- 
2.43.0


From 601b426c3a42588cc6756c00a863bba1c9a128fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 092/176] fix: a variable and a fixed dimension promote to a
 variable dimension

---
 src/dynd/type_promotion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type_promotion.cpp b/src/dynd/type_promotion.cpp
index b822545..df2f0c8 100644
--- a/src/dynd/type_promotion.cpp
+++ b/src/dynd/type_promotion.cpp
@@ -224,8 +224,8 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
   }
 
   // Promote some dimension types
-  if ((tp0_val.get_id() == var_dim_id && tp1_val.get_base_id() == dim_kind_id) ||
-      (tp1_val.get_id() == var_dim_id && tp0_val.get_base_id() == dim_kind_id)) {
+  if ((tp0_val.get_id() == var_dim_id && (tp1_val.get_id() == var_dim_id || tp1_val.get_id() == fixed_dim_id)) ||
+      (tp1_val.get_id() == var_dim_id && tp0_val.get_id() == fixed_dim_id)) {
     return ndt::make_type<ndt::var_dim_type>(
         promote_types_arithmetic(tp0_val.extended<ndt::base_dim_type>()->get_element_type(),
                                  tp1_val.extended<ndt::base_dim_type>()->get_element_type()));
-- 
2.43.0


From 903559336aa6aadcfc945fdd5848cd0ff2ae501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 093/176] fix: arrays with a negative stride are sorted

---
 include/dynd/bytes.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dynd/bytes.hpp b/include/dynd/bytes.hpp
index 519540c..55bc080 100644
--- a/include/dynd/bytes.hpp
+++ b/include/dynd/bytes.hpp
@@ -158,17 +158,18 @@ public:
     return *this;
   }
 
-  bool operator<(const strided_iterator &rhs) const { return m_data < rhs.m_data; }
+  // The order of the positions, which with a negative stride is not the one of the addresses
+  bool operator<(const strided_iterator &rhs) const { return m_stride < 0 ? rhs.m_data < m_data : m_data < rhs.m_data; }
 
-  bool operator<=(const strided_iterator &rhs) const { return m_data <= rhs.m_data; }
+  bool operator<=(const strided_iterator &rhs) const { return !(rhs < *this); }
 
   bool operator==(const strided_iterator &rhs) const { return m_data == rhs.m_data; }
 
   bool operator!=(const strided_iterator &rhs) const { return m_data != rhs.m_data; }
 
-  bool operator>=(const strided_iterator &rhs) const { return m_data >= rhs.m_data; }
+  bool operator>=(const strided_iterator &rhs) const { return !(*this < rhs); }
 
-  bool operator>(const strided_iterator &rhs) const { return m_data > rhs.m_data; }
+  bool operator>(const strided_iterator &rhs) const { return rhs < *this; }
 
   std::ptrdiff_t operator-(strided_iterator rhs) { return (m_data - rhs.m_data) / m_stride; }
 
@@ -176,6 +177,7 @@ public:
   {
     m_data = other.m_data;
     m_size = other.m_size;
+    m_stride = other.m_stride;
 
     return *this;
   }
-- 
2.43.0


From 318b3f308ee28c16409070609ea64914399ff2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 094/176] fix: binary_search refuses a value of another type
 than the elements

---
 include/dynd/callables/binary_search_callable.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 5f5da11..e70eed3 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -22,6 +22,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
+      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
+      if (src_tp[1] != element_tp) {
+        std::stringstream ss;
+        ss << "binary_search: the value to find has type " << src_tp[1] << ", the elements have type " << element_tp;
+        throw type_error(ss.str());
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                          const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                          const char *const *src_arrmeta) {
@@ -33,7 +40,6 @@ namespace nd {
         kb(kernreq | kernel_request_data_only, nullptr, nullptr, 2, child_src_arrmeta);
       });
 
-      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
       ndt::type child_src_tp[2] = {element_tp, element_tp};
 
       total_order->resolve(this, nullptr, cg, ndt::make_type<int>(), 2, child_src_tp, 0, NULL, tp_vars);
-- 
2.43.0


From 6118030cdd1bc848803181dc20d416e2632c25bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 095/176] fix: a search in an empty array finds nothing

---
 include/dynd/callables/binary_search_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index e70eed3..7222c03 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -22,7 +22,7 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
-      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
+      ndt::type element_tp = src_tp[0].extended<ndt::base_dim_type>()->get_element_type();
       if (src_tp[1] != element_tp) {
         std::stringstream ss;
         ss << "binary_search: the value to find has type " << src_tp[1] << ", the elements have type " << element_tp;
-- 
2.43.0


From 5aba26b418c782df95b57759f264be8f9f9e0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 096/176] fix: ranges at the limits of their type and without a
 finite progression

---
 include/dynd/callables/range_callable.hpp | 23 ++-------
 include/dynd/kernels/range_kernel.hpp     | 58 ++++++++++++++++++++++-
 src/dynd/array_range.cpp                  | 47 ++----------------
 3 files changed, 66 insertions(+), 62 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 329c05a..37dcda6 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -63,23 +63,8 @@ namespace nd {
             reinterpret_cast<const ndt::fixed_dim_type::metadata_type *>(dst_arrmeta)->stride);
       });
 
-      if (step > 0) {
-        if (stop <= start) {
-          return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
-        } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step - 1) / step),
-                                                     ndt::make_type<ReturnElementType>());
-        }
-      } else if (step < 0) {
-        if (stop >= start) {
-          return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
-        } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step + 1) / step),
-                                                     ndt::make_type<ReturnElementType>());
-        }
-      } else {
-        throw std::runtime_error("");
-      }
+      return ndt::make_type<ndt::fixed_dim_type>(dynd::detail::range_size(start, stop, step),
+                                                 ndt::make_type<ReturnElementType>());
     }
   };
 
@@ -131,8 +116,8 @@ namespace nd {
             reinterpret_cast<const ndt::fixed_dim_type::metadata_type *>(ret_metadata)->stride);
       });
 
-      size_t size = static_cast<size_t>(floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step));
-      return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
+      return ndt::make_type<ndt::fixed_dim_type>(dynd::detail::range_size(start, stop, step),
+                                                 ndt::make_type<ReturnElementType>());
     }
   };
 
diff --git a/include/dynd/kernels/range_kernel.hpp b/include/dynd/kernels/range_kernel.hpp
index 20018bc..f9b4d7a 100644
--- a/include/dynd/kernels/range_kernel.hpp
+++ b/include/dynd/kernels/range_kernel.hpp
@@ -5,9 +5,65 @@
 
 #pragma once
 
+#include <cmath>
+#include <cstdint>
+#include <limits>
+#include <stdexcept>
+
 #include <dynd/kernels/base_strided_kernel.hpp>
 
 namespace dynd {
+namespace detail {
+
+  // The number of elements of the progression from start by step which lie before stop, without overflow on the way
+  template <typename T>
+  std::enable_if_t<std::is_integral<T>::value, intptr_t> range_size(T start, T stop, T step) {
+    if (step == 0) {
+      throw std::runtime_error("nd::range cannot have a zero-sized step");
+    }
+
+    bool up = step > 0;
+    if (up ? stop <= start : stop >= start) {
+      return 0;
+    }
+
+    uint64_t distance = up ? static_cast<uint64_t>(stop) - static_cast<uint64_t>(start)
+                           : static_cast<uint64_t>(start) - static_cast<uint64_t>(stop);
+    uint64_t size = (distance - 1) / (up ? static_cast<uint64_t>(step) : -static_cast<uint64_t>(step));
+    if (size >= static_cast<uint64_t>(std::numeric_limits<intptr_t>::max())) {
+      throw std::runtime_error("nd::range has too many elements");
+    }
+    return static_cast<intptr_t>(size + 1);
+  }
+
+  template <typename T>
+  std::enable_if_t<std::is_floating_point<T>::value, intptr_t> range_size(T start, T stop, T step) {
+    if (step == 0) {
+      throw std::runtime_error("nd::range cannot have a zero-sized step");
+    }
+
+    // Add half a step to make the count robust. This requires
+    // that the range given is approximately a multiple of step
+    T size = std::floor((stop - start + static_cast<T>(0.5) * step) / step);
+    if (!(size < static_cast<T>(std::numeric_limits<intptr_t>::max()))) {
+      throw std::runtime_error("nd::range does not have a finite number of elements");
+    }
+    return size > 0 ? static_cast<intptr_t>(size) : 0;
+  }
+
+  // The element of the progression at i
+  template <typename T>
+  std::enable_if_t<std::is_integral<T>::value, T> range_element(T start, T step, intptr_t i) {
+    return static_cast<T>(static_cast<uint64_t>(start) + static_cast<uint64_t>(i) * static_cast<uint64_t>(step));
+  }
+
+  template <typename T>
+  std::enable_if_t<std::is_floating_point<T>::value, T> range_element(T start, T step, intptr_t i) {
+    return static_cast<T>(start + i * step);
+  }
+
+} // namespace dynd::detail
+
 namespace nd {
 
   typedef intptr_t stride_t;
@@ -25,7 +81,7 @@ namespace nd {
 
     void single(char *ret, char *const *DYND_UNUSED(args)) {
       for (size_t i = 0; i < size; ++i) {
-        *reinterpret_cast<ReturnElementType *>(ret) = start + static_cast<ReturnElementType>(i) * step;
+        *reinterpret_cast<ReturnElementType *>(ret) = dynd::detail::range_element<ReturnElementType>(start, step, i);
         ret += stride;
       }
     }
diff --git a/src/dynd/array_range.cpp b/src/dynd/array_range.cpp
index 5842e29..c27cfbc 100644
--- a/src/dynd/array_range.cpp
+++ b/src/dynd/array_range.cpp
@@ -8,6 +8,7 @@
 
 #include <dynd/array.hpp>
 #include <dynd/array_range.hpp>
+#include <dynd/kernels/range_kernel.hpp>
 #include <dynd/type_promotion.hpp>
 
 using namespace std;
@@ -23,7 +24,7 @@ struct range_specialization {
     // cout << "range with count " << count << endl;
     char *dst = result.data();
     for (intptr_t i = 0; i < count; ++i, dst += stride) {
-      *reinterpret_cast<T *>(dst) = static_cast<T>(begin + i * step);
+      *reinterpret_cast<T *>(dst) = dynd::detail::range_element<T>(begin, step, i);
     }
   }
 };
@@ -68,48 +69,10 @@ struct range_counter {
 };
 
 template <class T>
-struct range_counter<T, std::enable_if_t<is_unsigned_integral<T>::value>> {
+struct range_counter<T, std::enable_if_t<std::is_arithmetic<T>::value>> {
   static intptr_t count(const void *beginval, const void *endval, const void *stepval) {
-    T begin = *reinterpret_cast<const T *>(beginval);
-    T end = *reinterpret_cast<const T *>(endval);
-    T step = *reinterpret_cast<const T *>(stepval);
-    // cout << "range params " << begin << "  " << end << "  " << step << "\n";
-    if (step > 0) {
-      if (end <= begin) {
-        return 0;
-      }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
-    } else {
-      throw std::runtime_error("nd::range cannot have a zero-sized step");
-    }
-  }
-};
-
-template <class T>
-struct range_counter<T, std::enable_if_t<dynd::is_floating_point<T>::value>> {
-  static intptr_t count(const void *beginval, const void *endval, const void *stepval) {
-    T begin = *reinterpret_cast<const T *>(beginval);
-    T end = *reinterpret_cast<const T *>(endval);
-    T step = *reinterpret_cast<const T *>(stepval);
-    // cout << "nd::range params " << begin << "  " << end << "  " << step <<
-    // "\n";
-    if (step > 0) {
-      if (end <= begin) {
-        return 0;
-      }
-      // Add half a step to make the count robust. This requires
-      // that the range given is approximately a multiple of step
-      return (intptr_t)floor((end - begin + 0.5 * step) / step);
-    } else if (step < 0) {
-      if (end >= begin) {
-        return 0;
-      }
-      // Add half a step to make the count robust. This requires
-      // that the range given is approximately a multiple of step
-      return (intptr_t)floor((end - begin + 0.5 * step) / step);
-    } else {
-      throw std::runtime_error("nd::range cannot have a zero-sized step");
-    }
+    return dynd::detail::range_size(*reinterpret_cast<const T *>(beginval), *reinterpret_cast<const T *>(endval),
+                                    *reinterpret_cast<const T *>(stepval));
   }
 };
 } // anonymous namespace
-- 
2.43.0


From 28a6a31ba7a7fe39fc55271822574351b3da02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 097/176] fix: random integers from an empty interval are
 refused

---
 include/dynd/callables/uniform_callable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/callables/uniform_callable.hpp b/include/dynd/callables/uniform_callable.hpp
index b941cc1..daeefb9 100644
--- a/include/dynd/callables/uniform_callable.hpp
+++ b/include/dynd/callables/uniform_callable.hpp
@@ -5,6 +5,8 @@
 
 #pragma once
 
+#include <stdexcept>
+
 #include <dynd/callables/base_callable.hpp>
 #include <dynd/kernels/uniform_kernel.hpp>
 #include <dynd/types/callable_type.hpp>
@@ -47,6 +49,10 @@ namespace nd {
           b = kwds[1].as<ReturnType>();
         }
 
+        if (b < a) {
+          throw std::invalid_argument("random::uniform needs an interval whose start is not after its end");
+        }
+
         cg.emplace_back([g, a, b](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                                   const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                                   const char *const *DYND_UNUSED(src_arrmeta)) {
-- 
2.43.0


From 47cdb297a6399c74b48c73d2430708fe165f4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 098/176] fix: random numbers from an interval of infinite
 length are refused

---
 include/dynd/callables/uniform_callable.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dynd/callables/uniform_callable.hpp b/include/dynd/callables/uniform_callable.hpp
index daeefb9..305c3e5 100644
--- a/include/dynd/callables/uniform_callable.hpp
+++ b/include/dynd/callables/uniform_callable.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <stdexcept>
 
 #include <dynd/callables/base_callable.hpp>
@@ -93,6 +94,10 @@ namespace nd {
           b = kwds[1].as<ReturnType>();
         }
 
+        if (!std::isfinite(b - a)) {
+          throw std::invalid_argument("random::uniform needs an interval whose length is finite");
+        }
+
         cg.emplace_back([g, a, b](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                                   const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                                   const char *const *DYND_UNUSED(src_arrmeta)) {
@@ -133,6 +138,10 @@ namespace nd {
           b = kwds[1].as<ReturnType>();
         }
 
+        if (!std::isfinite(b.real() - a.real()) || !std::isfinite(b.imag() - a.imag())) {
+          throw std::invalid_argument("random::uniform needs an interval whose length is finite");
+        }
+
         cg.emplace_back([g, a, b](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                                   const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                                   const char *const *DYND_UNUSED(src_arrmeta)) {
-- 
2.43.0


From 77dd64801c63bd17840019d262df5d006b62052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 099/176] fix: assigning an intrusive_ptr to itself must not
 destroy its object

---
 include/dynd/config.hpp | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/include/dynd/config.hpp b/include/dynd/config.hpp
index 31d7381..bdacc1d 100644
--- a/include/dynd/config.hpp
+++ b/include/dynd/config.hpp
@@ -275,39 +275,21 @@ public:
 
   /** Assignment */
   intrusive_ptr &operator=(const intrusive_ptr &rhs) {
-    if (m_ptr != 0) {
-      intrusive_ptr_release(m_ptr);
-    }
-    if (rhs.m_ptr != 0) {
-      m_ptr = rhs.m_ptr;
-      intrusive_ptr_retain(m_ptr);
-    } else {
-      m_ptr = 0;
-    }
+    // The new object is retained before the old one is released: they may be the same object, or releasing the old one
+    // may destroy rhs.
+    intrusive_ptr(rhs).swap(*this);
     return *this;
   }
 
   /** Move assignment */
   intrusive_ptr &operator=(intrusive_ptr &&rhs) {
-    if (m_ptr != 0) {
-      intrusive_ptr_release(m_ptr);
-    }
-    m_ptr = rhs.m_ptr;
-    rhs.m_ptr = 0;
+    intrusive_ptr(std::move(rhs)).swap(*this);
     return *this;
   }
 
   /** Assignment from raw memory_block pointer */
   intrusive_ptr &operator=(T *rhs) {
-    if (m_ptr != nullptr) {
-      intrusive_ptr_release(m_ptr);
-    }
-
-    m_ptr = rhs;
-    if (m_ptr != nullptr) {
-      intrusive_ptr_retain(m_ptr);
-    }
-
+    intrusive_ptr(rhs).swap(*this);
     return *this;
   }
 
-- 
2.43.0


From 0fb398528a8a57be13b05496b8c2ff5f129bbbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 100/176] fix: array::rotate refuses negative axes instead of
 writing before its buffer

---
 src/dynd/array.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 332e597..34e53d4 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -542,6 +542,12 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
 }
 
 nd::array nd::array::rotate(intptr_t to, intptr_t from) const {
+  if (to < 0 || from < 0) {
+    stringstream ss;
+    ss << "Invalid axes provided to dynd axis rotate: from " << from << " to " << to;
+    throw invalid_argument(ss.str());
+  }
+
   if (from < to) {
     intptr_t ndim = to + 1;
     dimvector axes(ndim);
-- 
2.43.0


From bce58e129704e0203ba537863fce8c85e76ba911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 101/176] fix: assignment between pointer types is refused
 instead of calling a null kernel

---
 include/dynd/callables/assign_callable.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 0f277eb..26bf7d3 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -504,19 +504,12 @@ namespace nd {
               ndt::make_type<ndt::pointer_type>(), {ndt::make_type<ndt::pointer_type>()},
               {{ndt::make_type<ndt::option_type>(ndt::make_type<assign_error_mode>()), "error_mode"}})) {}
 
-    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
+    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &DYND_UNUSED(cg),
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
-                         size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
-        kb.emplace_back<assignment_kernel<ndt::pointer_type, ndt::pointer_type>>(kernreq);
-
-        const char *child_src_arrmeta = src_arrmeta[0] + sizeof(pointer_type_arrmeta);
-        kb(kernel_request_single, nullptr, dst_arrmeta, 1, &child_src_arrmeta);
-      });
-
-      return dst_tp;
+      // TODO: There is no kernel yet which allocates the target in the destination's memory block and assigns to it
+      throw type_error("cannot assign from " + src_tp[0].str() + " to " + dst_tp.str());
     }
   };
 
-- 
2.43.0


From 426c4af4f97245844e4ebe5e83826ade9d6a55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:11 +0000
Subject: [PATCH 102/176] fix: growing a pod_memory_block allocation into a new
 chunk copies exactly the old bytes

---
 include/dynd/memblock/pod_memory_block.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 0165dcf..6d70dd8 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -88,23 +88,20 @@ namespace nd {
       //    cout << "memory state before " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
       //    /
       // " << (void *)emb->m_memory_end << endl;
-      char **inout_end = &m_memory_current;
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
         // If it fits, just adjust the current allocation point
         m_memory_current = end;
-        *inout_end = end;
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
+        char *old_current = inout_begin, *old_end = m_memory_current;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, *inout_end - inout_begin);
+        memcpy(m_memory_begin, old_current, old_end - old_current);
         end = m_memory_begin + size_bytes;
         m_memory_current = end;
         inout_begin = m_memory_begin;
-        *inout_end = end;
         m_total_allocated_capacity -= old_end - old_current;
       }
       //    cout << "memory state after " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
-- 
2.43.0


From 7497a298b8ab4a189b849c1e08f2f54503d2de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:11 +0000
Subject: [PATCH 103/176] fix: destroying an array of pointers must not call
 the unimplemented data_destruct of pointer

---
 include/dynd/types/pointer_type.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 8bdb036..8088573 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -38,7 +38,9 @@ namespace ndt {
   public:
     pointer_type(type_id_t id, const type &target_tp = make_type<any_kind_type>())
         : base_type(id, sizeof(char *), alignof(char *),
-                    target_tp.get_flags() | type_flag_zeroinit | type_flag_blockref,
+                    // The target belongs to the referenced memory block, it is not constructed or destroyed with the pointer
+                    (target_tp.get_flags() & ~(type_flag_construct | type_flag_destructor)) | type_flag_zeroinit |
+                        type_flag_blockref,
                     target_tp.get_arrmeta_size() + sizeof(pointer_type_arrmeta), 0, 0),
           m_target_tp(target_tp) {}
 
-- 
2.43.0


From 439a5991fd0bb3ff590fb8cbb0f3511d37eba5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:11 +0000
Subject: [PATCH 104/176] fix: indexing through a pointer computes the type for
 the metadata it builds

---
 src/dynd/types/pointer_type.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/pointer_type.cpp b/src/dynd/types/pointer_type.cpp
index 52bea5a..4808a2a 100644
--- a/src/dynd/types/pointer_type.cpp
+++ b/src/dynd/types/pointer_type.cpp
@@ -57,11 +57,12 @@ const ndt::type &ndt::pointer_type::get_operand_type() const {
 }
 
 ndt::type ndt::pointer_type::apply_linear_index(intptr_t nindices, const irange *indices, size_t current_i,
-                                                const type &root_tp, bool leading_dimension) const {
+                                                const type &root_tp, bool DYND_UNUSED(leading_dimension)) const {
   if (nindices == 0) {
     return type(this, true);
   } else {
-    type dt = m_target_tp.apply_linear_index(nindices, indices, current_i, root_tp, leading_dimension);
+    // The pointer is kept, so what is behind it isn't a leading dimension any more
+    type dt = m_target_tp.apply_linear_index(nindices, indices, current_i, root_tp, false);
     if (dt == m_target_tp) {
       return type(this, true);
     } else {
-- 
2.43.0


From 97b1839480e02b11f265f1ee73b59a273ce06a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 105/176] fix: arrays of callables can be destroyed

---
 src/dynd/types/callable_type.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/dynd/types/callable_type.cpp b/src/dynd/types/callable_type.cpp
index a8fe438..9dc76b5 100644
--- a/src/dynd/types/callable_type.cpp
+++ b/src/dynd/types/callable_type.cpp
@@ -4,6 +4,7 @@
 //
 
 #include <dynd/array.hpp>
+#include <dynd/callable.hpp>
 #include <dynd/type_registry.hpp>
 #include <dynd/types/callable_type.hpp>
 #include <dynd/types/fixed_dim_type.hpp>
@@ -163,25 +164,15 @@ void ndt::callable_type::arrmeta_finalize_buffers(char *DYND_UNUSED(arrmeta)) co
 
 void ndt::callable_type::arrmeta_destruct(char *DYND_UNUSED(arrmeta)) const {}
 
-void ndt::callable_type::data_destruct(const char *DYND_UNUSED(arrmeta), char *DYND_UNUSED(data)) const {
-  throw std::runtime_error("data_destruct is not implemented for callable_type");
-
-  /*
-    const data_type *d = reinterpret_cast<data_type *>(data);
-    d->~data_type();
-  */
+void ndt::callable_type::data_destruct(const char *DYND_UNUSED(arrmeta), char *data) const {
+  reinterpret_cast<data_type *>(data)->~data_type();
 }
 
-void ndt::callable_type::data_destruct_strided(const char *DYND_UNUSED(arrmeta), char *DYND_UNUSED(data),
-                                               intptr_t DYND_UNUSED(stride), size_t DYND_UNUSED(count)) const {
-  throw std::runtime_error("data_destruct_strided is not implemented for callable_type");
-
-  /*
-    for (size_t i = 0; i != count; ++i, data += stride) {
-      const data_type *d = reinterpret_cast<data_type *>(data);
-      d->~data_type();
-    }
-  */
+void ndt::callable_type::data_destruct_strided(const char *DYND_UNUSED(arrmeta), char *data, intptr_t stride,
+                                               size_t count) const {
+  for (size_t i = 0; i != count; ++i, data += stride) {
+    reinterpret_cast<data_type *>(data)->~data_type();
+  }
 }
 
 bool ndt::callable_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
-- 
2.43.0


From 287adb146818b783b06b5f887658262d13377872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 106/176] fix: elwise of a callable which already takes
 ellipsis dimensions

---
 include/dynd/callables/elwise_entry_callable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/elwise_entry_callable.hpp b/include/dynd/callables/elwise_entry_callable.hpp
index 159b464..3da066a 100644
--- a/include/dynd/callables/elwise_entry_callable.hpp
+++ b/include/dynd/callables/elwise_entry_callable.hpp
@@ -41,7 +41,8 @@ namespace nd {
             data.state = true;
           }
 
-          size_t ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          // A child with ellipsis dimensions takes all dimensions itself
+          size_t ndim = child_arg_tp[i].get_id() == ellipsis_dim_id ? 0 : src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
           if (ndim > data.ndim) {
             data.ndim = ndim;
           }
@@ -49,7 +50,7 @@ namespace nd {
 
         const ndt::type &child_ret_tp = data.child->get_ret_type();
         if (!m_res_ignore && !dst_tp.is_variadic()) {
-          size_t ndim = dst_tp.get_ndim() - child_ret_tp.get_ndim();
+          size_t ndim = child_ret_tp.get_id() == ellipsis_dim_id ? 0 : dst_tp.get_ndim() - child_ret_tp.get_ndim();
           if (ndim > data.ndim) {
             data.ndim = ndim;
           } else if (ndim < data.ndim) {
-- 
2.43.0


From c926bced9fdcbef66b383af03b0f8ea58a596926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:28 +0000
Subject: [PATCH 107/176] fix: empty_like takes the shape behind a pointer too

---
 src/dynd/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 34e53d4..e8afa57 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -831,7 +831,8 @@ nd::array nd::empty_like(const nd::array &rhs) {
   } else {
     intptr_t ndim = dt.extended()->get_ndim();
     dimvector shape(ndim);
-    rhs.get_shape(shape.get());
+    // The canonical type may have more dimensions than rhs, those behind a pointer
+    rhs.get_type()->get_shape(ndim, 0, shape.get(), rhs.get()->metadata(), rhs.cdata());
     nd::array result = empty(make_type(ndim, shape.get(), dt.get_dtype()));
     // Reorder strides of output strided dimensions in a KEEPORDER fashion
     if (result.get_type().get_id() == fixed_dim_id) {
-- 
2.43.0


From 0cf3a4ba146f59c3a1016d1949f7f8bc5534e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 108/176] fix: a Dim pattern binds the type variables of its
 element

---
 src/dynd/types/dim_kind_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/dim_kind_type.cpp b/src/dynd/types/dim_kind_type.cpp
index 63e6d44..bf2ad19 100644
--- a/src/dynd/types/dim_kind_type.cpp
+++ b/src/dynd/types/dim_kind_type.cpp
@@ -16,8 +16,8 @@ ndt::dim_kind_type::dim_kind_type(type_id_t id, const type &element_tp)
   this->flags |= (element_tp.get_flags() & (type_flags_operand_inherited | type_flags_value_inherited));
 }
 
-bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1));
+bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
+  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1), tp_vars);
 }
 
 void ndt::dim_kind_type::print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From 4b15906f85fb0e6d32258ffa5833f9105428bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 109/176] fix: ellipsis substitution does not read the name
 through another type

---
 src/dynd/types/substitute_typevars.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index b41192f..de11742 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -331,7 +331,7 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case ellipsis_dim_id: {
     const std::string &name = pattern.extended<ellipsis_dim_type>()->get_name();
     if (!name.empty()) {
-      map<std::string, ndt::type>::const_iterator it = typevars.find(pattern.extended<typevar_dim_type>()->get_name());
+      map<std::string, ndt::type>::const_iterator it = typevars.find(name);
       if (it != typevars.end()) {
         if (it->second.get_id() == dim_fragment_id) {
           return it->second.extended<dim_fragment_type>()->apply_to_dtype(
-- 
2.43.0


From 549ecafbbad057603a196120bacf4c27c8cc52ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 110/176] fix: substitution keeps a variadic tuple or struct
 variadic

---
 src/dynd/types/substitute_typevars.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index de11742..a7aca23 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -36,6 +36,18 @@ static std::vector<ndt::type> substitute_type_array(const std::vector<ndt::type>
   return tmp_field_types;
 }
 
+/**
+ * A variadic list of fields stays variadic, which is only possible when a concrete result is not required
+ */
+static bool check_variadic(const ndt::type &pattern, bool variadic, bool concrete) {
+  if (variadic && concrete) {
+    stringstream ss;
+    ss << "The dynd type " << pattern << " is variadic, which is not concrete as requested";
+    throw invalid_argument(ss.str());
+  }
+  return variadic;
+}
+
 // This substitutes just the types supported by the datashape argument grammar
 static void internal_substitute_args(const ndt::type &tp, const char *out_arrmeta, char *out_data,
                                      const char *in_arrmeta, const char *in_data,
@@ -135,11 +147,14 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case struct_id:
     return ndt::make_type<ndt::struct_type>(
         pattern.extended<struct_type>()->get_field_names(),
-        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete));
+        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete),
+        check_variadic(pattern, pattern.extended<struct_type>()->is_variadic(), concrete));
   case tuple_id: {
     const std::vector<ndt::type> &element_tp =
         substitute_type_array(pattern.extended<tuple_type>()->get_field_types(), typevars, concrete);
-    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data());
+    return ndt::make_type<ndt::tuple_type>(
+        element_tp.size(), element_tp.data(),
+        check_variadic(pattern, pattern.extended<tuple_type>()->is_variadic(), concrete));
   }
   case option_id:
     return ndt::make_type<ndt::option_type>(
-- 
2.43.0


From ea95cc5a6c9edabff2f527b9c02c50de28174f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 111/176] fix: substitution handles the kinds like Any and
 Scalar

---
 src/dynd/types/substitute_typevars.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index a7aca23..e1944d7 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -6,6 +6,7 @@
 #include <dynd/type_registry.hpp>
 #include <dynd/types/cuda_device_type.hpp>
 #include <dynd/types/dim_fragment_type.hpp>
+#include <dynd/types/dim_kind_type.hpp>
 #include <dynd/types/ellipsis_dim_type.hpp>
 #include <dynd/types/fixed_dim_type.hpp>
 #include <dynd/types/option_type.hpp>
@@ -372,6 +373,26 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
       throw invalid_argument("Cannot substitute into an unnamed ellipsis typevar");
     }
   }
+  case dim_kind_id: {
+    if (concrete) {
+      stringstream ss;
+      ss << "The dynd type " << pattern << " is not concrete as required";
+      throw invalid_argument(ss.str());
+    } else {
+      return ndt::make_type<ndt::dim_kind_type>(
+          ndt::substitute(pattern.extended<base_dim_type>()->get_element_type(), typevars, concrete));
+    }
+  }
+  case bool_kind_id:
+  case int_kind_id:
+  case uint_kind_id:
+  case float_kind_id:
+  case complex_kind_id:
+  case bytes_kind_id:
+  case fixed_bytes_kind_id:
+  case string_kind_id:
+  case fixed_string_kind_id:
+  case categorical_kind_id:
   case any_kind_id: {
     if (concrete) {
       stringstream ss;
-- 
2.43.0


From 9a2cd6d0078996f940138351aea3fbaee1780183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 112/176] fix: type constructor arguments of a callable type
 with keywords

---
 src/dynd/types/callable_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/callable_type.cpp b/src/dynd/types/callable_type.cpp
index 9dc76b5..a6f25fe 100644
--- a/src/dynd/types/callable_type.cpp
+++ b/src/dynd/types/callable_type.cpp
@@ -221,7 +221,7 @@ nd::buffer ndt::callable_type::get_type_constructor_args() const {
     reinterpret_cast<ndt::type *>(callable_args.data())[0] = get_return_type();
     reinterpret_cast<ndt::type *>(callable_args.data())[1] = get_pos_tuple();
   } else {
-    nd::buffer callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
+    callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
         {ndt::make_type<ndt::tuple_type>(
              {ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>()}),
          ndt::make_type<ndt::struct_type>()}));
-- 
2.43.0


From 85939158fc4452eb81c1cf600641126e5c58e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 113/176] fix: var ** N matches only var dimensions

---
 src/dynd/types/pow_dimsym_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 149a282..53cca37 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -219,6 +219,8 @@ bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string,
     for (intptr_t i = 0; i < exponent; ++i) {
       if (concrete_subtype.get_id() == var_dim_id) {
         concrete_subtype = concrete_subtype.extended<base_dim_type>()->get_element_type();
+      } else {
+        return false;
       }
     }
     break;
-- 
2.43.0


From ff52364b454f9d88b020a934fb847d8af85b5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 114/176] fix: broadcasting dimension fragments fills in every
 dimension

---
 src/dynd/types/dim_fragment_type.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynd/types/dim_fragment_type.cpp b/src/dynd/types/dim_fragment_type.cpp
index f1d9bf7..37222e4 100644
--- a/src/dynd/types/dim_fragment_type.cpp
+++ b/src/dynd/types/dim_fragment_type.cpp
@@ -40,6 +40,7 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
   tp = tp.without_memory_type();
   for (intptr_t i = 0; i < ndim; ++i) {
     intptr_t tagged_dim = tagged_dims[i], dim_size;
+    out_tagged_dims[i] = tagged_dim;
     switch (tp.get_id()) {
     case fixed_dim_kind_id: {
       if (tagged_dim < 0) {
-- 
2.43.0


From 4f88dae03b2ce6cf3634085dab9b8819bd86cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:08 +0000
Subject: [PATCH 115/176] fix: Bytes matches fixed_bytes, as String matches
 fixed_string

---
 include/dynd/types/bytes_kind_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/bytes_kind_type.hpp b/include/dynd/types/bytes_kind_type.hpp
index 3982f70..1b93b2b 100644
--- a/include/dynd/types/bytes_kind_type.hpp
+++ b/include/dynd/types/bytes_kind_type.hpp
@@ -15,7 +15,8 @@ namespace ndt {
     bytes_kind_type(type_id_t id) : base_type(id, 0, 1, type_flag_symbolic, 0, 0, 0) {}
 
     bool match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-      return candidate_tp.get_base_id() == bytes_kind_id;
+      return candidate_tp.get_id() == bytes_kind_id || candidate_tp.get_id() == bytes_id ||
+             candidate_tp.get_id() == fixed_bytes_kind_id || candidate_tp.get_id() == fixed_bytes_id;
     }
 
     void print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From c087ba173173d9445479948633f4f9bc8a5bd72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:08 +0000
Subject: [PATCH 116/176] fix: substitute into callables nested in other types

---
 include/dynd/types/substitute_typevars.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/dynd/types/substitute_typevars.hpp b/include/dynd/types/substitute_typevars.hpp
index 90cb671..5c8b294 100644
--- a/include/dynd/types/substitute_typevars.hpp
+++ b/include/dynd/types/substitute_typevars.hpp
@@ -28,13 +28,15 @@ namespace ndt {
   {
     // This check for whether ``pattern`` is symbolic is put here in the inline function to avoid the call overhead in
     // this case. Callables are not symbolic themselves, but may contain symbolic types within them that need
-    // substitution.
+    // substitution, also when they are nested in another type.
     if (!pattern.is_symbolic() && pattern.get_id() != callable_id) {
-      return pattern;
-    }
-    else {
-      return detail::internal_substitute(pattern, typevars, concrete);
+      std::unordered_set<std::string> vars;
+      pattern.get_vars(vars);
+      if (vars.empty()) {
+        return pattern;
+      }
     }
+    return detail::internal_substitute(pattern, typevars, concrete);
   }
 }
 } // namespace dynd::ndt
-- 
2.43.0


From 2a2c45bc94d3b659b701093525294afdd9b0b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 117/176] fix: every type with an element reports the type
 variables in it

---
 include/dynd/types/pointer_type.hpp    | 2 ++
 include/dynd/types/pow_dimsym_type.hpp | 6 ++++++
 include/dynd/types/struct_type.hpp     | 2 ++
 src/dynd/types/ellipsis_dim_type.cpp   | 4 +++-
 src/dynd/types/struct_type.cpp         | 6 ++++++
 5 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 8088573..296fb94 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -51,6 +51,8 @@ namespace ndt {
 
     void print_data(std::ostream &o, const char *arrmeta, const char *data) const;
 
+    void get_vars(std::unordered_set<std::string> &vars) const { m_target_tp.get_vars(vars); }
+
     void print_type(std::ostream &o) const;
 
     inline bool is_type_subarray(const type &subarray_tp) const {
diff --git a/include/dynd/types/pow_dimsym_type.hpp b/include/dynd/types/pow_dimsym_type.hpp
index 4d9ad20..e939478 100644
--- a/include/dynd/types/pow_dimsym_type.hpp
+++ b/include/dynd/types/pow_dimsym_type.hpp
@@ -45,6 +45,12 @@ namespace ndt {
 
     void print_data(std::ostream &o, const char *arrmeta, const char *data) const;
 
+    void get_vars(std::unordered_set<std::string> &vars) const {
+      m_base_tp.get_vars(vars);
+      vars.insert(m_exponent);
+      m_element_tp.get_vars(vars);
+    }
+
     void print_type(std::ostream &o) const;
 
     type apply_linear_index(intptr_t nindices, const irange *indices, size_t current_i, const type &root_tp,
diff --git a/include/dynd/types/struct_type.hpp b/include/dynd/types/struct_type.hpp
index 05828d6..22b7876 100644
--- a/include/dynd/types/struct_type.hpp
+++ b/include/dynd/types/struct_type.hpp
@@ -135,6 +135,8 @@ namespace ndt {
      */
     const type &get_field_type(intptr_t i) const;
 
+    void get_vars(std::unordered_set<std::string> &vars) const;
+
     bool is_expression() const;
     bool is_unique_data_owner(const char *arrmeta) const;
 
diff --git a/src/dynd/types/ellipsis_dim_type.cpp b/src/dynd/types/ellipsis_dim_type.cpp
index 43de556..c717660 100644
--- a/src/dynd/types/ellipsis_dim_type.cpp
+++ b/src/dynd/types/ellipsis_dim_type.cpp
@@ -11,7 +11,9 @@ using namespace std;
 using namespace dynd;
 
 void ndt::ellipsis_dim_type::get_vars(std::unordered_set<std::string> &vars) const {
-  vars.insert(m_name);
+  if (!m_name.empty()) {
+    vars.insert(m_name);
+  }
   m_element_tp.get_vars(vars);
 }
 
diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 885bed0..dcb6608 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -39,6 +39,12 @@ intptr_t ndt::struct_type::get_field_index(const std::string &name) const {
 
 const ndt::type &ndt::struct_type::get_field_type(intptr_t i) const { return m_field_types[i]; }
 
+void ndt::struct_type::get_vars(std::unordered_set<std::string> &vars) const {
+  for (intptr_t i = 0; i < m_field_count; ++i) {
+    m_field_types[i].get_vars(vars);
+  }
+}
+
 bool ndt::struct_type::is_expression() const {
   for (intptr_t i = 0, i_end = get_field_count(); i != i_end; ++i) {
     if (get_field_type(i).is_expression()) {
-- 
2.43.0


From 68271b7db4b3c589dbae51ba8bcd269c1269f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 118/176] fix: calls do not write to arrays that are not
 writable

---
 include/dynd/kernels/sort_kernel.hpp |  7 +++++++
 src/dynd/array.cpp                   | 13 +++++++++++--
 src/dynd/callables/base_callable.cpp |  3 +++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/sort_kernel.hpp b/include/dynd/kernels/sort_kernel.hpp
index 0e4f758..4b04845 100644
--- a/include/dynd/kernels/sort_kernel.hpp
+++ b/include/dynd/kernels/sort_kernel.hpp
@@ -23,6 +23,13 @@ namespace nd {
 
     ~sort_kernel() { get_child()->destroy(); }
 
+    void call(array *DYND_UNUSED(dst), const array *src)
+    {
+      // The values are sorted in place, this throws if that isn't allowed
+      char *src_data[1] = {src[0].data()};
+      single(nullptr, src_data);
+    }
+
     void single(char *DYND_UNUSED(dst), char *const *src)
     {
       kernel_prefix *child = get_child();
diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index e8afa57..ed63c9d 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -248,14 +248,23 @@ nd::array nd::array::eval_copy(uint32_t access_flags) const {
 
   const ndt::type &current_tp = get_type();
   const ndt::type &dt = current_tp.get_canonical_type();
-  array result = nd::empty(dt, access_flags);
+  array result = nd::empty(dt);
   if (dt.get_id() == fixed_dim_id) {
     // Reorder strides of output strided dimensions in a KEEPORDER fashion
     dt.extended<ndt::fixed_dim_type>()->reorder_default_constructed_strides(result.get()->metadata(), get_type(),
                                                                             get()->metadata());
   }
   result.assign(*this);
-  return result;
+  if (access_flags == readwrite_access_flags) {
+    return result;
+  }
+
+  // The values are written, restrict the access to them
+  array restricted = make_array(dt, const_cast<char *>(result.cdata()), result, access_flags);
+  if (dt.get_arrmeta_size() > 0) {
+    dt.extended()->arrmeta_copy_construct(restricted->metadata(), result->metadata(), result);
+  }
+  return restricted;
 }
 
 nd::array nd::array::to_host() const {
diff --git a/src/dynd/callables/base_callable.cpp b/src/dynd/callables/base_callable.cpp
index 4d42c42..3d11858 100644
--- a/src/dynd/callables/base_callable.cpp
+++ b/src/dynd/callables/base_callable.cpp
@@ -73,6 +73,9 @@ void nd::base_callable::call(const ndt::type &dst_tp, const char *dst_arrmeta, a
   kernel_builder kb(cg.get());
   kb(kernel_request_call, nullptr, dst_arrmeta, nsrc, src_arrmeta);
 
+  // The values are going to be written through dst, this throws if that isn't allowed
+  dst->data();
+
   kernel_call_t fn = kb.get()->get_function<kernel_call_t>();
   fn(kb.get(), dst, src);
 }
-- 
2.43.0


From 2f0244af1e58ba70ecb83dc8b037aa3780967099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 119/176] fix: read-only arrays can be viewed in another layout

---
 src/dynd/array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index ed63c9d..989dba8 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -544,7 +544,7 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
   pdd.arrmeta = res.get()->metadata();
   permute_type_dims(get_type(), 0, &pdd, transformed_tp, was_transformed);
 
-  nd::array second_res = make_array(transformed_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+  nd::array second_res = make_array(transformed_tp, const_cast<char *>(cdata()), get_owner() ? get_owner() : *this, get_flags());
   transformed_tp.extended()->arrmeta_copy_construct(second_res->metadata(), res->metadata(), memory_block());
 
   return second_res;
@@ -647,7 +647,7 @@ nd::array nd::array::new_axis(intptr_t i, intptr_t new_ndim) const {
   ndt::type dst_tp = src_tp.with_new_axis(i, new_ndim);
 
   // This is taken from view_concrete in view.cpp
-  nd::array res = make_array(dst_tp, data(), get_owner() ? get_data_memblock() : *this, get_flags());
+  nd::array res = make_array(dst_tp, const_cast<char *>(cdata()), get_owner() ? get_data_memblock() : *this, get_flags());
 
   char *src_arrmeta = const_cast<char *>(get()->metadata());
   char *dst_arrmeta = res.get()->metadata();
@@ -736,7 +736,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
       }
       // Create the result array, adjusting the type if the data isn't aligned
       // correctly
-      char *data_ptr = data();
+      char *data_ptr = const_cast<char *>(cdata());
       ndt::type result_tp;
       intptr_t dim_size = nbytes / scalar_tp.get_data_size();
       if ((((uintptr_t)data_ptr) & (scalar_tp.get_data_alignment() - 1)) == 0) {
@@ -745,7 +745,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
         throw std::runtime_error("creating an unaligned type");
         //        result_tp = ndt::make_fixed_dim(dim_size, make_unaligned(scalar_tp));
       }
-      array result = make_array(result_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+      array result = make_array(result_tp, const_cast<char *>(cdata()), get_owner() ? get_owner() : *this, get_flags());
       // The result has one strided ndarray field
       fixed_dim_type_arrmeta *result_md = reinterpret_cast<fixed_dim_type_arrmeta *>(result.get()->metadata());
       result_md->dim_size = dim_size;
@@ -908,7 +908,7 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     shape_copy[i] = shape(i).as<intptr_t>();
   }
 
-  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(), a.data(), a,
+  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(), const_cast<char *>(a.cdata()), a,
                                       NULL);
 }
 
-- 
2.43.0


From b2b2a3abcc3c0c615818b96f557a08dbb05e159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 120/176] fix: refusing an overload leaves the dispatcher as it
 was

---
 include/dynd/dispatcher.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dynd/dispatcher.hpp b/include/dynd/dispatcher.hpp
index a78623d..4965faa 100644
--- a/include/dynd/dispatcher.hpp
+++ b/include/dynd/dispatcher.hpp
@@ -180,9 +180,9 @@ public:
 
   template <typename Iterator>
   void assign(Iterator begin, Iterator end) {
-    m_children.resize(end - begin);
+    std::vector<T> children(end - begin);
 
-    std::vector<std::vector<size_t>> edges(m_children.size());
+    std::vector<std::vector<size_t>> edges(children.size());
     for (size_t i = 0; i < edges.size(); ++i) {
       const auto &f_i = begin[i];
       std::array<ndt::type, N> tp_i =
@@ -223,7 +223,10 @@ public:
       }
     }
 
-    topological_sort(begin, end, edges, m_children.begin());
+    if (!children.empty()) {
+      topological_sort(begin, end, edges, children.begin());
+    }
+    m_children.swap(children);
 
     //    m_map.clear();
   }
-- 
2.43.0


From a08fa5d96bac263661c5bfa83c95c593db738c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:13 +0000
Subject: [PATCH 121/176] fix: an ambiguity is resolved only by an overload for
 what both signatures match

---
 include/dynd/dispatcher.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dynd/dispatcher.hpp b/include/dynd/dispatcher.hpp
index 4965faa..c3f19ab 100644
--- a/include/dynd/dispatcher.hpp
+++ b/include/dynd/dispatcher.hpp
@@ -194,13 +194,19 @@ public:
             as_array<N>(m_dispatch(f_j->get_ret_type(), f_j->get_narg(), f_j->get_arg_types().data()));
 
         if (ambiguous(tp_i, tp_j)) {
+          // An overload for exactly the arguments that both match resolves the ambiguity
+          std::array<ndt::type, N> tp_both;
+          for (size_t k = 0; k < N; ++k) {
+            tp_both[k] = tp_j[k].match(tp_i[k]) ? tp_i[k] : tp_j[k];
+          }
+
           bool ok = false;
           for (size_t k = 0; k < edges.size(); ++k) {
             const auto &f_k = begin[k];
             std::array<ndt::type, N> tp_k =
                 as_array<N>(m_dispatch(f_k->get_ret_type(), f_k->get_narg(), f_k->get_arg_types().data()));
 
-            if (supercedes(tp_k, tp_i) && supercedes(tp_k, tp_j)) {
+            if (supercedes(tp_k, tp_both) && supercedes(tp_both, tp_k)) {
               ok = true;
             }
           }
-- 
2.43.0


From 353fa69c3e01915b75a995cdff1357923b6cb119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 122/176] fix: a pointer is a scalar whatever it points to

---
 include/dynd/types/pointer_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 296fb94..fbe51b9 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -39,7 +39,7 @@ namespace ndt {
     pointer_type(type_id_t id, const type &target_tp = make_type<any_kind_type>())
         : base_type(id, sizeof(char *), alignof(char *),
                     // The target belongs to the referenced memory block, it is not constructed or destroyed with the pointer
-                    (target_tp.get_flags() & ~(type_flag_construct | type_flag_destructor)) | type_flag_zeroinit |
+                    (target_tp.get_flags() & ~(type_flag_construct | type_flag_destructor | type_flag_variadic)) | type_flag_zeroinit |
                         type_flag_blockref,
                     target_tp.get_arrmeta_size() + sizeof(pointer_type_arrmeta), 0, 0),
           m_target_tp(target_tp) {}
-- 
2.43.0


From 72a2ec081e43809dd9b5ec5e83e51f352c3e6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:41 +0000
Subject: [PATCH 123/176] fix: type_id_t can hold the ids made at run time

---
 include/dynd/types/type_id.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/types/type_id.hpp b/include/dynd/types/type_id.hpp
index 6db5934..b4f06ff 100644
--- a/include/dynd/types/type_id.hpp
+++ b/include/dynd/types/type_id.hpp
@@ -14,7 +14,7 @@ namespace dynd {
 class bytes;
 class string;
 
-enum type_id_t {
+enum type_id_t : unsigned int {
   // The value zero is reserved for an uninitialized type.
   uninitialized_id,
 
-- 
2.43.0


From f2a405d21a6dcf389e9e8512ec49d95869ae2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:26 +0000
Subject: [PATCH 124/176] fix: arrays that are not writable can be combined
 into a tuple

---
 src/dynd/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 989dba8..e1f3a19 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -984,7 +984,7 @@ nd::array nd::combine_into_tuple(size_t field_count, const array *field_values)
   }
 
   // Set the data pointers
-  const char **dp = reinterpret_cast<const char **>(result.data());
+  const char **dp = reinterpret_cast<const char **>(const_cast<char *>(result.cdata()));
   for (size_t i = 0; i != field_count; ++i) {
     dp[i] = field_values[i].cdata();
   }
-- 
2.43.0


From 5253d5c50c6e1016a7fc40e44c9fe4b21c960725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 125/176] fix: memory blocks refuse allocations larger than the
 address space

count * size wrapped around, so a huge count was given a few bytes; a failed
malloc left the block with no current memory to reset to.
---
 .../memblock/objectarray_memory_block.hpp     |  7 +++++-
 include/dynd/memblock/pod_memory_block.hpp    | 22 ++++++++++++++-----
 .../dynd/memblock/zeroinit_memory_block.hpp   | 22 ++++++++++++++-----
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 2394efd..4bce47c 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -6,6 +6,8 @@
 #pragma once
 
 #include <iostream>
+#include <limits>
+#include <new>
 #include <string>
 
 #include <dynd/memblock/base_memory_block.hpp>
@@ -70,7 +72,10 @@ namespace nd {
      * Allocates some new memory from which to dole out
      * more. Adds it to the memory handles vector.
      */
-    void append_memory(intptr_t count) {
+    void append_memory(size_t count) {
+      if (m_stride > 0 && count > static_cast<size_t>(std::numeric_limits<intptr_t>::max()) / m_stride) {
+        throw std::bad_alloc();
+      }
       m_memory_handles.push_back(memory_chunk());
       memory_chunk &mc = m_memory_handles.back();
       mc.used_count = 0;
diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 6d70dd8..b933e2e 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -6,6 +6,8 @@
 #pragma once
 
 #include <iostream>
+#include <limits>
+#include <new>
 #include <string>
 
 #include <dynd/memblock/base_memory_block.hpp>
@@ -38,25 +40,35 @@ namespace nd {
       }
     }
 
+    /** The number of bytes taken by `count` elements */
+    intptr_t get_size_bytes(size_t count) const {
+      if (data_size != 0 && count > static_cast<size_t>(std::numeric_limits<intptr_t>::max()) / data_size) {
+        throw std::bad_alloc();
+      }
+      return count * data_size;
+    }
+
     /**
      * Allocates some new memory from which to dole out
      * more. Adds it to the memory handles vector.
      */
     void append_memory(intptr_t capacity_bytes) {
       m_memory_handles.push_back(NULL);
-      m_memory_begin = reinterpret_cast<char *>(malloc(capacity_bytes));
-      m_memory_handles.back() = m_memory_begin;
-      if (m_memory_begin == NULL) {
+      char *memory = reinterpret_cast<char *>(malloc(capacity_bytes));
+      if (memory == NULL) {
+        // The current memory stays as it is
         m_memory_handles.pop_back();
         throw std::bad_alloc();
       }
+      m_memory_handles.back() = memory;
+      m_memory_begin = memory;
       m_memory_current = m_memory_begin;
       m_memory_end = m_memory_current + capacity_bytes;
       m_total_allocated_capacity += capacity_bytes;
     }
 
     char *alloc(size_t count) {
-      intptr_t size_bytes = count * data_size;
+      intptr_t size_bytes = get_size_bytes(count);
 
       //    cout << "allocating " << size_bytes << " of memory with alignment " << alignment << endl;
       // Allocate new POD memory of the requested size and alignment
@@ -81,7 +93,7 @@ namespace nd {
     }
 
     char *resize(char *inout_begin, size_t count) {
-      intptr_t size_bytes = count * data_size;
+      intptr_t size_bytes = get_size_bytes(count);
 
       //    cout << "resizing memory " << (void *)*inout_begin << " / " << (void *)*inout_end << " from size " <<
       // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index aad27f4..9c51073 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -6,6 +6,8 @@
 #pragma once
 
 #include <iostream>
+#include <limits>
+#include <new>
 #include <string>
 
 #include <dynd/memblock/base_memory_block.hpp>
@@ -42,25 +44,35 @@ namespace nd {
       }
     }
 
+    /** The number of bytes taken by `count` elements */
+    intptr_t get_size_bytes(size_t count) const {
+      if (data_size != 0 && count > static_cast<size_t>(std::numeric_limits<intptr_t>::max()) / data_size) {
+        throw std::bad_alloc();
+      }
+      return count * data_size;
+    }
+
     /**
      * Allocates some new memory from which to dole out
      * more. Adds it to the memory handles vector.
      */
     void append_memory(intptr_t capacity_bytes) {
       m_memory_handles.push_back(NULL);
-      m_memory_begin = reinterpret_cast<char *>(malloc(capacity_bytes));
-      m_memory_handles.back() = m_memory_begin;
-      if (m_memory_begin == NULL) {
+      char *memory = reinterpret_cast<char *>(malloc(capacity_bytes));
+      if (memory == NULL) {
+        // The current memory stays as it is
         m_memory_handles.pop_back();
         throw std::bad_alloc();
       }
+      m_memory_handles.back() = memory;
+      m_memory_begin = memory;
       m_memory_current = m_memory_begin;
       m_memory_end = m_memory_current + capacity_bytes;
       m_total_allocated_capacity += capacity_bytes;
     }
 
     char *alloc(size_t count) {
-      intptr_t size_bytes = count * data_size;
+      intptr_t size_bytes = get_size_bytes(count);
 
       //    cout << "allocating " << size_bytes << " of memory with alignment " << alignment << endl;
       char *begin = reinterpret_cast<char *>((reinterpret_cast<uintptr_t>(m_memory_current) + data_alignment - 1) &
@@ -87,7 +99,7 @@ namespace nd {
     }
 
     char *resize(char *inout_begin, size_t count) {
-      intptr_t size_bytes = count * data_size;
+      intptr_t size_bytes = get_size_bytes(count);
 
       //    cout << "resizing memory " << (void *)*inout_begin << " / " << (void *)*inout_end << " from size " <<
       // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
-- 
2.43.0


From 512d83079c30311cd0c60b573d0a63678fd17551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 126/176] fix: threads draw random numbers from generators of
 their own

All threads used one generator without synchronisation.
---
 include/dynd/kernels/uniform_kernel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/uniform_kernel.hpp b/include/dynd/kernels/uniform_kernel.hpp
index 74951fb..1e7cffc 100644
--- a/include/dynd/kernels/uniform_kernel.hpp
+++ b/include/dynd/kernels/uniform_kernel.hpp
@@ -14,8 +14,9 @@
 namespace dynd {
 
 inline std::shared_ptr<std::default_random_engine> &get_random_device() {
-  static std::random_device random_device;
-  static std::shared_ptr<std::default_random_engine> g(new std::default_random_engine(random_device()));
+  // One for each thread, because a generator changes whenever it gives a number
+  static thread_local std::shared_ptr<std::default_random_engine> g(
+      new std::default_random_engine(std::random_device()()));
 
   return g;
 }
-- 
2.43.0


From e70f74beb3d18fafb8a344d057b274e7e0225ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 127/176] fix: compose gives the type that its second function
 resolves to

---
 include/dynd/callables/compose_callable.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/dynd/callables/compose_callable.hpp b/include/dynd/callables/compose_callable.hpp
index 42dfac5..438ae59 100644
--- a/include/dynd/callables/compose_callable.hpp
+++ b/include/dynd/callables/compose_callable.hpp
@@ -45,9 +45,7 @@ namespace nd {
         });
 
         m_first->resolve(this, nullptr, cg, m_buffer_tp, 1, src_tp, nkwd, kwds, tp_vars);
-        m_second->resolve(this, nullptr, cg, dst_tp, 1, &m_buffer_tp, nkwd, kwds, tp_vars);
-
-        return dst_tp;
+        return m_second->resolve(this, nullptr, cg, dst_tp, 1, &m_buffer_tp, nkwd, kwds, tp_vars);
       }
     };
 
-- 
2.43.0


From 51584d4692f9ceea359184104a167ceac46095d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 128/176] fix: outer refuses destinations, dimensions and
 numbers of arguments it cannot write

---
 include/dynd/callables/outer_callable.hpp       |  6 ++++++
 include/dynd/callables/outer_entry_callable.hpp | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/outer_callable.hpp b/include/dynd/callables/outer_callable.hpp
index 0b8982f..ddbd20e 100644
--- a/include/dynd/callables/outer_callable.hpp
+++ b/include/dynd/callables/outer_callable.hpp
@@ -44,6 +44,12 @@ namespace nd {
           kb(kernel_request_strided, data, dst_arrmeta + sizeof(size_stride_t), NArg, src_element_arrmeta);
         });
 
+        if (src_tp[i].get_id() != fixed_dim_id) {
+          std::stringstream ss;
+          ss << "outer cannot process an argument with type " << src_tp[i];
+          throw type_error(ss.str());
+        }
+
         ndt::type arg_element_tp[NArg];
         for (size_t j = 0; j < i; ++j) {
           arg_element_tp[j] = src_tp[j];
diff --git a/include/dynd/callables/outer_entry_callable.hpp b/include/dynd/callables/outer_entry_callable.hpp
index 94f7c22..08e7a1d 100644
--- a/include/dynd/callables/outer_entry_callable.hpp
+++ b/include/dynd/callables/outer_entry_callable.hpp
@@ -51,6 +51,10 @@ namespace nd {
       ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                         const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                         const std::map<std::string, ndt::type> &tp_vars) {
+        if (nsrc > 3) {
+          throw std::invalid_argument("outer supports at most 3 arguments");
+        }
+
         data_type data{m_child.get(), 0};
 
         size_t &i = data.i;
@@ -58,8 +62,13 @@ namespace nd {
           ++i;
         }
 
-        return dispatch_child->resolve(this, reinterpret_cast<char *>(&data), cg, dst_tp, nsrc, src_tp, nkwd, kwds,
-                                       tp_vars);
+        ndt::type ret_tp = dispatch_child->resolve(this, reinterpret_cast<char *>(&data), cg, dst_tp, nsrc, src_tp,
+                                                   nkwd, kwds, tp_vars);
+        if (!dst_tp.is_symbolic() && ret_tp != dst_tp) {
+          throw broadcast_error(dst_tp, nullptr, ret_tp, nullptr);
+        }
+
+        return ret_tp;
       }
     };
 
-- 
2.43.0


From 177a4e7fca1bb27cd1dbf9cd489f8ef8d294aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 129/176] fix: the kernels of where and forward_na destroy
 their children, that of compose only those it has

---
 include/dynd/kernels/compose_kernel.hpp    |  8 +++++---
 include/dynd/kernels/forward_na_kernel.hpp | 12 ++++++++++++
 include/dynd/kernels/where_kernel.hpp      |  2 ++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/compose_kernel.hpp b/include/dynd/kernels/compose_kernel.hpp
index f397cbb..c6bc7af 100644
--- a/include/dynd/kernels/compose_kernel.hpp
+++ b/include/dynd/kernels/compose_kernel.hpp
@@ -25,7 +25,7 @@ namespace nd {
       arrmeta_holder buffer_arrmeta;
       std::vector<intptr_t> buffer_shape;
 
-      compose_kernel(const ndt::type &buffer_tp) : buffer_tp(buffer_tp)
+      compose_kernel(const ndt::type &buffer_tp) : second_offset(0), buffer_tp(buffer_tp)
       {
         arrmeta_holder(this->buffer_tp).swap(buffer_arrmeta);
         buffer_arrmeta.arrmeta_default_construct(true);
@@ -36,8 +36,10 @@ namespace nd {
       {
         // The first child ckernel
         get_child()->destroy();
-        // The second child ckernel
-        get_child(second_offset)->destroy();
+        // The second child ckernel, if it has been made
+        if (second_offset != 0) {
+          get_child(second_offset)->destroy();
+        }
       }
 
       void single(char *dst, char *const *src)
diff --git a/include/dynd/kernels/forward_na_kernel.hpp b/include/dynd/kernels/forward_na_kernel.hpp
index 03f9307..abc0f3e 100644
--- a/include/dynd/kernels/forward_na_kernel.hpp
+++ b/include/dynd/kernels/forward_na_kernel.hpp
@@ -15,6 +15,18 @@ namespace nd {
     size_t is_na_offset[2];
     size_t assign_na_offset;
 
+    forward_na_kernel() : is_na_offset{0, 0}, assign_na_offset(0) {}
+
+    ~forward_na_kernel() {
+      this->get_child()->destroy();
+      // An offset is 0 when the child there has not been made
+      for (size_t offset : {is_na_offset[0], is_na_offset[1], assign_na_offset}) {
+        if (offset != 0) {
+          this->get_child(offset)->destroy();
+        }
+      }
+    }
+
     void single(char *res, char *const *args) {
       for (intptr_t i : std::array<intptr_t, sizeof...(I)>({I...})) {
         bool1 is_na;
diff --git a/include/dynd/kernels/where_kernel.hpp b/include/dynd/kernels/where_kernel.hpp
index 6638c6c..555c9d0 100644
--- a/include/dynd/kernels/where_kernel.hpp
+++ b/include/dynd/kernels/where_kernel.hpp
@@ -21,6 +21,8 @@ namespace nd {
         : it(*reinterpret_cast<size_t *>(data)), ret_stride(ret_stride), dst_memory_block(dst_memory_block),
           ret_element_size(sizeof(intptr_t)), capacity(0) {}
 
+    ~where_kernel() { get_child()->destroy(); }
+
     void single(char *ret, char *const *src) {
       bool child_ret;
       get_child()->single(reinterpret_cast<char *>(&child_ret), src);
-- 
2.43.0


From 93fc99929d5b278274c133e6b48eaf6ca29fbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 130/176] fix: call graphs do not destroy a node which could
 not be made

---
 include/dynd/storagebuf.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/dynd/storagebuf.hpp b/include/dynd/storagebuf.hpp
index c45f35e..d1133ae 100644
--- a/include/dynd/storagebuf.hpp
+++ b/include/dynd/storagebuf.hpp
@@ -123,11 +123,12 @@ public:
     /* Alignment requirement of the type. */
     static_assert(alignof(KernelType) <= 8, "kernel types require alignment to be at most 8 bytes");
 
-    size_t offset = m_size;
-    m_size += aligned_size(sizeof(KernelType));
-    reserve(m_size);
+    size_t size = m_size + aligned_size(sizeof(KernelType));
+    reserve(size);
 
-    KernelType::init(this->get_at<KernelType>(offset), std::forward<ArgTypes>(args)...);
+    // If this throws, there is nothing at the end which would need to be destroyed
+    KernelType::init(this->get_at<KernelType>(m_size), std::forward<ArgTypes>(args)...);
+    m_size = size;
   }
 
   template <typename KernelType, typename... ArgTypes>
@@ -135,11 +136,12 @@ public:
     /* Alignment requirement of the type. */
     static_assert(alignof(KernelType) <= 8, "kernel types require alignment to be at most 8 bytes");
 
-    size_t offset = m_size;
-    m_size += aligned_size(sizeof(PrefixType)) + aligned_size(sizeof(KernelType));
-    reserve(m_size);
+    size_t size = m_size + aligned_size(sizeof(PrefixType)) + aligned_size(sizeof(KernelType));
+    reserve(size);
 
-    PrefixType::template init<KernelType>(this->get_at<PrefixType>(offset), std::forward<ArgTypes>(args)...);
+    // If this throws, there is nothing at the end which would need to be destroyed
+    PrefixType::template init<KernelType>(this->get_at<PrefixType>(m_size), std::forward<ArgTypes>(args)...);
+    m_size = size;
   }
 
   void emplace_back(size_t size) {
-- 
2.43.0


From d4d1e31f7078b428ab7159e403bcb02cc2ef8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 131/176] fix: apply keeps function objects and keywords where
 kernels being moved does not matter

---
 .../callables/apply_callable_callable.hpp     |  9 +-
 include/dynd/kernels/apply.hpp                |  9 +-
 .../dynd/kernels/apply_callable_kernel.hpp    | 18 ++--
 .../construct_then_apply_callable_kernel.hpp  | 82 +++++++++----------
 4 files changed, 61 insertions(+), 57 deletions(-)

diff --git a/include/dynd/callables/apply_callable_callable.hpp b/include/dynd/callables/apply_callable_callable.hpp
index 029d5e0..22abed9 100644
--- a/include/dynd/callables/apply_callable_callable.hpp
+++ b/include/dynd/callables/apply_callable_callable.hpp
@@ -16,12 +16,13 @@ namespace nd {
 
       template <typename func_type, typename ReturnType, typename ArgSequence, typename KwdSequence, int N>
       class apply_callable_callable : public base_apply_callable<ReturnType, ArgSequence, KwdSequence> {
-        func_type m_func;
+        std::shared_ptr<func_type> m_func; // Call graphs are moved with a memcpy, which func_type may not allow
 
       public:
         template <typename... T>
         apply_callable_callable(func_type func, T &&... names)
-            : base_apply_callable<ReturnType, ArgSequence, KwdSequence>(std::forward<T>(names)...), m_func(func) {}
+            : base_apply_callable<ReturnType, ArgSequence, KwdSequence>(std::forward<T>(names)...),
+              m_func(std::make_shared<func_type>(func)) {}
 
         ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                           const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
@@ -31,8 +32,8 @@ namespace nd {
           cg.emplace_back([ func = m_func, kwds = typename kernel_type::kwds_type(nkwd, kwds) ](
               kernel_builder & kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
               size_t DYND_UNUSED(narg), const char *const *src_arrmeta) {
-            kb.emplace_back<kernel_type>(kernreq, func, typename kernel_type::args_type(data, dst_arrmeta, src_arrmeta),
-                                         kwds);
+            kb.emplace_back<kernel_type>(kernreq, *func,
+                                         typename kernel_type::args_type(data, dst_arrmeta, src_arrmeta), kwds);
           });
 
           return this->resolve_return_type(dst_tp, nsrc, src_tp, nkwd, kwds);
diff --git a/include/dynd/kernels/apply.hpp b/include/dynd/kernels/apply.hpp
index b022c63..7c0c985 100644
--- a/include/dynd/kernels/apply.hpp
+++ b/include/dynd/kernels/apply.hpp
@@ -5,6 +5,8 @@
 
 #pragma once
 
+#include <memory>
+
 #include <dynd/kernels/base_kernel.hpp>
 #include <dynd/kernels/cuda_launch.hpp>
 #include <dynd/types/state_type.hpp>
@@ -115,11 +117,12 @@ namespace nd {
 
     template <typename T, size_t I>
     struct apply_kwd {
-      T m_val;
+      // Call graphs and kernels are moved with a memcpy, which the value itself may not allow
+      std::shared_ptr<T> m_val;
 
-      apply_kwd(nd::array val) : m_val(val.as<T>()) {}
+      apply_kwd(nd::array val) : m_val(std::make_shared<T>(val.as<T>())) {}
 
-      T get() { return m_val; }
+      T get() { return *m_val; }
     };
 
     template <typename K, typename J = std::make_index_sequence<K::size>>
diff --git a/include/dynd/kernels/apply_callable_kernel.hpp b/include/dynd/kernels/apply_callable_kernel.hpp
index 26aede4..78643fe 100644
--- a/include/dynd/kernels/apply_callable_kernel.hpp
+++ b/include/dynd/kernels/apply_callable_kernel.hpp
@@ -57,13 +57,13 @@ namespace nd {
         typedef apply_args<type_sequence<A...>, std::index_sequence<I...>> args_type;
         typedef apply_kwds<type_sequence<K...>, std::index_sequence<J...>> kwds_type;
 
-        func_type func;
+        std::unique_ptr<func_type> func; // Kernels are moved with a memcpy, which func_type may not allow
 
         apply_callable_kernel(func_type func, args_type args, kwds_type kwds)
-            : base_type(args), kwds_type(kwds), func(func) {}
+            : base_type(args), kwds_type(kwds), func(new func_type(func)) {}
 
         void single(char *dst, char *const *DYND_IGNORE_UNUSED(src)) {
-          *reinterpret_cast<R *>(dst) = func(apply_arg<A, I>::assign(src[I])..., apply_kwd<K, J>::get()...);
+          *reinterpret_cast<R *>(dst) = (*func)(apply_arg<A, I>::assign(src[I])..., apply_kwd<K, J>::get()...);
         }
       };
 
@@ -78,13 +78,13 @@ namespace nd {
         typedef apply_args<type_sequence<A...>, std::index_sequence<I...>> args_type;
         typedef apply_kwds<type_sequence<K...>, std::index_sequence<J...>> kwds_type;
 
-        func_type func;
+        std::unique_ptr<func_type> func; // Kernels are moved with a memcpy, which func_type may not allow
 
         apply_callable_kernel(func_type func, args_type args, kwds_type kwds)
-            : args_type(args), kwds_type(kwds), func(func) {}
+            : args_type(args), kwds_type(kwds), func(new func_type(func)) {}
 
         void single(char *DYND_UNUSED(dst), char *const *DYND_IGNORE_UNUSED(src)) {
-          func(apply_arg<A, I>::assign(src[I])..., apply_kwd<K, J>::get()...);
+          (*func)(apply_arg<A, I>::assign(src[I])..., apply_kwd<K, J>::get()...);
         }
       };
 
@@ -101,13 +101,13 @@ namespace nd {
         typedef apply_args<type_sequence<return_wrapper<R, Resolve>, A...>, std::index_sequence<I0, I...>> args_type;
         typedef apply_kwds<type_sequence<K...>, std::index_sequence<J...>> kwds_type;
 
-        func_type func;
+        std::unique_ptr<func_type> func; // Kernels are moved with a memcpy, which func_type may not allow
 
         apply_callable_kernel(func_type func, args_type args, kwds_type kwds)
-            : args_type(args), kwds_type(kwds), func(func) {}
+            : args_type(args), kwds_type(kwds), func(new func_type(func)) {}
 
         void single(char *dst, char *const *DYND_IGNORE_UNUSED(src)) {
-          func(apply_arg<return_wrapper<R, Resolve>, I0>::assign(dst), apply_arg<A, I>::assign(src[I - 1])...,
+          (*func)(apply_arg<return_wrapper<R, Resolve>, I0>::assign(dst), apply_arg<A, I>::assign(src[I - 1])...,
                apply_kwd<K, J>::get()...);
         }
       };
diff --git a/include/dynd/kernels/construct_then_apply_callable_kernel.hpp b/include/dynd/kernels/construct_then_apply_callable_kernel.hpp
index 5bf2833..0fd081e 100644
--- a/include/dynd/kernels/construct_then_apply_callable_kernel.hpp
+++ b/include/dynd/kernels/construct_then_apply_callable_kernel.hpp
@@ -16,47 +16,47 @@ namespace nd {
       template <typename func_type, typename R, typename A, typename I, typename K, typename J>
       struct construct_then_apply_callable_kernel;
 
-#define CONSTRUCT_THEN_APPLY_CALLABLE_KERNEL(...)                                                                      \
-  template <typename func_type, typename R, typename... A, size_t... I, typename... K, size_t... J>                    \
-  struct construct_then_apply_callable_kernel<func_type, R, type_sequence<A...>, std::index_sequence<I...>,            \
-                                              type_sequence<K...>, std::index_sequence<J...>>                          \
-      : base_strided_kernel<                                                                                           \
-            construct_then_apply_callable_kernel<func_type, R, type_sequence<A...>, std::index_sequence<I...>,         \
-                                                 type_sequence<K...>, std::index_sequence<J...>>,                      \
-            sizeof...(A)>,                                                                                             \
-        apply_args<type_sequence<A...>, std::index_sequence<I...>> {                                                   \
-    typedef apply_args<type_sequence<A...>, std::index_sequence<I...>> args_type;                                      \
-    typedef apply_kwds<type_sequence<K...>, std::index_sequence<J...>> kwds_type;                                      \
-                                                                                                                       \
-    func_type func;                                                                                                    \
-                                                                                                                       \
-    construct_then_apply_callable_kernel(args_type args, kwds_type DYND_IGNORE_UNUSED(kwds))                           \
-        : args_type(args), func(kwds.apply_kwd<K, J>::get()...) {}                                                     \
-                                                                                                                       \
-    void single(char *dst, char *const *DYND_IGNORE_UNUSED(src)) {                                                     \
-      *reinterpret_cast<R *>(dst) = func(apply_arg<A, I>::assign(src[I])...);                                          \
-    }                                                                                                                  \
-  };                                                                                                                   \
-                                                                                                                       \
-  template <typename func_type, typename... A, size_t... I, typename... K, size_t... J>                                \
-  struct construct_then_apply_callable_kernel<func_type, void, type_sequence<A...>, std::index_sequence<I...>,         \
-                                              type_sequence<K...>, std::index_sequence<J...>>                          \
-      : base_strided_kernel<                                                                                           \
-            construct_then_apply_callable_kernel<func_type, void, type_sequence<A...>, std::index_sequence<I...>,      \
-                                                 type_sequence<K...>, std::index_sequence<J...>>,                      \
-            sizeof...(A)>,                                                                                             \
-        apply_args<type_sequence<A...>, std::index_sequence<I...>> {                                                   \
-    typedef apply_args<type_sequence<A...>, std::index_sequence<I...>> args_type;                                      \
-    typedef apply_kwds<type_sequence<K...>, std::index_sequence<J...>> kwds_type;                                      \
-                                                                                                                       \
-    func_type func;                                                                                                    \
-                                                                                                                       \
-    construct_then_apply_callable_kernel(args_type args, kwds_type DYND_IGNORE_UNUSED(kwds))                           \
-        : args_type(args), func(kwds.apply_kwd<K, J>::get()...) {}                                                     \
-                                                                                                                       \
-    void single(char *DYND_UNUSED(dst), char *const *DYND_IGNORE_UNUSED(src)) {                                        \
-      func(apply_arg<A, I>::assign(src[I])...);                                                                        \
-    }                                                                                                                  \
+#define CONSTRUCT_THEN_APPLY_CALLABLE_KERNEL(...)                                                                         \
+  template <typename func_type, typename R, typename... A, size_t... I, typename... K, size_t... J>                       \
+  struct construct_then_apply_callable_kernel<func_type, R, type_sequence<A...>, std::index_sequence<I...>,               \
+                                              type_sequence<K...>, std::index_sequence<J...>>                             \
+      : base_strided_kernel<                                                                                              \
+            construct_then_apply_callable_kernel<func_type, R, type_sequence<A...>, std::index_sequence<I...>,            \
+                                                 type_sequence<K...>, std::index_sequence<J...>>,                         \
+            sizeof...(A)>,                                                                                                \
+        apply_args<type_sequence<A...>, std::index_sequence<I...>> {                                                      \
+    typedef apply_args<type_sequence<A...>, std::index_sequence<I...>> args_type;                                         \
+    typedef apply_kwds<type_sequence<K...>, std::index_sequence<J...>> kwds_type;                                         \
+                                                                                                                          \
+    std::unique_ptr<func_type> func; /* Kernels are moved with a memcpy, which func_type may not allow */                 \
+                                                                                                                          \
+    construct_then_apply_callable_kernel(args_type args, kwds_type DYND_IGNORE_UNUSED(kwds))                              \
+        : args_type(args), func(new func_type(kwds.apply_kwd<K, J>::get()...)) {}                                         \
+                                                                                                                          \
+    void single(char *dst, char *const *DYND_IGNORE_UNUSED(src)) {                                                        \
+      *reinterpret_cast<R *>(dst) = (*func)(apply_arg<A, I>::assign(src[I])...);                                          \
+    }                                                                                                                     \
+  };                                                                                                                      \
+                                                                                                                          \
+  template <typename func_type, typename... A, size_t... I, typename... K, size_t... J>                                   \
+  struct construct_then_apply_callable_kernel<func_type, void, type_sequence<A...>, std::index_sequence<I...>,            \
+                                              type_sequence<K...>, std::index_sequence<J...>>                             \
+      : base_strided_kernel<                                                                                              \
+            construct_then_apply_callable_kernel<func_type, void, type_sequence<A...>, std::index_sequence<I...>,         \
+                                                 type_sequence<K...>, std::index_sequence<J...>>,                         \
+            sizeof...(A)>,                                                                                                \
+        apply_args<type_sequence<A...>, std::index_sequence<I...>> {                                                      \
+    typedef apply_args<type_sequence<A...>, std::index_sequence<I...>> args_type;                                         \
+    typedef apply_kwds<type_sequence<K...>, std::index_sequence<J...>> kwds_type;                                         \
+                                                                                                                          \
+    std::unique_ptr<func_type> func; /* Kernels are moved with a memcpy, which func_type may not allow */                 \
+                                                                                                                          \
+    construct_then_apply_callable_kernel(args_type args, kwds_type DYND_IGNORE_UNUSED(kwds))                              \
+        : args_type(args), func(new func_type(kwds.apply_kwd<K, J>::get()...)) {}                                         \
+                                                                                                                          \
+    void single(char *DYND_UNUSED(dst), char *const *DYND_IGNORE_UNUSED(src)) {                                           \
+      (*func)(apply_arg<A, I>::assign(src[I])...);                                                                        \
+    }                                                                                                                     \
   }
 
       CONSTRUCT_THEN_APPLY_CALLABLE_KERNEL();
-- 
2.43.0


From 4fca205da3b833aa62b8f0b2a27abc5e789f2f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 132/176] fix: forward_na asks its child for a value rather
 than an option

---
 include/dynd/callables/forward_na_callable.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/forward_na_callable.hpp b/include/dynd/callables/forward_na_callable.hpp
index 1cd5f5f..70e14d6 100644
--- a/include/dynd/callables/forward_na_callable.hpp
+++ b/include/dynd/callables/forward_na_callable.hpp
@@ -60,9 +60,16 @@ namespace nd {
         child = m_child.get();
       }
 
+      // The child gives the values, without a possible NA
+      ndt::type dst_value_tp = dst_tp;
+      if (dst_tp.is_symbolic()) {
+        dst_value_tp = child->get_ret_type();
+      } else if (dst_tp.get_id() == option_id) {
+        dst_value_tp = dst_tp.extended<ndt::option_type>()->get_value_type();
+      }
+
       ndt::type res_value_tp =
-          child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, 2, src_value_tp,
-                         nkwd, kwds, tp_vars);
+          child->resolve(this, nullptr, cg, dst_value_tp, 2, src_value_tp, nkwd, kwds, tp_vars);
 
       for (index_t i : std::array<index_t, sizeof...(I)>({I...})) {
         is_na->resolve(this, nullptr, cg, ndt::make_type<bool>(), 1, src_tp + i, 0, nullptr, tp_vars);
-- 
2.43.0


From d4f8f7f8caebf076e702297aeaed775667daee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 133/176] fix: left_compound and right_compound take the
 argument that they pass to their child

---
 src/dynd/functional.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 97ab42c..8e6a9b0 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -68,19 +68,19 @@ nd::callable nd::functional::constant(const array &val) { return make_callable<c
 
 nd::callable nd::functional::left_compound(const callable &child) {
   vector<ndt::type> pos_types = child->get_arg_types();
-  pos_types.resize(1);
+  pos_types.erase(pos_types.begin());
 
   return make_callable<left_compound_callable>(
-      ndt::make_type<ndt::callable_type>(child->get_ret_type(), pos_types), // head element or empty
+      ndt::make_type<ndt::callable_type>(child->get_ret_type(), pos_types), // tail elements or empty
       child);
 }
 
 nd::callable nd::functional::right_compound(const callable &child) {
   vector<ndt::type> pos_types = child->get_arg_types();
-  pos_types.erase(pos_types.begin());
+  pos_types.resize(1);
 
   return make_callable<right_compound_callable>(ndt::make_type<ndt::callable_type>(child->get_ret_type(),
-                                                                                   pos_types), // tail elements or empty
+                                                                                   pos_types), // head element or empty
                                                 child);
 }
 
-- 
2.43.0


From c8703307f07dc8945759897d93efed44d7670a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:08 +0000
Subject: [PATCH 134/176] fix: where, compose, compounds and reductions refuse
 children and destinations they cannot use

---
 .../dynd/callables/forward_na_callable.hpp    |  8 ++++-
 include/dynd/callables/where_callable.hpp     |  8 ++++-
 include/dynd/kernels/where_kernel.hpp         |  4 +++
 src/dynd/functional.cpp                       | 29 ++++++++++++++++++-
 4 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/forward_na_callable.hpp b/include/dynd/callables/forward_na_callable.hpp
index 70e14d6..09b137c 100644
--- a/include/dynd/callables/forward_na_callable.hpp
+++ b/include/dynd/callables/forward_na_callable.hpp
@@ -20,7 +20,13 @@ namespace nd {
     using kernel_type = forward_na_kernel<I...>;
 
   public:
-    forward_na_callable(const ndt::type &tp, const callable &child) : base_callable(tp), m_child(child) {}
+    forward_na_callable(const ndt::type &tp, const callable &child) : base_callable(tp), m_child(child) {
+      if (!child.is_null() && child->get_nkwd() > child->get_option_kwd_indices().size()) {
+        std::stringstream ss;
+        ss << "forward_na cannot be applied to a callable which requires keywords, " << child->get_type();
+        throw std::invalid_argument(ss.str());
+      }
+    }
 
     ndt::type resolve(base_callable *caller, char *DYND_UNUSED(data), call_graph &cg, const ndt::type &dst_tp,
                       size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd, const array *kwds,
diff --git a/include/dynd/callables/where_callable.hpp b/include/dynd/callables/where_callable.hpp
index 0b8fb21..4f8a040 100644
--- a/include/dynd/callables/where_callable.hpp
+++ b/include/dynd/callables/where_callable.hpp
@@ -42,7 +42,13 @@ namespace nd {
         kb(kernel_request_single, nullptr, nullptr, nsrc - 1, src_arrmeta);
       });
 
-      m_child->resolve(this, nullptr, cg, ndt::make_type<bool>(), nsrc - 1, src_tp, nkwd, kwds, tp_vars);
+      ndt::type child_ret_tp =
+          m_child->resolve(this, nullptr, cg, ndt::make_type<bool>(), nsrc - 1, src_tp, nkwd, kwds, tp_vars);
+      if (child_ret_tp != ndt::make_type<bool>()) {
+        std::stringstream ss;
+        ss << "the condition of a where returned " << child_ret_tp << " instead of a bool";
+        throw type_error(ss.str());
+      }
 
       return dst_tp;
     }
diff --git a/include/dynd/kernels/where_kernel.hpp b/include/dynd/kernels/where_kernel.hpp
index 555c9d0..0da5051 100644
--- a/include/dynd/kernels/where_kernel.hpp
+++ b/include/dynd/kernels/where_kernel.hpp
@@ -24,6 +24,10 @@ namespace nd {
     ~where_kernel() { get_child()->destroy(); }
 
     void single(char *ret, char *const *src) {
+      if (capacity == 0 && reinterpret_cast<ndt::var_dim_type::data_type *>(ret)->begin != nullptr) {
+        throw std::runtime_error("where cannot write to a var dimension which holds elements already");
+      }
+
       bool child_ret;
       get_child()->single(reinterpret_cast<char *>(&child_ret), src);
 
diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 8e6a9b0..176b3ad 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -36,6 +36,15 @@ nd::callable nd::functional::adapt(const ndt::type &value_tp, const callable &fo
   return make_callable<adapt_callable>(value_tp, forward);
 }
 
+// The combinations which have no keywords of their own have nothing to pass on to a child that requires some
+static void check_no_required_kwd(const char *name, const nd::callable &child) {
+  if (child->get_nkwd() > child->get_option_kwd_indices().size()) {
+    stringstream ss;
+    ss << name << " cannot be applied to a callable which requires keywords, " << child->get_type();
+    throw invalid_argument(ss.str());
+  }
+}
+
 nd::callable nd::functional::compose(const nd::callable &first, const nd::callable &second, const ndt::type &buf_tp) {
   if (first->get_narg() != 1) {
     throw runtime_error("Multi-parameter callable chaining is not implemented");
@@ -47,6 +56,9 @@ nd::callable nd::functional::compose(const nd::callable &first, const nd::callab
     throw invalid_argument(ss.str());
   }
 
+  check_no_required_kwd("compose", first);
+  check_no_required_kwd("compose", second);
+
   if (buf_tp.get_id() == uninitialized_id) {
     throw runtime_error("Chaining functions without a provided intermediate "
                         "type is not implemented");
@@ -67,6 +79,8 @@ nd::callable nd::functional::compose(const nd::callable &first, const nd::callab
 nd::callable nd::functional::constant(const array &val) { return make_callable<constant_callable>(val); }
 
 nd::callable nd::functional::left_compound(const callable &child) {
+  check_no_required_kwd("left_compound", child);
+
   vector<ndt::type> pos_types = child->get_arg_types();
   pos_types.erase(pos_types.begin());
 
@@ -76,6 +90,8 @@ nd::callable nd::functional::left_compound(const callable &child) {
 }
 
 nd::callable nd::functional::right_compound(const callable &child) {
+  check_no_required_kwd("right_compound", child);
+
   vector<ndt::type> pos_types = child->get_arg_types();
   pos_types.resize(1);
 
@@ -181,6 +197,9 @@ nd::callable nd::functional::reduction(const callable &identity, const callable
     throw invalid_argument("'child' cannot be null");
   }
 
+  check_no_required_kwd("reduction", identity);
+  check_no_required_kwd("reduction", child);
+
   if (!identity->get_ret_type().is_symbolic() && !child->get_ret_type().is_symbolic() &&
       identity->get_ret_type() != child->get_ret_type()) {
     stringstream ss;
@@ -203,4 +222,12 @@ nd::callable nd::functional::reduction(const callable &identity, const callable
       identity, child);
 }
 
-nd::callable nd::functional::where(const callable &child) { return elwise(make_callable<where_callable>(child), true); }
+nd::callable nd::functional::where(const callable &child) {
+  if (child->get_narg() != 1) {
+    throw invalid_argument("where is only implemented for a condition on one argument");
+  }
+
+  check_no_required_kwd("where", child);
+
+  return elwise(make_callable<where_callable>(child), true);
+}
-- 
2.43.0


From 0a45b6477d84ff53d3edbef07ac32aa988b09970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:32 +0000
Subject: [PATCH 135/176] fix: types made by the C ABI's constructors can be
 released

---
 src/dynd/abi/metadata.c       | 5 ++++-
 src/dynd/abi/types/dense.cpp  | 6 ++++++
 src/dynd/abi/types/sparse.cpp | 6 ++++++
 src/dynd/abi/types/tuple.cpp  | 9 ++++++++-
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/dynd/abi/metadata.c b/src/dynd/abi/metadata.c
index db5fb8f..730a261 100644
--- a/src/dynd/abi/metadata.c
+++ b/src/dynd/abi/metadata.c
@@ -4,6 +4,7 @@
 
 DYND_ABI_EXPORT dynd_buffer *dynd_malloc_buffer(dynd_size_t size) dynd_noexcept {
   dynd_buffer *buffer = malloc(size);
+  if (buffer == NULL) return NULL;
   buffer->resource.release = &dynd_release_malloc_allocated;
   buffer->allocated.base_ptr = buffer;
   buffer->allocated.size = size;
@@ -11,5 +12,7 @@ DYND_ABI_EXPORT dynd_buffer *dynd_malloc_buffer(dynd_size_t size) dynd_noexcept
 }
 
 DYND_ABI_EXPORT void dynd_release_malloc_allocated(dynd_resource* resource) dynd_noexcept {
-  free(resource);
+  // The descriptor of the block follows its resource, which
+  // need not itself be at the beginning of the block.
+  free(((dynd_buffer*)resource)->allocated.base_ptr);
 }
diff --git a/src/dynd/abi/types/dense.cpp b/src/dynd/abi/types/dense.cpp
index 286d17b..55a609b 100644
--- a/src/dynd/abi/types/dense.cpp
+++ b/src/dynd/abi/types/dense.cpp
@@ -59,7 +59,13 @@ static dynd_type *make_dense(dynd_type_constructor_header *, dynd_type_range par
   // the metadata buffers. This means that it's okay to just use dynd_malloc_buffer
   // out of the box.
   dynd_type_dense_concrete *buffer = reinterpret_cast<dynd_type_dense_concrete*>(dynd_malloc_buffer(sizeof(dynd_type_dense_concrete)));
+  if (buffer == nullptr) return nullptr;
   dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  // The reference count is the first thing in the block, so the
+  // resource and the descriptor of the block are not at its beginning.
+  buffer->prefix.refcount.resource.release = &dynd_release_malloc_allocated;
+  buffer->prefix.header.allocated.base_ptr = buffer;
+  buffer->prefix.header.allocated.size = sizeof(dynd_type_dense_concrete);
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&dense_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_dense);
diff --git a/src/dynd/abi/types/sparse.cpp b/src/dynd/abi/types/sparse.cpp
index 081f4fe..0b79794 100644
--- a/src/dynd/abi/types/sparse.cpp
+++ b/src/dynd/abi/types/sparse.cpp
@@ -59,7 +59,13 @@ static dynd_type *make_sparse(dynd_type_constructor_header *, dynd_type_range pa
   // the metadata buffers. This means that it's okay to just use dynd_malloc_buffer
   // out of the box.
   dynd_type_sparse_concrete *buffer = reinterpret_cast<dynd_type_sparse_concrete*>(dynd_malloc_buffer(sizeof(dynd_type_sparse_concrete)));
+  if (buffer == nullptr) return nullptr;
   dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  // The reference count is the first thing in the block, so the
+  // resource and the descriptor of the block are not at its beginning.
+  buffer->prefix.refcount.resource.release = &dynd_release_malloc_allocated;
+  buffer->prefix.header.allocated.base_ptr = buffer;
+  buffer->prefix.header.allocated.size = sizeof(dynd_type_sparse_concrete);
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&sparse_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_sparse);
diff --git a/src/dynd/abi/types/tuple.cpp b/src/dynd/abi/types/tuple.cpp
index 574c205..29821c0 100644
--- a/src/dynd/abi/types/tuple.cpp
+++ b/src/dynd/abi/types/tuple.cpp
@@ -58,8 +58,15 @@ extern DYND_ABI_EXPORT dynd_type_tuple_impl dynd_type_tuple;
 
 static dynd_type *make_tuple(dynd_type_constructor_header *, dynd_type_range parameters) noexcept {
   dynd_size_t num_entries = std::distance(parameters.begin, parameters.end);
-  dynd_type_tuple_concrete_header *buffer = reinterpret_cast<dynd_type_tuple_concrete_header*>(dynd_malloc_buffer(sizeof(dynd_type_tuple_concrete_header) + 8 * num_entries));
+  dynd_size_t size = sizeof(dynd_type_tuple_concrete_header) + sizeof(dynd_type*) * num_entries;
+  dynd_type_tuple_concrete_header *buffer = reinterpret_cast<dynd_type_tuple_concrete_header*>(dynd_malloc_buffer(size));
+  if (buffer == nullptr) return nullptr;
   dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  // The reference count is the first thing in the block, so the
+  // resource and the descriptor of the block are not at its beginning.
+  buffer->prefix.refcount.resource.release = &dynd_release_malloc_allocated;
+  buffer->prefix.header.allocated.base_ptr = buffer;
+  buffer->prefix.header.allocated.size = size;
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&tuple_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_tuple);
-- 
2.43.0


From 98e743817a2d93a0f5b74d2f2370f713c21d4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:52 +0000
Subject: [PATCH 136/176] fix: references to the C ABI's constructor of
 primitives can be counted

---
 src/dynd/abi/types/primitive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/abi/types/primitive.cpp b/src/dynd/abi/types/primitive.cpp
index 810b55c..6b536de 100644
--- a/src/dynd/abi/types/primitive.cpp
+++ b/src/dynd/abi/types/primitive.cpp
@@ -40,7 +40,9 @@ static dynd_primitive_vtable primitive_vtable{};
 
 // Once we have dependent typing, set this to be something real.
 // For now, it's address is really all that matters.
-DYND_ABI_EXPORT dynd_type_constructor dynd_type_make_primitive;
+DYND_ABI_EXPORT dynd_type_constructor dynd_type_make_primitive{
+    {{1u}, {&dynd_abi_resource_never_release}},
+    {{&dynd_type_make_primitive, sizeof(dynd_type_make_primitive)}, nullptr}};
 namespace {
 struct dynd_builtin_primitive_type : dynd_type_primitive {
   dynd_builtin_primitive_type(std::size_t size, std::size_t alignment) dynd_noexcept {
-- 
2.43.0


From 249c8491a65399b69468c37f99b9b4ea7fdcc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 137/176] fix: the headers of the C ABI compile as C and count
 references there

---
 include/dynd/abi/array.h    | 7 +------
 include/dynd/abi/atomic.h   | 8 ++++----
 include/dynd/abi/refcount.h | 8 ++++----
 include/dynd/abi/type.h     | 2 +-
 include/dynd/abi/vtable.h   | 1 +
 5 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/dynd/abi/array.h b/include/dynd/abi/array.h
index 858d606..15e2ef9 100644
--- a/include/dynd/abi/array.h
+++ b/include/dynd/abi/array.h
@@ -4,14 +4,9 @@
 #include "dynd/abi/metadata.h"
 #include "dynd/abi/refcount.h"
 #include "dynd/abi/resource.h"
+#include "dynd/abi/type.h"
 #include "dynd/abi/version.h"
 
-// TODO: dynd type forward declaration header.
-#ifndef dynd_type
-#define dynd_type DYND_ABI(type)
-#endif
-struct dynd_type;
-
 // Similar to dynd_allocated,
 // but brings in the additional metadata needed
 // to manage type-specific destructors.
diff --git a/include/dynd/abi/atomic.h b/include/dynd/abi/atomic.h
index 85cb5f4..5a3545d 100644
--- a/include/dynd/abi/atomic.h
+++ b/include/dynd/abi/atomic.h
@@ -21,8 +21,8 @@
 // C11 atomics
 #include <stdatomic.h>
 typedef atomic_size_t dynd_atomic_size_t;
-#define dynd_memory_order_relaxed (memory_order_relazed)
-#define dynd_meomry_order_acquire (memory_order_acquire)
+#define dynd_memory_order_relaxed (memory_order_relaxed)
+#define dynd_memory_order_acquire (memory_order_acquire)
 #define dynd_memory_order_release (memory_order_release)
 #define dynd_memory_order_acq_rel (memory_order_acq_rel)
 #define dynd_atomic_load(val, consistency) (atomic_load_explicit(val, consistency))
@@ -54,8 +54,8 @@ typedef dynd_size_t dynd_atomic_size_t;
 #define dynd_memory_order_acq_rel __ATOMIC_ACQ_REL
 #define dynd_atomic_load(val, consistency) (__atomic_load_n(val, consistency))
 #define dynd_atomic_store(val, newval, consistency) (__atomic_store_n(val, newval, consistency))
-#define dynd_atomic_fetch_add(val, increment, consistency) (__atomic_add_fetch(val, increment, consistency))
-#define dynd_atomic_fetch_sub(val, increment, consistency) (__atomic_sub_fetch(val, increment, consistency))
+#define dynd_atomic_fetch_add(val, increment, consistency) (__atomic_fetch_add(val, increment, consistency))
+#define dynd_atomic_fetch_sub(val, increment, consistency) (__atomic_fetch_sub(val, increment, consistency))
 #define dynd_atomic_thread_fence(consistency) (__atomic_thread_fence(consistency))
 #elif defined(_MSC_VER)
 // MSVC in C mode doesn't provide all the atomic operations we need
diff --git a/include/dynd/abi/refcount.h b/include/dynd/abi/refcount.h
index a60d898..2740021 100644
--- a/include/dynd/abi/refcount.h
+++ b/include/dynd/abi/refcount.h
@@ -25,13 +25,13 @@ typedef struct {
 } dynd_refcounted;
 
 #define dynd_incref DYND_ABI(incref)
-inline void dynd_incref(dynd_refcounted *ref) dynd_noexcept {
-  dynd_atomic_fetch_add((dynd_refcount*)ref, dynd_size_t(1u), dynd_memory_order_relaxed);
+static inline void dynd_incref(dynd_refcounted *ref) dynd_noexcept {
+  dynd_atomic_fetch_add((dynd_refcount*)ref, (dynd_size_t)1u, dynd_memory_order_relaxed);
 }
 
 #define dynd_decref DYND_ABI(decref)
-inline void dynd_decref(dynd_refcounted *ref) dynd_noexcept {
-  dynd_size_t val = dynd_atomic_fetch_sub((dynd_refcount*)ref, dynd_size_t(1u), dynd_memory_order_release);
+static inline void dynd_decref(dynd_refcounted *ref) dynd_noexcept {
+  dynd_size_t val = dynd_atomic_fetch_sub((dynd_refcount*)ref, (dynd_size_t)1u, dynd_memory_order_release);
   if (val == 1) {
     dynd_atomic_thread_fence(dynd_memory_order_acquire);
     ref->resource.release(&(ref->resource));
diff --git a/include/dynd/abi/type.h b/include/dynd/abi/type.h
index eefff6f..a437a32 100644
--- a/include/dynd/abi/type.h
+++ b/include/dynd/abi/type.h
@@ -65,7 +65,7 @@ struct dynd_type_constructor_impl;
 struct dynd_type_header_impl{
   dynd_allocated allocated;
   dynd_type_vtable *vtable;
-  dynd_type_constructor_impl *constructor;
+  struct dynd_type_constructor_impl *constructor;
 };
 typedef struct dynd_type_header_impl dynd_type_header;
 
diff --git a/include/dynd/abi/vtable.h b/include/dynd/abi/vtable.h
index 7815044..7d9f88e 100644
--- a/include/dynd/abi/vtable.h
+++ b/include/dynd/abi/vtable.h
@@ -3,6 +3,7 @@
 
 #include "dynd/abi/initialization.h"
 #include "dynd/abi/function_pointer.h"
+#include "dynd/abi/metadata.h"
 #include "dynd/abi/refcount.h"
 #include "dynd/abi/resource.h"
 #include "dynd/abi/version.h"
-- 
2.43.0


From ad79834829f43c9c1289664d87f5b1d47df62ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 138/176] fix: axis_perm_to_strides gives strides, not the
 shape

---
 src/dynd/shape_tools.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index 712a501..cf8d09b 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -127,7 +127,6 @@ void dynd::axis_perm_to_strides(intptr_t ndim, const int *axis_perm, const intpt
     int i_perm = axis_perm[i];
     intptr_t dim_size = shape[i_perm];
     out_strides[i_perm] = dim_size > 1 ? element_size : 0;
-    out_strides[i_perm] = dim_size;
     element_size *= dim_size;
   }
 }
-- 
2.43.0


From 89431ab1955060f281feb0cf94ea96609cac4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 139/176] fix: classifying the axis order compares each stride
 with the next one

---
 src/dynd/shape_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index cf8d09b..185281a 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -481,7 +481,7 @@ axis_order_classification_t dynd::classify_strided_axis_order(intptr_t current_s
       axis_order_classification_t aoc;
       // Get the classification from the next dimension onward
       if (edt->get_ndim() > 1) {
-        aoc = classify_strided_axis_order(current_stride, edt->get_element_type(),
+        aoc = classify_strided_axis_order(estride, edt->get_element_type(),
                                           element_arrmeta + sizeof(fixed_dim_type_arrmeta));
       }
       else {
-- 
2.43.0


From b3d0b35924b10df6bab80db0fa691f512d8cbccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 140/176] fix: iterating with broadcasting stays in a dimension
 of size one whatever its stride

---
 src/dynd/types/fixed_dim_type.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index e98c78b..a3ce8e1 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -358,7 +358,8 @@ size_t ndt::fixed_dim_type::iterdata_construct(iterdata_common *iterdata, const
   id->common.incr = &iterdata_incr;
   id->common.reset = &iterdata_reset;
   id->data = NULL;
-  id->stride = md->stride;
+  // A dimension of size one is repeated along a longer dimension of the iteration
+  id->stride = m_dim_size == 1 ? 0 : md->stride;
 
   return inner_size + sizeof(fixed_dim_type_iterdata);
 }
-- 
2.43.0


From a1aadaedfe2b2269ab77ba7529556aa5724e4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 141/176] fix: a scalar can be iterated along with an array,
 and keeps its type

---
 include/dynd/type.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 6f92e37..486659f 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -603,13 +603,13 @@ namespace ndt {
 
     /** Destructs any references or other state contained in the iterdata */
     void iterdata_destruct(iterdata_common *iterdata, intptr_t ndim) const {
-      if (!is_builtin()) {
+      if (!is_builtin() && ndim > 0) {
         m_ptr->iterdata_destruct(iterdata, ndim);
       }
     }
 
     size_t get_broadcasted_iterdata_size(intptr_t ndim) const {
-      if (is_builtin()) {
+      if (is_builtin() || ndim == 0) {
         return sizeof(iterdata_broadcasting_terminator);
       } else {
         return m_ptr->get_iterdata_size(ndim) + sizeof(iterdata_broadcasting_terminator);
@@ -632,8 +632,9 @@ namespace ndt {
     void broadcasted_iterdata_construct(iterdata_common *iterdata, const char **inout_arrmeta, intptr_t ndim,
                                         const intptr_t *shape, type &out_uniform_tp) const {
       size_t size;
-      if (is_builtin()) {
+      if (is_builtin() || ndim == 0) {
         size = 0;
+        out_uniform_tp = *this;
       } else {
         size = m_ptr->iterdata_construct(iterdata, inout_arrmeta, ndim, shape, out_uniform_tp);
       }
-- 
2.43.0


From cf97643ddbac7d0f264aa9730be35184ac89ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 142/176] fix: with_1d_stride reads arrays that are not
 writable

---
 include/dynd/with.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/with.hpp b/include/dynd/with.hpp
index 9d6c22c..4d4b880 100644
--- a/include/dynd/with.hpp
+++ b/include/dynd/with.hpp
@@ -21,7 +21,7 @@ namespace nd {
     static_assert(is_dynd_scalar<T>::value, "T must have the same representation in DyND and C++");
     nd::array b = nd::asarray(a, ndt::make_type<T[]>());
     auto ss = reinterpret_cast<const size_stride_t *>(b.get()->metadata());
-    f(ss->dim_size, ss->stride / sizeof(T), reinterpret_cast<const T *>(b.data()));
+    f(ss->dim_size, ss->stride / sizeof(T), reinterpret_cast<const T *>(b.cdata()));
   }
 
 } // namespace nd
-- 
2.43.0


From 418d2eb06a90798bfeef9954681b22f242e6ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 143/176] fix: with_1d_stride gives negative strides as
 negative

---
 include/dynd/with.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/with.hpp b/include/dynd/with.hpp
index 4d4b880..a328f02 100644
--- a/include/dynd/with.hpp
+++ b/include/dynd/with.hpp
@@ -21,7 +21,7 @@ namespace nd {
     static_assert(is_dynd_scalar<T>::value, "T must have the same representation in DyND and C++");
     nd::array b = nd::asarray(a, ndt::make_type<T[]>());
     auto ss = reinterpret_cast<const size_stride_t *>(b.get()->metadata());
-    f(ss->dim_size, ss->stride / sizeof(T), reinterpret_cast<const T *>(b.cdata()));
+    f(ss->dim_size, ss->stride / static_cast<intptr_t>(sizeof(T)), reinterpret_cast<const T *>(b.cdata()));
   }
 
 } // namespace nd
-- 
2.43.0


From 90323c8bcf455e43bcbe8448f3aa6a373d16b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 144/176] fix: with_1d_stride copies when the stride is no
 multiple of the element

---
 include/dynd/with.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dynd/with.hpp b/include/dynd/with.hpp
index a328f02..9deeeb8 100644
--- a/include/dynd/with.hpp
+++ b/include/dynd/with.hpp
@@ -21,6 +21,13 @@ namespace nd {
     static_assert(is_dynd_scalar<T>::value, "T must have the same representation in DyND and C++");
     nd::array b = nd::asarray(a, ndt::make_type<T[]>());
     auto ss = reinterpret_cast<const size_stride_t *>(b.get()->metadata());
+    if (ss->stride % static_cast<intptr_t>(sizeof(T)) != 0) {
+      // The stride cannot be expressed in elements, so a copy is needed
+      nd::array c = nd::empty(ss->dim_size, ndt::make_type<T>());
+      c.assign(b);
+      b = c;
+      ss = reinterpret_cast<const size_stride_t *>(b.get()->metadata());
+    }
     f(ss->dim_size, ss->stride / static_cast<intptr_t>(sizeof(T)), reinterpret_cast<const T *>(b.cdata()));
   }
 
-- 
2.43.0


From 9c0ca234ec12518614ecd7d9eb90ecfa55b630dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 145/176] fix: substituting the shape of a scalar reads no
 dimensions

---
 src/dynd/types/substitute_shape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/types/substitute_shape.cpp b/src/dynd/types/substitute_shape.cpp
index 2bd6c48..2106b47 100644
--- a/src/dynd/types/substitute_shape.cpp
+++ b/src/dynd/types/substitute_shape.cpp
@@ -98,6 +98,10 @@ ndt::type ndt::substitute_shape(const ndt::type &pattern, intptr_t ndim, const i
   if (ndim > pattern.get_ndim()) {
     ssd.throw_error();
   }
+  if (ndim == 0) {
+    // There is nothing to substitute
+    return pattern;
+  }
   substitute_shape_visitor(pattern, 0, &ssd, transformed_tp, was_transformed);
   return transformed_tp;
 }
-- 
2.43.0


From 8600b26515083f08fe21171b846c45b2ed3c74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:44 +0000
Subject: [PATCH 146/176] fix: making an array like another ends when its
 elements have no size

---
 src/dynd/types/fixed_dim_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index a3ce8e1..8a67add 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -476,7 +476,7 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       intptr_t i = ndim_partial - 2;
       do {
         stride = md[i].stride;
-      } while (stride == 0 && i >= 0);
+      } while (stride == 0 && --i >= 0);
     }
     for (size_t i = 0; i < ndim_partial; ++i) {
       int i_perm = axis_perm[i];
@@ -503,7 +503,7 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
         intptr_t i = ndim - 2;
         do {
           stride = md[i].stride;
-        } while (stride == 0 && i >= (intptr_t)ndim_partial);
+        } while (stride == 0 && --i >= (intptr_t)ndim_partial);
       }
       for (size_t i = ndim_partial; i != ndim; ++i) {
         intptr_t dim_size = md[i].dim_size;
-- 
2.43.0


From 27eebe02559027d8cb7587546845003505dc188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:04 +0000
Subject: [PATCH 147/176] fix: iterating over nested containers does not read
 past the last one

---
 include/dynd/iterator.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/dynd/iterator.hpp b/include/dynd/iterator.hpp
index 61f9b1c..156a7f7 100644
--- a/include/dynd/iterator.hpp
+++ b/include/dynd/iterator.hpp
@@ -111,10 +111,9 @@ public:
   iterator &operator++()
   {
     base_type::operator++();
-    if (base_type::m_current == base_type::m_end) {
-      ++m_current;
-      base_type::m_current = std::begin(*m_current);
-      base_type::m_end = std::end(*m_current);
+    if (base_type::m_current == base_type::m_end && ++m_current != m_end) {
+      // Go on at the front of the next container, there is none at the end
+      *this = iterator(m_current, m_end);
     }
 
     return *this;
@@ -252,10 +251,9 @@ public:
   const_iterator &operator++()
   {
     base_type::operator++();
-    if (base_type::m_current == base_type::m_end) {
-      ++m_current;
-      base_type::m_current = std::begin(*m_current);
-      base_type::m_end = std::end(*m_current);
+    if (base_type::m_current == base_type::m_end && ++m_current != m_end) {
+      // Go on at the front of the next container, there is none at the end
+      *this = const_iterator(m_current, m_end);
     }
 
     return *this;
-- 
2.43.0


From 0aadc569adb3009128e2c8ea91738bf4b41483e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:42 +0000
Subject: [PATCH 148/176] fix: nested containers of rows with different sizes
 fill var dimensions

---
 include/dynd/kernels/init_kernel.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/dynd/kernels/init_kernel.hpp b/include/dynd/kernels/init_kernel.hpp
index 0758d83..42de3b8 100644
--- a/include/dynd/kernels/init_kernel.hpp
+++ b/include/dynd/kernels/init_kernel.hpp
@@ -224,7 +224,7 @@ namespace nd {
       void single(char *data, const ContainerType &values) {
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin = memblock->alloc(values.size());
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->size = values.size();
-        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, values.begin(), values.size());
+        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, front_data(values), values.size());
       }
 
       void contiguous(char *data, const ContainerType *values, size_t size) {
@@ -240,15 +240,8 @@ namespace nd {
   template <typename ContainerType, typename Enable = void>
   struct container_init;
 
-  template <typename ValueType>
-  struct container_init<std::initializer_list<ValueType>,
-                        std::enable_if_t<ndt::traits<std::initializer_list<ValueType>>::ndim != 1>>
-      : detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>>::init_kernel;
-  };
-
   template <typename ContainerType>
-  struct container_init<ContainerType, std::enable_if_t<ndt::traits<ContainerType>::ndim == 1>> {
+  struct container_init<ContainerType, std::enable_if_t<ndt::traits<ContainerType>::ndim >= 1>> {
     typedef value_type_t<ContainerType> value_type;
 
     std::aligned_union_t<1, detail::init_kernel<ndt::fixed_dim_type, ContainerType>,
@@ -312,8 +305,8 @@ namespace nd {
   };
 
   template <typename T>
-  struct init_kernel<std::vector<T>> : detail::init_kernel<ndt::fixed_dim_type, std::vector<T>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::vector<T>>::init_kernel;
+  struct init_kernel<std::vector<T>> : container_init<std::vector<T>> {
+    using container_init<std::vector<T>>::container_init;
   };
 
   template <typename T, T... first, T... second>
-- 
2.43.0


From 2c6373cb0597926eb09bece32508e2d67422833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:42 +0000
Subject: [PATCH 149/176] fix: a tuple inside a tuple counts all of its
 metadata

---
 include/dynd/types/tuple_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/types/tuple_type.hpp b/include/dynd/types/tuple_type.hpp
index bdaaca6..09135ea 100644
--- a/include/dynd/types/tuple_type.hpp
+++ b/include/dynd/types/tuple_type.hpp
@@ -251,7 +251,7 @@ namespace ndt {
   struct traits<std::tuple<ElementTypes...>> {
     static const bool is_same_layout = false;
 
-    static const bool metadata_size = traits<tuple<ElementTypes...>>::metadata_size;
+    static const size_t metadata_size = traits<tuple<ElementTypes...>>::metadata_size;
 
     static type equivalent() { return make_type<tuple_type>({make_type<ElementTypes>()...}); }
   };
-- 
2.43.0


From bae529688def7248a62146b91b71c66b72e74e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:42 +0000
Subject: [PATCH 150/176] fix: an array of a scalar can be made with another
 type

---
 include/dynd/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/array.hpp b/include/dynd/array.hpp
index fa619d6..7ca4ead 100644
--- a/include/dynd/array.hpp
+++ b/include/dynd/array.hpp
@@ -60,7 +60,7 @@ namespace nd {
         : buffer((values.get_type().get_ndim() == tp.get_ndim())
                      ? tp
                      : values.get_type().with_replaced_dtype(tp, tp.get_ndim()),
-                 buffer_empty_init_tag()) {
+                 readwrite_access_flags, buffer_empty_init_tag()) {
       assign(values);
     }
 
-- 
2.43.0


From 52427caf10ab3dbf3260b7a1961e12524dd0ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:42 +0000
Subject: [PATCH 151/176] fix: the shape of an empty container of containers
 reads no element

---
 include/dynd/type.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 486659f..a9a0232 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -1015,6 +1015,13 @@ namespace ndt {
       res[0] = values.size();
 
       auto iter = values.begin();
+      if (iter == values.end()) {
+        // There is no element to get the rest of the shape from
+        for (size_t i = 1; i < ndim; ++i) {
+          res[i] = 0;
+        }
+        return;
+      }
       ndt::traits<typename ContainerType::value_type>::shape(res + 1, *iter);
 
       while (++iter != values.end()) {
-- 
2.43.0


From 651746110c0648ef4f2449cfdd7667c82f89f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:47 +0000
Subject: [PATCH 152/176] fix: concatenating with an empty array

---
 src/dynd/array.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index e1f3a19..301950b 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -862,8 +862,12 @@ nd::array nd::concatenate(const nd::array &x, const nd::array &y) {
   }
 
   nd::array res = nd::empty(x.get_dim_size() + y.get_dim_size(), x.get_dtype());
-  res(irange(0, x.get_dim_size())).assign(x);
-  res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  if (x.get_dim_size() > 0) {
+    res(irange(0, x.get_dim_size())).assign(x);
+  }
+  if (y.get_dim_size() > 0) {
+    res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  }
 
   return res;
 }
-- 
2.43.0


From 2dbe5e34708119685881ac856834b93a09c4ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 153/176] fix: the path of an entry inserted in the registry
 starts with the path of its namespace

---
 include/dynd/registry.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/registry.hpp b/include/dynd/registry.hpp
index 3b6e5ea..bb338bd 100644
--- a/include/dynd/registry.hpp
+++ b/include/dynd/registry.hpp
@@ -73,6 +73,9 @@ public:
 
     it = m_namespace.emplace(entry).first;
     it->second.absolute(entry.first);
+    if (!m_name.empty()) {
+      it->second.absolute(m_name);
+    }
 
     emit(entry.first.c_str(), &it->second);
   }
-- 
2.43.0


From 4e101eb92b8c41f38ac0cbc5f8ce615c7c0282ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 154/176] fix: an empty registry entry knows whether it is a
 namespace

---
 include/dynd/registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/registry.hpp b/include/dynd/registry.hpp
index bb338bd..27ead54 100644
--- a/include/dynd/registry.hpp
+++ b/include/dynd/registry.hpp
@@ -27,7 +27,7 @@ private:
   std::vector<observer> m_observers;
 
 public:
-  registry_entry() = default;
+  registry_entry() : m_is_namespace(false) {}
 
   registry_entry(const value_type &entry) : m_is_namespace(false), m_value(entry) {}
 
-- 
2.43.0


From b2328ba42ae3f673a6b04589dad2896e90f5fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 155/176] fix: a refused registration of a type constructor
 changes nothing

---
 src/dynd/type_registry.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dynd/type_registry.cpp b/src/dynd/type_registry.cpp
index ce47cfb..efdad01 100644
--- a/src/dynd/type_registry.cpp
+++ b/src/dynd/type_registry.cpp
@@ -157,15 +157,16 @@ DYNDT_API void dynd::register_known_type_id_constructor(type_id_t id, ndt::type
   if (ii.singleton_type != ndt::type() || ii.construct_type != nullptr || ii.parse_type_args != nullptr) {
     throw runtime_error("Type ID " + to_string(id) + ", " + ii.name + ", already has type construction registerd");
   }
+  if (construct_type == nullptr && parse_type_args != nullptr) {
+    // If the type args parser is provided, the type constructor needs to be provided too
+    throw runtime_error(
+        "Type ID " + to_string(id) + ", " + ii.name +
+        ", type construction registration needs a type constructor function along with the type args parser");
+  }
   ii.singleton_type = std::move(singleton_type);
   if (construct_type != nullptr) {
     ii.construct_type = construct_type;
     // If the type args parser isn't provided, we can put in a default
     ii.parse_type_args = parse_type_args ? parse_type_args : &default_parse_type_args;
-  } else if (parse_type_args != nullptr) {
-    // If the type args parser is provided, the type constructor needs to be provided too
-    throw runtime_error(
-        "Type ID " + to_string(id) + ", " + ii.name +
-        ", type construction registration needs a type constructor function along with the type args parser");
   }
 }
-- 
2.43.0


From 515820e69db2a0e87d57282a0e76671dae7ddbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 156/176] fix: an empty list as a type argument includes its
 closing bracket

---
 src/dynd/types/datashape_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index a261413..b67f077 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -226,6 +226,9 @@ static nd::buffer parse_type_arg(const char *&rbegin, const char *end, map<std::
       result = parse_datashape_list(begin, end, symtable);
     }
     if (result.is_null()) {
+      if (!datashape::parse_token(begin, end, ']')) {
+        throw datashape::internal_parse_error(begin, "Expected a list of integers, strings or dynd types");
+      }
       result = nd::buffer::empty(ndt::make_fixed_dim(0, ndt::make_type<void>()));
     }
     rbegin = begin;
-- 
2.43.0


From 7bc2b60dc76ea2145f7db807986cf4370b7f0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 157/176] fix: a list of integers as a type argument may start
 with whitespace

---
 src/dynd/types/datashape_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index b67f077..b330ea5 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -141,6 +141,7 @@ static nd::buffer parse_integer_list(const char *&rbegin, const char *end) {
 
   vector<int64_t> dlist;
   const char *strbegin, *strend;
+  skip_whitespace_and_pound_comments(begin, end);
   if (!parse_int_no_ws(begin, end, strbegin, strend)) {
     return nd::buffer();
   }
-- 
2.43.0


From b8c7b1f9e6d081d03ad41369e7b6dd03e252369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 158/176] fix: type arguments are separated by commas

---
 src/dynd/types/datashape_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index b330ea5..ab07706 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -350,9 +350,10 @@ nd::buffer datashape::parse_type_constr_args(const char *&rbegin, const char *en
     }
     pos_args.push_back(arg);
     if (!datashape::parse_token(begin, end, ',')) {
-      if (datashape::parse_token(begin, end, ']')) {
-        done = true;
+      if (!datashape::parse_token(begin, end, ']')) {
+        throw datashape::internal_parse_error(begin, "Expected a ',' or ']'");
       }
+      done = true;
       break;
     }
   }
-- 
2.43.0


From fffb84cfa696e5390e65d2339ecfe0f9442da26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:51 +0000
Subject: [PATCH 159/176] fix: text after a list of type arguments is an error

---
 src/dynd/types/datashape_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index ab07706..490a797 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -1018,6 +1018,10 @@ nd::buffer datashape::parse_type_constr_args(const std::string &str) {
     const char *begin = &str[0], *end = &str[0] + str.size();
     try {
       result = parse_type_constr_args(begin, end, symtable);
+      skip_whitespace_and_pound_comments(begin, end);
+      if (begin != end) {
+        throw datashape::internal_parse_error(begin, "unexpected token in datashape");
+      }
     } catch (const datashape::internal_parse_error &e) {
       stringstream ss;
       std::string line_prev, line_cur;
-- 
2.43.0


From c5736b961232fa84da81c5db2d0d3c30ae043b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:30 +0000
Subject: [PATCH 160/176] fix: an empty list of type arguments includes its
 closing bracket

---
 src/dynd/types/datashape_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 490a797..acf03c9 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -322,6 +322,7 @@ nd::buffer datashape::parse_type_constr_args(const char *&rbegin, const char *en
   }
 
   if (datashape::parse_token(begin, end, ']')) {
+    rbegin = begin;
     return nd::buffer::empty(
         ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::tuple_type>(), ndt::make_type<ndt::struct_type>()}));
   }
-- 
2.43.0


From a72371a2a22743880c7f5ed5aab58deacd149b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:06 +0000
Subject: [PATCH 161/176] fix: uint128 values too large for float are reported
 when assigned with overflow checking

---
 include/dynd/assignment.hpp                 | 14 +++++++++++
 include/dynd/kernels/assignment_kernels.hpp | 26 +++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 084c29f..a776235 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -428,6 +428,20 @@ overflow_cast(ArgType s) {
   return static_cast<RetType>(s);
 }
 
+// uint128 -> float with overflow checking, the largest values round to infinity
+template <typename RetType, typename ArgType>
+std::enable_if_t<std::is_same<RetType, float>::value && std::is_same<ArgType, uint128>::value, RetType>
+overflow_cast(ArgType s) {
+  RetType d = static_cast<RetType>(s);
+  if (!isfinite(d)) {
+    std::stringstream ss;
+    ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
+    ss << s << " to " << ndt::make_type<RetType>();
+    throw std::overflow_error(ss.str());
+  }
+  return d;
+}
+
 // complex -> real with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_floating_point<RetType>::value && is_complex<ArgType>::value, RetType> overflow_cast(ArgType s) {
diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 05bc493..2a5e8a0 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -220,6 +220,19 @@ namespace nd {
         std::enable_if_t<is_floating_point<ReturnType>::value && is_unsigned_integral<Arg0Type>::value>>
         : assignment_kernel<ReturnType, Arg0Type, assign_error_nocheck> {};
 
+    // uint128 -> float with overflow checking, the largest values round to infinity
+    template <>
+    struct assignment_kernel<float, uint128, assign_error_overflow>
+        : base_strided_kernel<assignment_kernel<float, uint128, assign_error_overflow>, 1> {
+      void single(char *dst, char *const *src) {
+        *reinterpret_cast<float *>(dst) = overflow_cast<float>(*reinterpret_cast<uint128 *>(src[0]));
+      }
+    };
+
+    template <>
+    struct assignment_kernel<float, uint128, assign_error_fractional>
+        : assignment_kernel<float, uint128, assign_error_overflow> {};
+
     // Unsigned int -> complex floating point with no checking
     template <typename ReturnType, typename Arg0Type>
     struct assignment_kernel<ReturnType, Arg0Type, assign_error_nocheck,
@@ -256,6 +269,19 @@ namespace nd {
                              std::enable_if_t<is_complex<ReturnType>::value && is_unsigned_integral<Arg0Type>::value>>
         : assignment_kernel<ReturnType, Arg0Type, assign_error_nocheck> {};
 
+    // uint128 -> complex<float> with overflow checking, the largest values round to infinity
+    template <>
+    struct assignment_kernel<complex<float>, uint128, assign_error_overflow>
+        : base_strided_kernel<assignment_kernel<complex<float>, uint128, assign_error_overflow>, 1> {
+      void single(char *dst, char *const *src) {
+        *reinterpret_cast<complex<float> *>(dst) = overflow_cast<float>(*reinterpret_cast<uint128 *>(src[0]));
+      }
+    };
+
+    template <>
+    struct assignment_kernel<complex<float>, uint128, assign_error_fractional>
+        : assignment_kernel<complex<float>, uint128, assign_error_overflow> {};
+
     // Floating point -> signed int with overflow checking
     template <typename ReturnType, typename Arg0Type>
     struct assignment_kernel<
-- 
2.43.0


From 2e22977bb962594062568674a27868ed883c85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 162/176] fix: a last row of one element is separated when an
 array is printed

---
 src/dynd/type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 67c97bb..3e329a9 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -789,7 +789,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       for (j = 1; j < per_row && i < i_size; ++j, ++i) {
         o << ", " << setw(max_num_cols) << leading[i] << setw(0);
       }
-      if (i < i_size - 1) {
+      if (i < i_size) {
         o << ",\n";
       }
     }
@@ -803,7 +803,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
         for (j = 1; j < per_row && i < i_size; ++j, ++i) {
           o << ", " << setw(max_num_cols) << trailing[i] << setw(0);
         }
-        if (i < i_size - 1) {
+        if (i < i_size) {
           o << ",\n";
         }
       }
-- 
2.43.0


From f6a66b525b45b472768c7361a5a5fd0352aa0950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 163/176] fix: an array can be printed when a later element is
 wider than a row

---
 src/dynd/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 3e329a9..753a361 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -763,7 +763,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       total_cols = (max_num_cols + 2) * (leading.size() + trailing.size());
     }
 
-    intptr_t per_row = packing_cols / (max_num_cols + 2);
+    intptr_t per_row = max(packing_cols / (max_num_cols + 2), (intptr_t)1);
 
     if (leading.size() + trailing.size() == (size_t)dim_size) {
       // Combine the lists if the total size is covered
-- 
2.43.0


From ec13e9951cfe2bcecd9a076e741b187077efd211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 164/176] fix: the last of eight elements is printed

---
 src/dynd/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 753a361..b6a3864 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -698,7 +698,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     summarize_stats(leading.back(), num_rows, max_num_cols);
   }
   // Get trailing strings
-  for (itrail = max(dim_size - trailing_count, ilead + 1); itrail < dim_size; ++itrail) {
+  for (itrail = max(dim_size - trailing_count, ilead); itrail < dim_size; ++itrail) {
     stringstream ss;
     tp.print_data(ss, arrmeta, data + itrail * stride);
     trailing.push_back(ss.str());
-- 
2.43.0


From 74e86dad69f4d18e8ee91e87b3cb7027cb05a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 165/176] fix: two elements of many rows are separated when an
 array is printed

---
 src/dynd/type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index b6a3864..0c0466b 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -733,6 +733,8 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     if (leading.size() != (size_t)dim_size) {
       if ((size_t)dim_size > (leading.size() + trailing.size())) {
         o << ",\n ...\n";
+      } else {
+        o << ",\n";
       }
       if (!trailing.empty()) {
         print_indented(o, " ", trailing.front());
-- 
2.43.0


From 529e8fb6f6f9766fecbf7d72d7ae8bf797da0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:55 +0000
Subject: [PATCH 166/176] fix: masked take refuses destinations, sources and
 masks it cannot work on

---
 .../dynd/callables/take_dispatch_callable.hpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 0e1326c..acdc309 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -26,9 +26,23 @@ namespace nd {
                                                   ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<bool>())})) {}
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &DYND_UNUSED(dst_tp), size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
+      // The kernel only works on strided dimensions, and makes a var dimension
+      if (src_tp[0].get_id() != fixed_dim_id || src_tp[1].get_id() != fixed_dim_id || src_tp[1].get_ndim() != 1) {
+        std::stringstream ss;
+        ss << "masked take: cannot take from " << src_tp[0] << " with a mask of type " << src_tp[1];
+        throw type_error(ss.str());
+      }
+      ndt::type src0_element_tp = src_tp[0].extended<ndt::base_dim_type>()->get_element_type();
+      ndt::type resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
+      if (!dst_tp.is_symbolic() && dst_tp != resolved_dst_tp) {
+        std::stringstream ss;
+        ss << "masked take: the result has type " << resolved_dst_tp << ", not " << dst_tp;
+        throw type_error(ss.str());
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
                          size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         typedef nd::masked_take_ck self_type;
@@ -58,12 +72,10 @@ namespace nd {
         kb(kernel_request_strided, nullptr, dst_arrmeta + sizeof(ndt::var_dim_type::metadata_type), 1, &src0_el_meta);
       });
 
-      ndt::type src0_element_tp = src_tp[0].extended<ndt::base_dim_type>()->get_element_type();
-
       nd::array error_mode = assign_error_default;
       assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
 
-      return ndt::make_type<ndt::var_dim_type>(src0_element_tp);
+      return resolved_dst_tp;
     }
   };
 
-- 
2.43.0


From 848168d0eb24069d9dc8f53bb6da25205a8d0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:32 +0000
Subject: [PATCH 167/176] fix: take accepts a destination for elements that
 have dimensions

---
 include/dynd/callables/take_dispatch_callable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index acdc309..0dd8db9 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -216,7 +216,8 @@ namespace nd {
   public:
     take_dispatch_callable()
         : base_callable(ndt::make_type<ndt::callable_type>(
-              ndt::make_type<ndt::typevar_dim_type>("R", ndt::make_type<ndt::typevar_type>("T")),
+              // With dimensions in Dims beyond the first, the result is not an R * T
+              ndt::make_type<ndt::typevar_dim_type>("R", ndt::make_type<ndt::any_kind_type>()),
               {ndt::make_type<ndt::ellipsis_dim_type>("Dims", ndt::make_type<ndt::typevar_type>("T")),
                ndt::make_type<ndt::typevar_dim_type>("N", ndt::make_type<ndt::typevar_type>("Ix"))})) {}
 
-- 
2.43.0


From 4ad513f56b52ef21b3c83baa7f50e83aa359cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:05 +0000
Subject: [PATCH 168/176] fix: a range given only where it stops has a step of
 one

---
 include/dynd/callables/range_callable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 37dcda6..8770a34 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -37,7 +37,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? ReturnElementType(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
@@ -90,7 +90,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? ReturnElementType(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
-- 
2.43.0


From 9819f96a31ad9149244384eca3ead7870d312499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:38 +0000
Subject: [PATCH 169/176] fix: equals_exact is false for var dimensions of
 different sizes

---
 src/dynd/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 301950b..e24c5cc 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -311,6 +311,9 @@ bool nd::array::equals_exact(const array &rhs) const {
   } else if (get_type().get_id() == var_dim_id) {
     // If there's a leading var dimension, convert it to strided and compare
     // (Note: this is an inefficient hack)
+    if (get_dim_size() != rhs.get_dim_size()) {
+      return false;
+    }
     ndt::type tp = ndt::make_fixed_dim(get_shape()[0], get_type().extended<ndt::base_dim_type>()->get_element_type());
     return nd::old_view(*this, tp).equals_exact(nd::old_view(rhs, tp));
   } else {
-- 
2.43.0


From e47a2ca4af4535a6f016f26277c092c6aed3ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:19 +0000
Subject: [PATCH 170/176] fix: records with fields that have dimensions are not
 comparable

---
 include/dynd/callables/equal_callable.hpp     | 8 ++++++++
 include/dynd/callables/not_equal_callable.hpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 8f4652f..4af8405 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -69,6 +69,10 @@ namespace nd {
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::tuple_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::tuple_type>()->get_field_type(i)};
+        // The comparison of fields with dimensions is not a single bool
+        if (src_field_tp[0].get_ndim() != 0 || src_field_tp[1].get_ndim() != 0) {
+          throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
+        }
         equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
       }
 
@@ -125,6 +129,10 @@ namespace nd {
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::struct_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::struct_type>()->get_field_type(i)};
+        // The comparison of fields with dimensions is not a single bool
+        if (src_field_tp[0].get_ndim() != 0 || src_field_tp[1].get_ndim() != 0) {
+          throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
+        }
         equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
       }
 
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index dc1ca09..4f608c4 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -69,6 +69,10 @@ namespace nd {
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::tuple_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::tuple_type>()->get_field_type(i)};
+        // The comparison of fields with dimensions is not a single bool
+        if (src_field_tp[0].get_ndim() != 0 || src_field_tp[1].get_ndim() != 0) {
+          throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
+        }
         not_equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
       }
 
@@ -125,6 +129,10 @@ namespace nd {
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::struct_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::struct_type>()->get_field_type(i)};
+        // The comparison of fields with dimensions is not a single bool
+        if (src_field_tp[0].get_ndim() != 0 || src_field_tp[1].get_ndim() != 0) {
+          throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
+        }
         not_equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
       }
 
-- 
2.43.0


From 49cd9edf113fb1839df8b2f7cefa0e1aa6b83e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:36 +0000
Subject: [PATCH 171/176] fix: appending to a string grew its memory by half
 every time, needed or not

---
 include/dynd/types/sso_bytestring.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 65197f4..ab596a4 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -179,7 +179,11 @@ public:
   }
 
   /** Like reserve(), but with exponential growth */
-  void reserve_grow(size_t new_capacity) { reserve(std::max(new_capacity, capacity() * 3 / 2)); }
+  void reserve_grow(size_t new_capacity) {
+    if (capacity() < new_capacity) {
+      reserve(std::max(new_capacity, capacity() * 3 / 2));
+    }
+  }
 
   /** Resizes the bytestring to the specified number of bytes */
   void resize(size_t new_size) {
-- 
2.43.0


From 913ef39c9c8c332822187c35e3b81d66a224b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:36 +0000
Subject: [PATCH 172/176] fix: view_scalars of a type whose elements own memory
 or have no size, or of the type there already

---
 src/dynd/array.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index e24c5cc..baa0415 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -677,6 +677,10 @@ static void view_scalar_types(const ndt::type &dt, intptr_t DYND_UNUSED(arrmeta_
                               ndt::type &out_transformed_tp, bool &out_was_transformed) {
   if (dt.is_scalar()) {
     const ndt::type *e = reinterpret_cast<const ndt::type *>(extra);
+    if (dt == *e) {
+      out_transformed_tp = dt;
+      return;
+    }
     // If things aren't simple, use a view_type
     if (dt.get_base_id() == expr_kind_id || dt.get_data_size() != e->get_data_size() || !dt.is_pod() || !e->is_pod()) {
       // Some special cases that have the same memory layouts
@@ -726,8 +730,8 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
     const ndt::fixed_dim_type *sad = array_type.extended<ndt::fixed_dim_type>();
     const fixed_dim_type_arrmeta *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(get()->metadata());
     const ndt::type &edt = sad->get_element_type();
-    if (edt.is_pod() && (intptr_t)edt.get_data_size() == md->stride &&
-        sad->get_element_type().get_base_id() != expr_kind_id) {
+    if (edt.is_pod() && scalar_tp.is_pod() && scalar_tp.get_data_size() != 0 &&
+        (intptr_t)edt.get_data_size() == md->stride && sad->get_element_type().get_base_id() != expr_kind_id) {
       intptr_t nbytes = md->dim_size * edt.get_data_size();
       // Make sure the element size divides into the # of bytes
       if (nbytes % scalar_tp.get_data_size() != 0) {
-- 
2.43.0


From f0112aa49cf53313f42f5d8ad7f8a4546fc8d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:23 +0000
Subject: [PATCH 173/176] fix: a record type of fewer names than types wrote
 outside its fields

---
 include/dynd/types/struct_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/types/struct_type.hpp b/include/dynd/types/struct_type.hpp
index 22b7876..40e7962 100644
--- a/include/dynd/types/struct_type.hpp
+++ b/include/dynd/types/struct_type.hpp
@@ -52,8 +52,8 @@ namespace ndt {
     struct_type(type_id_t id, const std::vector<std::string> &field_names, const std::vector<type> &field_types,
                 bool variadic = false)
         : base_type(id, 0, 1, type_flag_indexable | (variadic ? type_flag_symbolic : 0), 0, 0, 0),
-          m_field_count(field_types.size()), m_field_names(field_names), m_field_types(field_names.size()),
-          m_arrmeta_offsets(field_names.size()), m_variadic(variadic) {
+          m_field_count(field_types.size()), m_field_names(field_names), m_field_types(field_types.size()),
+          m_arrmeta_offsets(field_types.size()), m_variadic(variadic) {
       size_t arrmeta_offset = get_field_count() * sizeof(size_t);
 
       this->m_data_alignment = 1;
-- 
2.43.0


From b8580da3cc08f4a96b42fbb7406edb9c6310330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:28 +0000
Subject: [PATCH 174/176] fix: a power of dimensions matched one over other
 elements

---
 src/dynd/types/pow_dimsym_type.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 53cca37..c9c1b8f 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -107,7 +107,9 @@ bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string,
   if (candidate_tp.get_id() == pow_dimsym_id) {
     if (m_base_tp.match(candidate_tp.extended<pow_dimsym_type>()->get_base_type(), tp_vars)) {
 
-      get_element_type().match(candidate_tp.extended<pow_dimsym_type>()->get_element_type(), tp_vars);
+      if (!get_element_type().match(candidate_tp.extended<pow_dimsym_type>()->get_element_type(), tp_vars)) {
+        return false;
+      }
       type &tv_type = tp_vars[candidate_tp.extended<pow_dimsym_type>()->get_exponent()];
       if (tv_type.is_null()) {
         // This typevar hasn't been seen yet
-- 
2.43.0


From a557c3172db264a2e29bdd3dfe7bca7744aa0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:18 +0000
Subject: [PATCH 175/176] fix: the error for a text that ends in a line break,
 or is empty, named no place in it

---
 src/dynd/json_parser.cpp            | 7 +++++++
 src/dynd/types/datashape_parser.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index b432f3a..56813cf 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -638,6 +638,13 @@ static void get_error_line_column(const char *begin, const char *end, const char
     begin = line_end;
     ++out_line;
   }
+  if (position == end) {
+    // The place behind the last line break, or in an empty text
+    out_line_prev.swap(out_line_cur);
+    out_line_cur = "";
+    out_column = 1;
+    return;
+  }
 
   throw runtime_error("Cannot get line number of error, its position is out of range");
 }
diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index acf03c9..c295564 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -982,6 +982,13 @@ static void get_error_line_column(const char *begin, const char *end, const char
     begin = line_end;
     ++out_line;
   }
+  if (position == end) {
+    // The place behind the last line break, or in an empty text
+    out_line_prev.swap(out_line_cur);
+    out_line_cur = "";
+    out_column = 1;
+    return;
+  }
 
   throw runtime_error("Cannot get line number of error, its position is out of range");
 }
-- 
2.43.0


From a663b19db0638ab08b75d6968158526554e2d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:05 +0000
Subject: [PATCH 176/176] fix: a multi_shortvector made short again freed its
 old memory twice

---
 include/dynd/shortvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/shortvector.hpp b/include/dynd/shortvector.hpp
index c7f1454..9d21365 100644
--- a/include/dynd/shortvector.hpp
+++ b/include/dynd/shortvector.hpp
@@ -214,6 +214,7 @@ public:
     void init(int n) {
         if (m_alloc_data != NULL) {
             delete[] m_alloc_data;
+            m_alloc_data = NULL;
         }
         internal_init(n);
     }
-- 
2.43.0

