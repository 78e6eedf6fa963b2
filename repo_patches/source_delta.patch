From 7e2d03302815a1f28b15f5d9c5834499bc508178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:23 +0000
Subject: [PATCH 01/17] fix: narrow big-endian scalars keep their value

A scalar declared narrower than its type was read into, and written from,
the wrong end of the byteswapped object when the cast order is not the host's.
---
 include/field_read/read_impl.hpp   |  7 +++++++
 include/field_write/write_impl.hpp |  7 +++++++
 single_header/s2s.hpp              | 14 ++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 9e38ec8..c6017b4 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -99,6 +99,13 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
     obj = std::byteswap(obj);
+    // A width narrower than the type arrives in the front bytes, which the swap
+    // moves to the most significant end. Shifted as unsigned, so a narrow value
+    // is zero-extended the way host order leaves it.
+    if constexpr(sizeof(T) > 1) {
+      using bits = std::make_unsigned_t<T>;
+      obj = static_cast<T>(static_cast<bits>(obj) >> ((sizeof(T) - size_to_read) * 8));
+    }
     return {};
   }
   return res;
diff --git a/include/field_write/write_impl.hpp b/include/field_write/write_impl.hpp
index 0d7c730..ea8fe6e 100644
--- a/include/field_write/write_impl.hpp
+++ b/include/field_write/write_impl.hpp
@@ -4,6 +4,7 @@
 
 #include <expected>
 #include <bit>
+#include <type_traits>
 
 #include "../error/cast_error.hpp"
 #include "../lib/s2s_traits/type_traits.hpp"
@@ -55,6 +56,12 @@ constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
   T swapped = std::byteswap(obj);
+  // The stream takes the front bytes, and the swap left the low-order ones a
+  // narrower width declares at the back.
+  if constexpr(sizeof(T) > 1) {
+    using bits = std::make_unsigned_t<T>;
+    swapped = static_cast<T>(static_cast<bits>(swapped) >> ((sizeof(T) - size_to_write) * 8));
+  }
   return write_native_impl(s, swapped, size_to_write);
 }
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index f92c679..866c211 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4003,6 +4003,13 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
     obj = std::byteswap(obj);
+    // A width narrower than the type arrives in the front bytes, which the swap
+    // moves to the most significant end. Shifted as unsigned, so a narrow value
+    // is zero-extended the way host order leaves it.
+    if constexpr(sizeof(T) > 1) {
+      using bits = std::make_unsigned_t<T>;
+      obj = static_cast<T>(static_cast<bits>(obj) >> ((sizeof(T) - size_to_read) * 8));
+    }
     return {};
   }
   return res;
@@ -4744,6 +4751,7 @@ private:
 #define _WRITE_IMPL_HPP_
  
  
+ 
 namespace s2s {
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto write_native_impl(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
@@ -4788,6 +4796,12 @@ constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
   T swapped = std::byteswap(obj);
+  // The stream takes the front bytes, and the swap left the low-order ones a
+  // narrower width declares at the back.
+  if constexpr(sizeof(T) > 1) {
+    using bits = std::make_unsigned_t<T>;
+    swapped = static_cast<T>(static_cast<bits>(swapped) >> ((sizeof(T) - size_to_write) * 8));
+  }
   return write_native_impl(s, swapped, size_to_write);
 }
 
-- 
2.43.0


From e52d5ac2f3d2b85987600ddcbd54e1ab02e8cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:24 +0000
Subject: [PATCH 02/17] fix: compare fixed_string over its own bytes only

operator== built string_views from a buffer a stream may have left
unterminated, reading past it, and ignored everything after an embedded NUL.
---
 include/lib/containers/fixed_string.hpp | 4 +++-
 single_header/s2s.hpp                   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lib/containers/fixed_string.hpp b/include/lib/containers/fixed_string.hpp
index 59bd5a3..87a7c51 100644
--- a/include/lib/containers/fixed_string.hpp
+++ b/include/lib/containers/fixed_string.hpp
@@ -29,8 +29,10 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
+  // Over the whole array: a value read off a stream need not be terminated, so
+  // nothing here may go looking for a terminator.
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 866c211..03741f2 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -49,8 +49,10 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
+  // Over the whole array: a value read off a stream need not be terminated, so
+  // nothing here may go looking for a terminator.
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
-- 
2.43.0


From 33041c012fb58e8a1eaf260ba0256c7b23ca6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:24 +0000
Subject: [PATCH 03/17] fix: magic_number compares in the field's own type

eq deduced the literal's type, so a field wider than it was narrowed before
the comparison and wrong magic values were accepted.
---
 include/api/field_descriptors.hpp | 2 +-
 single_header/s2s.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/api/field_descriptors.hpp b/include/api/field_descriptors.hpp
index 8904dcb..9d00d9c 100644
--- a/include/api/field_descriptors.hpp
+++ b/include/api/field_descriptors.hpp
@@ -58,7 +58,7 @@ using magic_string = field<id, fixed_string<expected.size()>, byte_count{expecte
 
 template <fixed_string id, integral T, auto size, auto expected>
   requires fixed_size_like<size_type_of<size>>
-using magic_number = field<id, T, size, eq{expected}>;
+using magic_number = field<id, T, size, eq{static_cast<T>(expected)}>;
 
 // todo how user can provide user defined vector impl or allocator
 template <fixed_string id, typename T, boundable_field_option_like<std::vector<T>> auto... opts>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 03741f2..183bc9c 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3435,7 +3435,7 @@ using magic_string = field<id, fixed_string<expected.size()>, byte_count{expecte
 
 template <fixed_string id, integral T, auto size, auto expected>
   requires fixed_size_like<size_type_of<size>>
-using magic_number = field<id, T, size, eq{expected}>;
+using magic_number = field<id, T, size, eq{static_cast<T>(expected)}>;
 
 // todo how user can provide user defined vector impl or allocator
 template <fixed_string id, typename T, boundable_field_option_like<std::vector<T>> auto... opts>
-- 
2.43.0


From b51fe0f294bfd6949fa4bc44f9d00c5c6b5a3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:24 +0000
Subject: [PATCH 04/17] fix: accept max_bytes on a container inside maybe

---
 include/field_list/field_list_metadata.hpp | 6 +++---
 single_header/s2s.hpp                      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index aaf7f2d..ccaa2ab 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -75,13 +75,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 183bc9c..ae246ca 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2535,13 +2535,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
-- 
2.43.0


From 9e047f6dcaede686b446126ea8c20ce1837dbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:24 +0000
Subject: [PATCH 05/17] fix: reject a field that depends on itself

A dependency has to be parsed before the field that names it, and a field is
not parsed before itself.
---
 include/field_list/field_list_metadata.hpp | 2 +-
 single_header/s2s.hpp                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index ccaa2ab..81ca1bb 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -368,7 +368,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index ae246ca..c40e83b 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2828,7 +2828,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
-- 
2.43.0


From f81786d551b8b21b25b8ff3a8a3dce527157c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:24 +0000
Subject: [PATCH 06/17] fix: let a discriminant also be a length target

A length target has no operator[], so reading a union matched on one failed
to compile.
---
 include/type_deduction/type/type_impl.hpp | 2 +-
 single_header/s2s.hpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 1ecf9a9..6823476 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -31,7 +31,7 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl)); 
   }
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index c40e83b..220fdec 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3715,7 +3715,7 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl)); 
   }
 };
 
-- 
2.43.0


From 9df9151266e0a1de7fb9266854ea56217db60fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:07 +0000
Subject: [PATCH 07/17] fix: write a union whose match_case value is negative

The width check shifted the sign-extended value and refused every negative
discriminant narrower than size_t, though such a stream reads back fine.
---
 include/field_write/derived_value.hpp | 4 +++-
 single_header/s2s.hpp                 | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 406cc8c..e9c1475 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -297,7 +297,9 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    // At the type's full width the round trip below is the whole test, and the
+    // only one a negative discriminant can pass.
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 220fdec..f504e10 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4735,7 +4735,9 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    // At the type's full width the round trip below is the whole test, and the
+    // only one a negative discriminant can pass.
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
-- 
2.43.0


From 543d2f00cea14be7fbe765c54ed16f721f4ab51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:57 +0000
Subject: [PATCH 08/17] fix: refuse a verified length its slot cannot hold

A length whose only containers are conditional was checked against them and
then written truncated to its declared width.
---
 include/field_write/derived_value.hpp | 16 +++++++++++++++-
 single_header/s2s.hpp                 | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index e9c1475..bda9e41 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -120,6 +120,11 @@ template <typename target, typename... choices, std::size_t... idx>
 struct union_len_obligation<field_choice_list<choices...>, target, std::index_sequence<idx...>> {
   static constexpr bool present = (... || obligates<choices, target>());
 
+  template <typename V>
+  static constexpr auto is_active(const V& variant) -> bool {
+    return (... || (obligates<choices, target>() && variant.index() == idx));
+  }
+
   template <typename V>
   static constexpr auto agrees(const V& variant, std::size_t value_on_the_wire) -> bool {
     bool ok{true};
@@ -167,6 +172,9 @@ inline constexpr bool has_conditional_len_obligation_v =
   has_conditional_len_obligation<target, F>::value;
 
 
+template <typename target, typename F>
+struct derive_value;
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -182,6 +190,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
     -> rw_result
   {
     bool agreed{true};
+    bool any_active{false};
 
     (([&] {
       const auto& producer = static_cast<const fields&>(field_list);
@@ -189,10 +198,12 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
         const auto is_active =
           producer.value.has_value() &&
           compute_impl<typename fields::field_presence_checker>{}(field_list);
+        any_active |= is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
         using resolved = typename union_len_obligation_of<fields, target>::resolved;
+        any_active |= resolved::is_active(producer.value);
         if(!resolved::agrees(producer.value, value_on_the_wire))
           agreed = false;
       }
@@ -200,6 +211,10 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
 
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
+    // Agreement is over the whole value; what reaches the stream is only its
+    // declared width.
+    if(any_active && !derive_value<target, S>::fits_declared_width(value_on_the_wire))
+      return std::unexpected(error_reason::validation_failure);
     return {};
   }
 };
@@ -290,7 +305,6 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<field_type>(derived);
   }
 
-private:
   // The declared width, not sizeof(field_type): a u32 slot declared
   // 2_B puts two bytes on the wire, and a length needing
   // three must fail rather than reach the stream truncated.
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index f504e10..58bf5ab 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4558,6 +4558,11 @@ template <typename target, typename... choices, std::size_t... idx>
 struct union_len_obligation<field_choice_list<choices...>, target, std::index_sequence<idx...>> {
   static constexpr bool present = (... || obligates<choices, target>());
 
+  template <typename V>
+  static constexpr auto is_active(const V& variant) -> bool {
+    return (... || (obligates<choices, target>() && variant.index() == idx));
+  }
+
   template <typename V>
   static constexpr auto agrees(const V& variant, std::size_t value_on_the_wire) -> bool {
     bool ok{true};
@@ -4605,6 +4610,9 @@ inline constexpr bool has_conditional_len_obligation_v =
   has_conditional_len_obligation<target, F>::value;
 
 
+template <typename target, typename F>
+struct derive_value;
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -4620,6 +4628,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
     -> rw_result
   {
     bool agreed{true};
+    bool any_active{false};
 
     (([&] {
       const auto& producer = static_cast<const fields&>(field_list);
@@ -4627,10 +4636,12 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
         const auto is_active =
           producer.value.has_value() &&
           compute_impl<typename fields::field_presence_checker>{}(field_list);
+        any_active |= is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
         using resolved = typename union_len_obligation_of<fields, target>::resolved;
+        any_active |= resolved::is_active(producer.value);
         if(!resolved::agrees(producer.value, value_on_the_wire))
           agreed = false;
       }
@@ -4638,6 +4649,10 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
 
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
+    // Agreement is over the whole value; what reaches the stream is only its
+    // declared width.
+    if(any_active && !derive_value<target, S>::fits_declared_width(value_on_the_wire))
+      return std::unexpected(error_reason::validation_failure);
     return {};
   }
 };
@@ -4728,7 +4743,6 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<field_type>(derived);
   }
 
-private:
   // The declared width, not sizeof(field_type): a u32 slot declared
   // 2_B puts two bytes on the wire, and a length needing
   // three must fail rather than reach the stream truncated.
-- 
2.43.0


From 5187ecd94d7ea516da223f705a792f2e9a591939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:07 +0000
Subject: [PATCH 09/17] fix: callables on the write path see the values being
 written

parse_if, ladder clauses, compute and len_from_fields were evaluated on the
stored slots while writing. A derived or frozen sibling goes out with another
value than its slot holds, so the writer could take a decision the reader of
those very bytes would not.
---
 .../computation_from_fields_impl.hpp          | 20 ++++-
 include/field_size/field_size_deduce.hpp      |  4 +-
 include/field_write/derived_value.hpp         | 22 ++++-
 include/field_write/field_writer.hpp          |  8 +-
 .../if_else_ladder/ladder_impl.hpp            | 18 ++--
 include/type_deduction/type/type_impl.hpp     | 18 ++--
 single_header/s2s.hpp                         | 90 +++++++++++++------
 7 files changed, 122 insertions(+), 58 deletions(-)

diff --git a/include/field_compute/computation_from_fields_impl.hpp b/include/field_compute/computation_from_fields_impl.hpp
index 138970d..432ddaa 100644
--- a/include/field_compute/computation_from_fields_impl.hpp
+++ b/include/field_compute/computation_from_fields_impl.hpp
@@ -44,13 +44,23 @@ concept can_eval_R_from_fields =
   >::res;
 
 
+// Where a callable's arguments come from. Reading, every field it can name has
+// been parsed into its own slot; the write path has to answer differently for
+// the fields whose slot it ignores, see written_values.
+struct stored_values {
+  template <typename field_accessor, typename field_list_t>
+  static constexpr auto get(const field_list_t& flist) -> decltype(auto) {
+    return field_value_of<field_accessor>(flist);
+  }
+};
+
 // template <auto callable, typename R, field_name_list Fs>
-template <typename T>
+template <typename T, typename values = stored_values>
 struct compute_impl;
 
 // todo: static_vector over fixed_string list?
-template <auto callable, typename R, fixed_string... req_fields>
-struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
+template <auto callable, typename R, fixed_string... req_fields, typename values>
+struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>, values>{
   template <auto metadata, typename... fields>
     requires (can_eval_R_from_fields<
                 callable, 
@@ -58,7 +68,9 @@ struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
                 struct_field_list_impl<metadata, fields...>,
                 fixed_string_list<req_fields...>>)
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+    return [](const auto&... args) -> R {
+      return callable(args...);
+    }(values::template get<field_accessor<req_fields>>(flist)...);
   }
 };
 } /* namespace s2s */
diff --git a/include/field_size/field_size_deduce.hpp b/include/field_size/field_size_deduce.hpp
index e211532..c43e7c7 100644
--- a/include/field_size/field_size_deduce.hpp
+++ b/include/field_size/field_size_deduce.hpp
@@ -31,9 +31,9 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
+  template <typename values = stored_values, auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
-    return compute_impl<field_size_type>{}(struct_fields);
+    return compute_impl<field_size_type, values>{}(struct_fields);
   }
 };
 } /* namespace s2s */
diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index bda9e41..abb2524 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -175,6 +175,8 @@ inline constexpr bool has_conditional_len_obligation_v =
 template <typename target, typename F>
 struct derive_value;
 
+struct written_values;
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -197,7 +199,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker, written_values>{}(field_list);
         any_active |= is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
@@ -320,6 +322,24 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
   }
 };
+
+// What a callable sees while writing: the value that reaches the stream, which
+// is what the reader will hand the same callable. For a derived or a frozen
+// field that is not the stored one. A derivation that fails is reported at its
+// own field, so falling back to the slot here decides nothing.
+struct written_values {
+  template <typename field_accessor, auto metadata, typename... fields>
+  static constexpr auto get(const struct_field_list_impl<metadata, fields...>& flist) -> decltype(auto) {
+    using S = struct_field_list_impl<metadata, fields...>;
+    using target = meta::type_of<lookup_field<metadata>(as_sv(field_accessor::field_id))->id>;
+    if constexpr(is_derived_target_v<target, S>)
+      return derive_value<target, S>{}(flist).value_or(static_cast<const target&>(flist).value);
+    else if constexpr(is_frozen_target_v<target, S>)
+      return (frozen_value_of<target>);
+    else
+      return field_value_of<field_accessor>(flist);
+  }
+};
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
diff --git a/include/field_write/field_writer.hpp b/include/field_write/field_writer.hpp
index b3cdd27..28e7514 100644
--- a/include/field_write/field_writer.hpp
+++ b/include/field_write/field_writer.hpp
@@ -87,7 +87,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}.template operator()<written_values>(field_list) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -165,7 +165,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}.template operator()<written_values>(field_list) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -191,7 +191,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker, written_values>{}(field_list);
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -268,7 +268,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide, written_values>{}(field_list);
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
diff --git a/include/type_deduction/if_else_ladder/ladder_impl.hpp b/include/type_deduction/if_else_ladder/ladder_impl.hpp
index 00b66c3..e236139 100644
--- a/include/type_deduction/if_else_ladder/ladder_impl.hpp
+++ b/include/type_deduction/if_else_ladder/ladder_impl.hpp
@@ -10,25 +10,25 @@
 
 
 namespace s2s {
-template <typename ladder>
+template <typename ladder, typename values = stored_values>
 struct evaluate_ladder;
 
-template <std::size_t idx, typename branch>
+template <std::size_t idx, typename branch, typename values>
 struct evalaute_ladder_impl;
 
-template <std::size_t idx, typename branch>
+template <std::size_t idx, typename branch, typename values>
 struct evalaute_ladder_impl {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
     type_deduction_idx
   {
-    if(compute_impl<typename branch::expression>{}(field_list)) 
+    if(compute_impl<typename branch::expression, values>{}(field_list)) 
       return idx;
     return std::nullopt;
   }
 };
 
-template <typename... branches>
+template <typename values, typename... branches>
 struct evaluate_ladder_helper {
   template <auto metadata, typename... fields, std::size_t... idx>
   constexpr auto operator()(
@@ -40,19 +40,19 @@ struct evaluate_ladder_helper {
     return (
       pipeline_seed |
       ... |
-      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list); }
+      [&]() { return evalaute_ladder_impl<idx, branches, values>{}(field_list); }
     );
   }
 };
 
 
-template <typename... branches>
-struct evaluate_ladder<type_if_else<branches...>> {
+template <typename... branches, typename values>
+struct evaluate_ladder<type_if_else<branches...>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
     type_deduction_res
   {
-    auto res = evaluate_ladder_helper<branches...>{}(
+    auto res = evaluate_ladder_helper<values, branches...>{}(
       field_list,
       std::make_index_sequence<sizeof...(branches)>{}
     );
diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 6823476..e8612b2 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -12,22 +12,22 @@
 
 
 namespace s2s {
-template <typename... Args>
+template <typename T, typename values = stored_values>
 struct deduce_type;
 
 
 // todo constraints compute like
-template <typename eval_expression, typename _switch>
-struct deduce_type<type<eval_expression, _switch>> {
+template <typename eval_expression, typename _switch, typename values>
+struct deduce_type<type<eval_expression, _switch>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
+    return evaluate_switch<_switch>{}(compute_impl<eval_expression, values>{}(sfl)); 
   }
 };
 
-template <fixed_string id, typename _switch>
-struct deduce_type<type<match_field<id>, _switch>> {
+template <fixed_string id, typename _switch, typename values>
+struct deduce_type<type<match_field<id>, _switch>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
@@ -36,12 +36,12 @@ struct deduce_type<type<match_field<id>, _switch>> {
 };
 
 // todo constraints
-template <typename ladder>
-struct deduce_type<type<ladder>> {
+template <typename ladder, typename values>
+struct deduce_type<type<ladder>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_ladder<ladder>{}(sfl);
+    return evaluate_ladder<ladder, values>{}(sfl);
   }
 };
 } /* namespace s2s */
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 58bf5ab..89068f5 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3027,13 +3027,23 @@ concept can_eval_R_from_fields =
   >::res;
 
 
+// Where a callable's arguments come from. Reading, every field it can name has
+// been parsed into its own slot; the write path has to answer differently for
+// the fields whose slot it ignores, see written_values.
+struct stored_values {
+  template <typename field_accessor, typename field_list_t>
+  static constexpr auto get(const field_list_t& flist) -> decltype(auto) {
+    return field_value_of<field_accessor>(flist);
+  }
+};
+
 // template <auto callable, typename R, field_name_list Fs>
-template <typename T>
+template <typename T, typename values = stored_values>
 struct compute_impl;
 
 // todo: static_vector over fixed_string list?
-template <auto callable, typename R, fixed_string... req_fields>
-struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
+template <auto callable, typename R, fixed_string... req_fields, typename values>
+struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>, values>{
   template <auto metadata, typename... fields>
     requires (can_eval_R_from_fields<
                 callable, 
@@ -3041,7 +3051,9 @@ struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
                 struct_field_list_impl<metadata, fields...>,
                 fixed_string_list<req_fields...>>)
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+    return [](const auto&... args) -> R {
+      return callable(args...);
+    }(values::template get<field_accessor<req_fields>>(flist)...);
   }
 };
 } /* namespace s2s */
@@ -3080,9 +3092,9 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
+  template <typename values = stored_values, auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
-    return compute_impl<field_size_type>{}(struct_fields);
+    return compute_impl<field_size_type, values>{}(struct_fields);
   }
 };
 } /* namespace s2s */
@@ -3580,25 +3592,25 @@ using extract_type_from_field_v = typename extract_type_from_field<T>::type;
 #define _LADDER_IMPL_HPP_
  
 namespace s2s {
-template <typename ladder>
+template <typename ladder, typename values = stored_values>
 struct evaluate_ladder;
 
-template <std::size_t idx, typename branch>
+template <std::size_t idx, typename branch, typename values>
 struct evalaute_ladder_impl;
 
-template <std::size_t idx, typename branch>
+template <std::size_t idx, typename branch, typename values>
 struct evalaute_ladder_impl {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
     type_deduction_idx
   {
-    if(compute_impl<typename branch::expression>{}(field_list)) 
+    if(compute_impl<typename branch::expression, values>{}(field_list)) 
       return idx;
     return std::nullopt;
   }
 };
 
-template <typename... branches>
+template <typename values, typename... branches>
 struct evaluate_ladder_helper {
   template <auto metadata, typename... fields, std::size_t... idx>
   constexpr auto operator()(
@@ -3610,19 +3622,19 @@ struct evaluate_ladder_helper {
     return (
       pipeline_seed |
       ... |
-      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list); }
+      [&]() { return evalaute_ladder_impl<idx, branches, values>{}(field_list); }
     );
   }
 };
 
 
-template <typename... branches>
-struct evaluate_ladder<type_if_else<branches...>> {
+template <typename... branches, typename values>
+struct evaluate_ladder<type_if_else<branches...>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
     type_deduction_res
   {
-    auto res = evaluate_ladder_helper<branches...>{}(
+    auto res = evaluate_ladder_helper<values, branches...>{}(
       field_list,
       std::make_index_sequence<sizeof...(branches)>{}
     );
@@ -3696,22 +3708,22 @@ struct evaluate_switch<type_switch<cases...>> {
 #define _TYPE_IMPL_HPP_
  
 namespace s2s {
-template <typename... Args>
+template <typename T, typename values = stored_values>
 struct deduce_type;
 
 
 // todo constraints compute like
-template <typename eval_expression, typename _switch>
-struct deduce_type<type<eval_expression, _switch>> {
+template <typename eval_expression, typename _switch, typename values>
+struct deduce_type<type<eval_expression, _switch>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
+    return evaluate_switch<_switch>{}(compute_impl<eval_expression, values>{}(sfl)); 
   }
 };
 
-template <fixed_string id, typename _switch>
-struct deduce_type<type<match_field<id>, _switch>> {
+template <fixed_string id, typename _switch, typename values>
+struct deduce_type<type<match_field<id>, _switch>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
@@ -3720,12 +3732,12 @@ struct deduce_type<type<match_field<id>, _switch>> {
 };
 
 // todo constraints
-template <typename ladder>
-struct deduce_type<type<ladder>> {
+template <typename ladder, typename values>
+struct deduce_type<type<ladder>, values> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_ladder<ladder>{}(sfl);
+    return evaluate_ladder<ladder, values>{}(sfl);
   }
 };
 } /* namespace s2s */
@@ -4613,6 +4625,8 @@ inline constexpr bool has_conditional_len_obligation_v =
 template <typename target, typename F>
 struct derive_value;
 
+struct written_values;
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -4635,7 +4649,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker, written_values>{}(field_list);
         any_active |= is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
@@ -4758,6 +4772,24 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
   }
 };
+
+// What a callable sees while writing: the value that reaches the stream, which
+// is what the reader will hand the same callable. For a derived or a frozen
+// field that is not the stored one. A derivation that fails is reported at its
+// own field, so falling back to the slot here decides nothing.
+struct written_values {
+  template <typename field_accessor, auto metadata, typename... fields>
+  static constexpr auto get(const struct_field_list_impl<metadata, fields...>& flist) -> decltype(auto) {
+    using S = struct_field_list_impl<metadata, fields...>;
+    using target = meta::type_of<lookup_field<metadata>(as_sv(field_accessor::field_id))->id>;
+    if constexpr(is_derived_target_v<target, S>)
+      return derive_value<target, S>{}(flist).value_or(static_cast<const target&>(flist).value);
+    else if constexpr(is_frozen_target_v<target, S>)
+      return (frozen_value_of<target>);
+    else
+      return field_value_of<field_accessor>(flist);
+  }
+};
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
@@ -4945,7 +4977,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}.template operator()<written_values>(field_list) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -5023,7 +5055,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}.template operator()<written_values>(field_list) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -5049,7 +5081,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker, written_values>{}(field_list);
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -5126,7 +5158,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide, written_values>{}(field_list);
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
-- 
2.43.0


From 4b0ac6c27a5052798b6d014edbb1bcdb1b303dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:42 +0000
Subject: [PATCH 10/17] fix: a field table holds only the fields it was given

A reference to the id "" was taken as resolved in every schema, since the
table was padded to its capacity with an entry under the default key.
---
 include/lib/containers/static_map.hpp | 8 ++++++--
 single_header/s2s.hpp                 | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/lib/containers/static_map.hpp b/include/lib/containers/static_map.hpp
index 4a6f4d5..ea9e7c6 100644
--- a/include/lib/containers/static_map.hpp
+++ b/include/lib/containers/static_map.hpp
@@ -44,8 +44,12 @@ template <typename Key, typename Value, std::size_t N /*, compare? */>
 class static_map {
 public:
   constexpr static_map() = default;
-  constexpr static_map(const std::pair<Key, Value> (&entries)[N]): 
-    map(generate_map<N>(entries, std::make_index_sequence<N>{})) {}
+  // The extent is that of what was given, not the capacity: padding up to N
+  // would add an entry under the default key, which then looks present.
+  template <std::size_t C>
+    requires (C <= N)
+  constexpr static_map(const std::pair<Key, Value> (&entries)[C]): 
+    map(generate_map<C>(entries, std::make_index_sequence<C>{})) {}
   constexpr auto operator[](const Key& key) const  -> std::optional<Value> {
     auto key_index = find_index_if(map, [&key](auto t){ return t.element.first == key; });
     if(key_index != map.size())
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 89068f5..9d452c9 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -1521,8 +1521,12 @@ template <typename Key, typename Value, std::size_t N /*, compare? */>
 class static_map {
 public:
   constexpr static_map() = default;
-  constexpr static_map(const std::pair<Key, Value> (&entries)[N]): 
-    map(generate_map<N>(entries, std::make_index_sequence<N>{})) {}
+  // The extent is that of what was given, not the capacity: padding up to N
+  // would add an entry under the default key, which then looks present.
+  template <std::size_t C>
+    requires (C <= N)
+  constexpr static_map(const std::pair<Key, Value> (&entries)[C]): 
+    map(generate_map<C>(entries, std::make_index_sequence<C>{})) {}
   constexpr auto operator[](const Key& key) const  -> std::optional<Value> {
     auto key_index = find_index_if(map, [&key](auto t){ return t.element.first == key; });
     if(key_index != map.size())
-- 
2.43.0


From 97a0a154d36a623da1fb6321d96e6bf0809d45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 11/17] fix: a multi-dimensional C array reads during constant
 evaluation

---
 include/field_read/read_impl.hpp | 14 +++++++++++++-
 single_header/s2s.hpp            | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index c6017b4..f0fe116 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -33,6 +33,18 @@ constexpr auto checked_byte_count(std::size_t len) -> std::expected<std::size_t,
   return len * sizeof(element);
 }
 
+// An element of a multi-dimensional C array is itself an array, which cannot be
+// assigned as a whole.
+template <typename T>
+constexpr auto assign_array_element(T& to, const T& from) -> void {
+  if constexpr(std::is_array_v<T>) {
+    for(std::size_t idx = 0; idx < std::extent_v<T>; ++idx)
+      assign_array_element(to[idx], from[idx]);
+  } else {
+    to = from;
+  }
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
@@ -45,7 +57,7 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
     using element = std::remove_extent_t<T>;
     auto as_std_array = std::bit_cast<std::array<element, std::extent_v<T>>>(as_byte_buffer_rep);
     for(std::size_t idx = 0; idx < std::extent_v<T>; ++idx)
-      obj[idx] = as_std_array[idx];
+      assign_array_element(obj[idx], as_std_array[idx]);
   } else {
     obj = std::bit_cast<T>(as_byte_buffer_rep);
   }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 9d452c9..dcc53fb 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3955,6 +3955,18 @@ constexpr auto checked_byte_count(std::size_t len) -> std::expected<std::size_t,
   return len * sizeof(element);
 }
 
+// An element of a multi-dimensional C array is itself an array, which cannot be
+// assigned as a whole.
+template <typename T>
+constexpr auto assign_array_element(T& to, const T& from) -> void {
+  if constexpr(std::is_array_v<T>) {
+    for(std::size_t idx = 0; idx < std::extent_v<T>; ++idx)
+      assign_array_element(to[idx], from[idx]);
+  } else {
+    to = from;
+  }
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
@@ -3967,7 +3979,7 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
     using element = std::remove_extent_t<T>;
     auto as_std_array = std::bit_cast<std::array<element, std::extent_v<T>>>(as_byte_buffer_rep);
     for(std::size_t idx = 0; idx < std::extent_v<T>; ++idx)
-      obj[idx] = as_std_array[idx];
+      assign_array_element(obj[idx], as_std_array[idx]);
   } else {
     obj = std::bit_cast<T>(as_byte_buffer_rep);
   }
-- 
2.43.0


From 3ebdb7d25d75b396c94ee004b23ebb3a039ace94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:52 +0000
Subject: [PATCH 12/17] fix: reject a magic_number wider than its type

---
 include/api/field_descriptors.hpp | 3 ++-
 single_header/s2s.hpp             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/api/field_descriptors.hpp b/include/api/field_descriptors.hpp
index 9d00d9c..e720493 100644
--- a/include/api/field_descriptors.hpp
+++ b/include/api/field_descriptors.hpp
@@ -57,7 +57,8 @@ template <fixed_string id, fixed_string expected>
 using magic_string = field<id, fixed_string<expected.size()>, byte_count{expected.size() + 1}, eq{expected}>;
 
 template <fixed_string id, integral T, auto size, auto expected>
-  requires fixed_size_like<size_type_of<size>>
+  requires fixed_size_like<size_type_of<size>> &&
+           field_fits_to_underlying_type<size, T>
 using magic_number = field<id, T, size, eq{static_cast<T>(expected)}>;
 
 // todo how user can provide user defined vector impl or allocator
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index dcc53fb..735da12 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3450,7 +3450,8 @@ template <fixed_string id, fixed_string expected>
 using magic_string = field<id, fixed_string<expected.size()>, byte_count{expected.size() + 1}, eq{expected}>;
 
 template <fixed_string id, integral T, auto size, auto expected>
-  requires fixed_size_like<size_type_of<size>>
+  requires fixed_size_like<size_type_of<size>> &&
+           field_fits_to_underlying_type<size, T>
 using magic_number = field<id, T, size, eq{static_cast<T>(expected)}>;
 
 // todo how user can provide user defined vector impl or allocator
-- 
2.43.0


From 6684f2349d78e80600140ee42677a94a9595ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 13/17] fix: refuse a byte that is not a bool where a bool is
 read

---
 include/field_read/read_impl.hpp | 50 ++++++++++++++++++++++++++++++--
 single_header/s2s.hpp            | 50 ++++++++++++++++++++++++++++++--
 2 files changed, 94 insertions(+), 6 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index f0fe116..1371452 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -2,11 +2,13 @@
 #define _READ_IMPL_HPP_
 
 
+#include <algorithm>
 #include <expected>
 #include <bit>
 #include <array>
 #include <limits>
 #include <type_traits>
+#include <vector>
 
 #include "../error/cast_error.hpp"
 #include "../field_size/field_size.hpp"
@@ -45,12 +47,42 @@ constexpr auto assign_array_element(T& to, const T& from) -> void {
   }
 }
 
+template <typename T>
+struct innermost_element {
+  using type = T;
+};
+
+template <typename T, std::size_t N>
+struct innermost_element<T[N]> : innermost_element<T> {};
+
+template <typename T, std::size_t N>
+struct innermost_element<std::array<T, N>> : innermost_element<T> {};
+
+template <typename T>
+struct innermost_element<std::vector<T>> : innermost_element<T> {};
+
+template <typename T>
+concept made_of_bools = std::is_same_v<typename innermost_element<T>::type, bool>;
+
+// A bool has two values and a byte has 256. Loading any other byte as a bool is
+// undefined, so the bytes are looked at before anything treats them as one.
+constexpr auto all_bools(const char* bytes, std::size_t count) -> bool {
+  for(std::size_t idx = 0; idx < count; ++idx)
+    if(bytes[idx] != 0 && bytes[idx] != 1)
+      return false;
+  return true;
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
   if(!s.read(as_byte_buffer_rep, size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(made_of_bools<T>) {
+    if(!all_bools(as_byte_buffer_rep.data(), size_to_read))
+      return std::unexpected(error_reason::validation_failure);
+  }
   if constexpr(std::is_array_v<T>) {
     // bit_cast cannot yield a C array — it returns by value. The buffer goes
     // to the equivalent std::array instead and the elements are assigned.
@@ -69,6 +101,13 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
   if(!s.read(byte_addressof<stream>(obj), size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(made_of_bools<T>) {
+    char* const bytes = byte_addressof<stream>(obj);
+    if(!all_bools(bytes, size_to_read)) {
+      std::fill_n(bytes, size_to_read, '\0');
+      return std::unexpected(error_reason::validation_failure);
+    }
+  }
   return {};
 }
 
@@ -93,13 +132,18 @@ constexpr auto read_native(stream& s, T& obj, std::size_t len_to_read) -> rw_res
   obj.resize(len_to_read);
   if constexpr(identified_as_constexpr_stream<stream>) {
     // Mirrors write_native: a vector cannot be bit_cast during constant
-    // evaluation, so fill it element by element.
+    // evaluation, so fill it element by element. All of them are taken off the
+    // stream first, as the single read below does: a stream that ends early is
+    // reported as such whatever the elements before hold.
+    rw_result filled{};
     for(auto& elem: obj) {
       auto res = read_native_impl(s, elem, sizeof(elem));
-      if(!res)
+      if(!res && res.error() == error_reason::buffer_exhaustion)
         return res;
+      if(!res)
+        filled = res;
     }
-    return {};
+    return filled;
   } else {
     return read_native_impl(s, obj, *byte_count);
   }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 735da12..ca63b3c 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3938,6 +3938,8 @@ constexpr cast_endianness deduce_byte_order() {
  
  
  
+ 
+ 
 namespace s2s {
 // The gate every wire-driven allocation passes through.
 //
@@ -3968,12 +3970,42 @@ constexpr auto assign_array_element(T& to, const T& from) -> void {
   }
 }
 
+template <typename T>
+struct innermost_element {
+  using type = T;
+};
+
+template <typename T, std::size_t N>
+struct innermost_element<T[N]> : innermost_element<T> {};
+
+template <typename T, std::size_t N>
+struct innermost_element<std::array<T, N>> : innermost_element<T> {};
+
+template <typename T>
+struct innermost_element<std::vector<T>> : innermost_element<T> {};
+
+template <typename T>
+concept made_of_bools = std::is_same_v<typename innermost_element<T>::type, bool>;
+
+// A bool has two values and a byte has 256. Loading any other byte as a bool is
+// undefined, so the bytes are looked at before anything treats them as one.
+constexpr auto all_bools(const char* bytes, std::size_t count) -> bool {
+  for(std::size_t idx = 0; idx < count; ++idx)
+    if(bytes[idx] != 0 && bytes[idx] != 1)
+      return false;
+  return true;
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
   if(!s.read(as_byte_buffer_rep, size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(made_of_bools<T>) {
+    if(!all_bools(as_byte_buffer_rep.data(), size_to_read))
+      return std::unexpected(error_reason::validation_failure);
+  }
   if constexpr(std::is_array_v<T>) {
     // bit_cast cannot yield a C array — it returns by value. The buffer goes
     // to the equivalent std::array instead and the elements are assigned.
@@ -3992,6 +4024,13 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
   if(!s.read(byte_addressof<stream>(obj), size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(made_of_bools<T>) {
+    char* const bytes = byte_addressof<stream>(obj);
+    if(!all_bools(bytes, size_to_read)) {
+      std::fill_n(bytes, size_to_read, '\0');
+      return std::unexpected(error_reason::validation_failure);
+    }
+  }
   return {};
 }
 
@@ -4016,13 +4055,18 @@ constexpr auto read_native(stream& s, T& obj, std::size_t len_to_read) -> rw_res
   obj.resize(len_to_read);
   if constexpr(identified_as_constexpr_stream<stream>) {
     // Mirrors write_native: a vector cannot be bit_cast during constant
-    // evaluation, so fill it element by element.
+    // evaluation, so fill it element by element. All of them are taken off the
+    // stream first, as the single read below does: a stream that ends early is
+    // reported as such whatever the elements before hold.
+    rw_result filled{};
     for(auto& elem: obj) {
       auto res = read_native_impl(s, elem, sizeof(elem));
-      if(!res)
+      if(!res && res.error() == error_reason::buffer_exhaustion)
         return res;
+      if(!res)
+        filled = res;
     }
-    return {};
+    return filled;
   } else {
     return read_native_impl(s, obj, *byte_count);
   }
-- 
2.43.0


From 26cadde5b818425bb5c8b0c52cbf13ef24e7cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 14/17] fix: a zero width in foreign byte order does not shift
 by the full width

---
 include/field_read/read_impl.hpp   | 4 +++-
 include/field_write/write_impl.hpp | 3 ++-
 single_header/s2s.hpp              | 7 +++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 1371452..1577695 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -158,9 +158,11 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
     // A width narrower than the type arrives in the front bytes, which the swap
     // moves to the most significant end. Shifted as unsigned, so a narrow value
     // is zero-extended the way host order leaves it.
+    // A width of zero leaves nothing to shift.
     if constexpr(sizeof(T) > 1) {
       using bits = std::make_unsigned_t<T>;
-      obj = static_cast<T>(static_cast<bits>(obj) >> ((sizeof(T) - size_to_read) * 8));
+      if(size_to_read > 0)
+        obj = static_cast<T>(static_cast<bits>(obj) >> ((sizeof(T) - size_to_read) * 8));
     }
     return {};
   }
diff --git a/include/field_write/write_impl.hpp b/include/field_write/write_impl.hpp
index ea8fe6e..48af6c1 100644
--- a/include/field_write/write_impl.hpp
+++ b/include/field_write/write_impl.hpp
@@ -60,7 +60,8 @@ constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to
   // narrower width declares at the back.
   if constexpr(sizeof(T) > 1) {
     using bits = std::make_unsigned_t<T>;
-    swapped = static_cast<T>(static_cast<bits>(swapped) >> ((sizeof(T) - size_to_write) * 8));
+    if(size_to_write > 0)
+      swapped = static_cast<T>(static_cast<bits>(swapped) >> ((sizeof(T) - size_to_write) * 8));
   }
   return write_native_impl(s, swapped, size_to_write);
 }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index ca63b3c..d7da949 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4081,9 +4081,11 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
     // A width narrower than the type arrives in the front bytes, which the swap
     // moves to the most significant end. Shifted as unsigned, so a narrow value
     // is zero-extended the way host order leaves it.
+    // A width of zero leaves nothing to shift.
     if constexpr(sizeof(T) > 1) {
       using bits = std::make_unsigned_t<T>;
-      obj = static_cast<T>(static_cast<bits>(obj) >> ((sizeof(T) - size_to_read) * 8));
+      if(size_to_read > 0)
+        obj = static_cast<T>(static_cast<bits>(obj) >> ((sizeof(T) - size_to_read) * 8));
     }
     return {};
   }
@@ -4911,7 +4913,8 @@ constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to
   // narrower width declares at the back.
   if constexpr(sizeof(T) > 1) {
     using bits = std::make_unsigned_t<T>;
-    swapped = static_cast<T>(static_cast<bits>(swapped) >> ((sizeof(T) - size_to_write) * 8));
+    if(size_to_write > 0)
+      swapped = static_cast<T>(static_cast<bits>(swapped) >> ((sizeof(T) - size_to_write) * 8));
   }
   return write_native_impl(s, swapped, size_to_write);
 }
-- 
2.43.0


From c3967f08ec57bc45e90db41e798e5c3ff0bd9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 15/17] fix: a constraint compares the field's value, not a
 truncated one

---
 .../field_value_constraints.hpp               | 51 +++++++++++++++++++
 single_header/s2s.hpp                         | 51 +++++++++++++++++++
 2 files changed, 102 insertions(+)

diff --git a/include/field_validation/field_value_constraints.hpp b/include/field_validation/field_value_constraints.hpp
index 3b5df3b..acab073 100644
--- a/include/field_validation/field_value_constraints.hpp
+++ b/include/field_validation/field_value_constraints.hpp
@@ -39,6 +39,33 @@ template <typename T>
 concept inequality_comparable = comparable<T> && 
     (std::is_integral_v<T> || is_fixed_string_v<T>);
 
+// CTAD gives `lt{100}` an int whatever the field holds. Taking the field's value
+// by that type would convert it first, and one that meets the constraint only
+// once truncated would pass, so a number of another type is compared as it is.
+template <typename A, typename T>
+concept number_of_another_type =
+  std::is_arithmetic_v<A> && std::is_arithmetic_v<T> && !std::is_same_v<A, T>;
+
+template <typename A, typename B>
+constexpr auto number_less(A a, B b) -> bool {
+  if constexpr(std::is_integral_v<A> && std::is_integral_v<B>) {
+    if((a < A{}) != (b < B{}))
+      return a < A{};
+  }
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) < static_cast<common>(b);
+}
+
+template <typename A, typename B>
+constexpr auto number_equal(A a, B b) -> bool {
+  if constexpr(std::is_integral_v<A> && std::is_integral_v<B>) {
+    if((a < A{}) != (b < B{}))
+      return false;
+  }
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) == static_cast<common>(b);
+}
+
 // Structs for predefined constraints
 template <equality_comparable T>
 struct eq {
@@ -46,6 +73,9 @@ struct eq {
   constexpr eq(T value) : v(value) {}
   constexpr eq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v == v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_equal(actual_v, v); }
 };
 
 // The one constraint that names a single legal value rather than a set of
@@ -69,6 +99,9 @@ struct neq {
   constexpr neq(T value) : v(value) {}
   constexpr neq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v != v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return !number_equal(actual_v, v); }
 };
 
 template <comparable T>
@@ -77,6 +110,9 @@ struct lt {
   constexpr lt(T value) : v(value) {}
   constexpr lt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v < v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(actual_v, v); }
 };
 
 template <comparable T>
@@ -85,6 +121,9 @@ struct gt {
   constexpr gt(T value) : v(value) {}
   constexpr gt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v > v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(v, actual_v); }
 };
 
 template <typename T>
@@ -93,6 +132,9 @@ struct lte {
   constexpr lte(T value) : v(value) {}
   constexpr lte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v <= v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(actual_v, v) || number_equal(actual_v, v); }
 };
 
 template <inequality_comparable T>
@@ -101,6 +143,9 @@ struct gte {
   constexpr gte(T value) : v(value) {}
   constexpr gte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v >= v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(v, actual_v) || number_equal(actual_v, v); }
 };
 
 template <typename T>
@@ -122,6 +167,12 @@ struct any_of {
                      possible_values.end(), 
                      actual_v) != possible_values.end();
   }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const {
+    return std::any_of(possible_values.begin(), possible_values.end(),
+                       [&](const T& v) { return number_equal(actual_v, v); });
+  }
 };
 
 // Range struct
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index d7da949..62ad849 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -861,6 +861,33 @@ template <typename T>
 concept inequality_comparable = comparable<T> && 
     (std::is_integral_v<T> || is_fixed_string_v<T>);
 
+// CTAD gives `lt{100}` an int whatever the field holds. Taking the field's value
+// by that type would convert it first, and one that meets the constraint only
+// once truncated would pass, so a number of another type is compared as it is.
+template <typename A, typename T>
+concept number_of_another_type =
+  std::is_arithmetic_v<A> && std::is_arithmetic_v<T> && !std::is_same_v<A, T>;
+
+template <typename A, typename B>
+constexpr auto number_less(A a, B b) -> bool {
+  if constexpr(std::is_integral_v<A> && std::is_integral_v<B>) {
+    if((a < A{}) != (b < B{}))
+      return a < A{};
+  }
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) < static_cast<common>(b);
+}
+
+template <typename A, typename B>
+constexpr auto number_equal(A a, B b) -> bool {
+  if constexpr(std::is_integral_v<A> && std::is_integral_v<B>) {
+    if((a < A{}) != (b < B{}))
+      return false;
+  }
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) == static_cast<common>(b);
+}
+
 // Structs for predefined constraints
 template <equality_comparable T>
 struct eq {
@@ -868,6 +895,9 @@ struct eq {
   constexpr eq(T value) : v(value) {}
   constexpr eq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v == v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_equal(actual_v, v); }
 };
 
 // The one constraint that names a single legal value rather than a set of
@@ -891,6 +921,9 @@ struct neq {
   constexpr neq(T value) : v(value) {}
   constexpr neq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v != v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return !number_equal(actual_v, v); }
 };
 
 template <comparable T>
@@ -899,6 +932,9 @@ struct lt {
   constexpr lt(T value) : v(value) {}
   constexpr lt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v < v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(actual_v, v); }
 };
 
 template <comparable T>
@@ -907,6 +943,9 @@ struct gt {
   constexpr gt(T value) : v(value) {}
   constexpr gt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v > v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(v, actual_v); }
 };
 
 template <typename T>
@@ -915,6 +954,9 @@ struct lte {
   constexpr lte(T value) : v(value) {}
   constexpr lte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v <= v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(actual_v, v) || number_equal(actual_v, v); }
 };
 
 template <inequality_comparable T>
@@ -923,6 +965,9 @@ struct gte {
   constexpr gte(T value) : v(value) {}
   constexpr gte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v >= v; }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const { return number_less(v, actual_v) || number_equal(actual_v, v); }
 };
 
 template <typename T>
@@ -944,6 +989,12 @@ struct any_of {
                      possible_values.end(), 
                      actual_v) != possible_values.end();
   }
+
+  template <number_of_another_type<T> A>
+  constexpr bool operator()(const A& actual_v) const {
+    return std::any_of(possible_values.begin(), possible_values.end(),
+                       [&](const T& v) { return number_equal(actual_v, v); });
+  }
 };
 
 // Range struct
-- 
2.43.0


From 7196a6151cd4f8617d602fdbca52efb1687f3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 16/17] fix: a discriminant is derived as the reader compares
 it

---
 include/field_write/derived_value.hpp | 16 ++++++++++++++--
 single_header/s2s.hpp                 | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index abb2524..118f74d 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -62,8 +62,20 @@ struct discriminant_obligation<
   static constexpr bool present = true;
   static constexpr sv target = as_sv(matched_id);
 
+  // A match value need not be of the discriminant's type: `match_case<-1, ...>`
+  // over a u32. The reader's == decides what it names there, so the writer asks
+  // the same question. One that names nothing stays as it is and fails to fit.
+  template <typename discriminant>
+  static constexpr auto as_discriminant(auto match_value) -> std::size_t {
+    const auto converted = static_cast<discriminant>(match_value);
+    if(converted == match_value)
+      return static_cast<std::size_t>(converted);
+    return static_cast<std::size_t>(match_value);
+  }
+
+  template <typename discriminant>
   static constexpr auto value_at(std::size_t alternative_index) -> std::size_t {
-    constexpr std::size_t values[] = {static_cast<std::size_t>(match_values)...};
+    constexpr std::size_t values[] = {as_discriminant<discriminant>(match_values)...};
     return values[alternative_index];
   }
 };
@@ -295,7 +307,7 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
       if constexpr(obligates<fields, target>())
         record(producer.value.size());
       else if constexpr(discriminant_obligates<fields, target>())
-        record(discriminant_obligation<fields>::value_at(producer.value.index()));
+        record(discriminant_obligation<fields>::template value_at<field_type>(producer.value.index()));
     }()), ...);
 
     // Two distinct failures: the dependents contradict one another, or they
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 62ad849..c972e8a 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4626,8 +4626,20 @@ struct discriminant_obligation<
   static constexpr bool present = true;
   static constexpr sv target = as_sv(matched_id);
 
+  // A match value need not be of the discriminant's type: `match_case<-1, ...>`
+  // over a u32. The reader's == decides what it names there, so the writer asks
+  // the same question. One that names nothing stays as it is and fails to fit.
+  template <typename discriminant>
+  static constexpr auto as_discriminant(auto match_value) -> std::size_t {
+    const auto converted = static_cast<discriminant>(match_value);
+    if(converted == match_value)
+      return static_cast<std::size_t>(converted);
+    return static_cast<std::size_t>(match_value);
+  }
+
+  template <typename discriminant>
   static constexpr auto value_at(std::size_t alternative_index) -> std::size_t {
-    constexpr std::size_t values[] = {static_cast<std::size_t>(match_values)...};
+    constexpr std::size_t values[] = {as_discriminant<discriminant>(match_values)...};
     return values[alternative_index];
   }
 };
@@ -4859,7 +4871,7 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
       if constexpr(obligates<fields, target>())
         record(producer.value.size());
       else if constexpr(discriminant_obligates<fields, target>())
-        record(discriminant_obligation<fields>::value_at(producer.value.index()));
+        record(discriminant_obligation<fields>::template value_at<field_type>(producer.value.index()));
     }()), ...);
 
     // Two distinct failures: the dependents contradict one another, or they
-- 
2.43.0


From 9fca0ec242d734d120d08c4f2f5d8aab47e28167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:39 +0000
Subject: [PATCH 17/17] fix: the amalgamation inlines an include that a comment
 follows

---
 scripts/amalgam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/amalgam.py b/scripts/amalgam.py
index 02c3ea0..525ea9e 100644
--- a/scripts/amalgam.py
+++ b/scripts/amalgam.py
@@ -4,8 +4,9 @@ import re
 import sys
 
 # Regex to match non-system #include directives (i.e., with quotes, not angle brackets)
-include_pattern = r'^\s*#include\s*"([^"]+)"\s*$'
-std_include_pattern = r'^\s*#include\s*\<(\w+)\>\s*$'
+# Either may be followed by a comment.
+include_pattern = r'^\s*#\s*include\s*"([^"]+)"(?:[ \t]*(?://.*|/\*[^*\n]*\*/))?\s*$'
+std_include_pattern = r'^\s*#\s*include\s*\<(\w+)\>(?:[ \t]*(?://.*|/\*[^*\n]*\*/))?\s*$'
 include_regex = re.compile(include_pattern)
 std_include_regex = re.compile(std_include_pattern)
 
-- 
2.43.0

