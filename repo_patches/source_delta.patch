From 30eab7ce8b6fb15872264a21257da223e0eaea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 01/17] fix: reject a lone high surrogate followed by plain
 characters

The accelerated scan skipped plain characters while a high surrogate was
pending, so "\uD800abc\uDC00" was accepted and decoded as one code point.
---
 include/parser/parser_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..2106bf9 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -316,7 +316,8 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
 
     while (_cur != _end) {
         if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
-            if (!skip_string_literal_with_accel()) {
+            // a pending high surrogate must be followed by an escape, so nothing may be skipped then
+            if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
         }
-- 
2.43.0


From 9b0573d701c9a2ef226ab5857290a412fe252f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 02/17] fix: reject content that starts with '/' after the
 top-level value

skip_whitespace() also returns false when it stops at a '/', so
[]/garbage and (with comments) [] /* unterminated were accepted.
---
 include/parser/parser_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 2106bf9..52360a1 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -38,7 +38,7 @@ inline std::optional<value> parser<accept_jsonc, parsing_t, accel_traits>::parse
     }
 
     // After the parsing is complete, there should be no more content other than spaces behind
-    if (skip_whitespace()) {
+    if (skip_whitespace() || (_cur != _end && *_cur != '\0')) {
         return std::nullopt;
     }
 
@@ -501,7 +501,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_whitespace() noe
             break;
         case '/':
             if constexpr (accept_jsonc) {
+                const auto comment_beg = _cur;
                 if (!skip_comment()) {
+                    // not a comment, it's content
+                    _cur = comment_beg;
                     return false;
                 }
                 // else continue;
-- 
2.43.0


From e487252051bd840b6530a7c039644686bd5ae499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 03/17] fix: return nullopt for a stream whose size cannot be
 determined

parse(std::istream&) and open() threw std::length_error for a failed or
unseekable stream and for a directory.
---
 include/parser/parser_impl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 52360a1..dabe258 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -614,10 +614,16 @@ inline std::optional<value> parse(const char* content)
 inline std::optional<value> parse(std::istream& istream, bool check_bom, bool with_commets)
 {
     istream.seekg(0, std::ios::end);
-    auto file_size = istream.tellg();
+    const auto file_size = static_cast<std::streamoff>(istream.tellg());
+
+    std::string str;
+    // tellg() is -1 for a stream that is broken or not seekable, and absurdly large for a directory
+    if (file_size < 0 || static_cast<unsigned long long>(file_size) > str.max_size()) {
+        return std::nullopt;
+    }
+    str.resize(static_cast<size_t>(file_size));
 
     istream.seekg(0, std::ios::beg);
-    std::string str(file_size, '\0');
 
     istream.read(str.data(), file_size);
 
-- 
2.43.0


From 1a41ec048278ab667db3d93627b5e0f077139589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 04/17] fix: convert null to an empty std::optional in
 value::as()

static_cast<std::optional<T>>(value) picks the converting constructor of
std::optional, so as<std::optional<T>>() threw on null although
is<std::optional<T>>() is true, and a struct with an empty std::optional
member could not be loaded back.
---
 include/common/utils.hpp      | 6 ++++++
 include/common/value_impl.hpp | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..02e47bd 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <optional>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -86,6 +87,11 @@ constexpr bool is_nullable<
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
+template <typename T>
+constexpr bool is_optional = false;
+template <typename T>
+constexpr bool is_optional<std::optional<T>> = true;
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..3bcd3f8 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -698,6 +698,10 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // a cast would pick the converting constructor of std::optional, which doesn't know null
+        return this->operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -723,6 +727,10 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // a cast would pick the converting constructor of std::optional, which doesn't know null
+        return this->operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 2f39e88a187bd7c6ef5dac8d6dfed846b3aba8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 05/17] fix: don't return a dangling string_view from
 value::get()

With a std::string_view default the two branches were std::string and
std::string_view, so the string found was returned as a view of a
temporary; with several keys it did not compile.
---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 3bcd3f8..2226151 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -442,11 +442,11 @@ inline auto value::get_helper(const value_t& default_value, first_key_t&& first,
 {
     if constexpr (std::is_constructible_v<std::string, first_key_t>) {
         return is_object() ? as_object().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                           : default_value;
+                           : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<first_key_t>>) {
         return is_array() ? as_array().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                          : default_value;
+                          : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(first_key_t), "Parameter must be integral or std::string constructible");
@@ -457,10 +457,10 @@ template <typename value_t, typename unique_key_t>
 inline auto value::get_helper(const value_t& default_value, unique_key_t&& first) const
 {
     if constexpr (std::is_constructible_v<std::string, unique_key_t>) {
-        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<unique_key_t>>) {
-        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(unique_key_t), "Parameter must be integral or std::string constructible");
-- 
2.43.0


From 25da69c7ac57627aa541d2b2b62c292921d16a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 06/17] fix: leave a moved-from value as null

A moved-from array or object kept its type with a null pointer, so empty(),
copying, dumping or comparing it crashed; a moved-from number was dumped as
empty text.
---
 include/common/value_impl.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 2226151..dc0133a 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -83,7 +83,13 @@ inline value::value(const value& rhs)
 {
 }
 
-inline value::value(value&& rhs) noexcept = default;
+inline value::value(value&& rhs) noexcept
+    : _type(rhs._type)
+    , _raw_data(std::move(rhs._raw_data))
+{
+    rhs._type = value_type::null;
+    rhs._raw_data = var_t();
+}
 
 inline value::value(bool b)
     : _type(value_type::boolean)
@@ -859,7 +865,23 @@ inline value& value::operator=(const value& rhs)
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
+inline value& value::operator=(value&& rhs) noexcept
+{
+    if (this == &rhs) {
+        return *this;
+    }
+
+    // rhs may be a part of *this
+    const value_type rhs_type = rhs._type;
+    var_t rhs_data = std::move(rhs._raw_data);
+    rhs._type = value_type::null;
+    rhs._raw_data = var_t();
+
+    _type = rhs_type;
+    _raw_data = std::move(rhs_data);
+
+    return *this;
+}
 
 inline bool value::operator==(const value& rhs) const
 {
-- 
2.43.0


From 58f6997391c01e3bfeb79637b3a72b534c0a84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 07/17] fix: keep the type and the data of a value consistent
 if an allocation fails

The type was changed before the allocation, and stayed changed when that
threw.
---
 include/common/value_impl.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index dc0133a..3da539d 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -646,8 +646,8 @@ inline const object& value::as_object() const
 inline array& value::as_array()
 {
     if (empty()) {
-        _type = value_type::array;
         _raw_data = std::make_unique<array>();
+        _type = value_type::array;
     }
 
     if (is_array()) {
@@ -660,8 +660,8 @@ inline array& value::as_array()
 inline object& value::as_object()
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     if (is_object()) {
@@ -859,8 +859,11 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
-    _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
+    var_t rhs_data = deep_copy(rhs._raw_data);
+    const value_type rhs_type = rhs._type;
+
+    _raw_data = std::move(rhs_data);
+    _type = rhs_type;
 
     return *this;
 }
@@ -1017,8 +1020,8 @@ inline value& value::operator[](size_t pos)
 inline value& value::operator[](const std::string& key)
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[key];
@@ -1027,8 +1030,8 @@ inline value& value::operator[](const std::string& key)
 inline value& value::operator[](std::string&& key)
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[std::move(key)];
-- 
2.43.0


From 975f690b22bb27a2f9182f9a9178b9bc0b6c7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 08/17] fix: don't name an enum value that is out of the range
 of int

The value was cast to int before it was compared to the range, so that e.g.
0x100000001 of a 64-bit enum was given the name of 1.
---
 include/common/enum_reflection.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..5f5fd0c 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -188,7 +188,20 @@ constexpr std::string_view enum_to_string(E val)
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
+    const auto num = static_cast<std::underlying_type_t<E>>(val);
+    if constexpr (std::is_signed_v<std::underlying_type_t<E>>) {
+        if (num < min || num > max) {
+            return {};
+        }
+    }
+    else {
+        // num may be larger than any signed number
+        if ((min > 0 && num < static_cast<unsigned long long>(min)) || max < 0 || num > static_cast<unsigned long long>(max)) {
+            return {};
+        }
+    }
+
+    const int idx = static_cast<int>(num) - min;
     if (idx >= 0 && idx < range) {
         return names[idx];
     }
-- 
2.43.0


From 6950529a5ea4cc602ef4a2c470252a2545cbf396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 09/17] fix: don't use packed bytes on containers that are not
 contiguous

parse(std::deque<char>) loaded several bytes at once from the address of
one, and read out of bounds.
---
 include/common/utils.hpp       | 6 ++++++
 include/parser/parser_impl.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 02e47bd..e14abc1 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -5,6 +5,7 @@
 #include <charconv>
 #include <cstddef>
 #include <iomanip>
+#include <iterator>
 #include <limits>
 #include <optional>
 #include <sstream>
@@ -54,6 +55,11 @@ template <typename T>
 constexpr bool is_container<T, std::void_t<typename T::value_type, range_value_t<T>>> =
     std::is_same_v<typename T::value_type, range_value_t<T>> && !is_string<T>;
 
+template <typename T, typename = void>
+constexpr bool is_contiguous = false;
+template <typename T>
+constexpr bool is_contiguous<T, std::void_t<decltype(std::data(std::declval<const T&>()))>> = true;
+
 template <typename T, typename = void>
 constexpr bool is_map = false;
 template <typename T>
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index dabe258..63723f3 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -315,7 +315,7 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
-        if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
+        if constexpr (sizeof(*_cur) == 1 && accel_traits::available && _utils::is_contiguous<parsing_t>) {
             // a pending high surrogate must be followed by an escape, so nothing may be skipped then
             if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
-- 
2.43.0


From ae760aa50c2b6e81f6c16d7f4ff5ca4d50f0d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 10/17] fix: don't let the locale change how floating point
 numbers are read and written

std::to_string(), a default std::ostringstream and std::stod() use the
decimal point of the locale, so a program that calls setlocale() wrote
invalid JSON and could not convert numbers. std::stod() also rejects
subnormal numbers.
---
 include/common/utils.hpp      | 14 ++++++---
 include/common/value_impl.hpp | 57 +++++++++++++++--------------------
 2 files changed, 34 insertions(+), 37 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index e14abc1..c24fcd7 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -7,6 +7,7 @@
 #include <iomanip>
 #include <iterator>
 #include <limits>
+#include <locale>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -488,16 +489,19 @@ inline std::string_view null_string()
 template <typename any_t>
 inline std::string to_basic_string(any_t&& arg)
 {
-#ifdef MEOJSON_KEEP_FLOATING_PRECISION
-    using real_type = std::remove_reference_t<any_t>;
+    using real_type = std::remove_cv_t<std::remove_reference_t<any_t>>;
     if constexpr (std::is_floating_point_v<real_type>) {
+        // the decimal point must not depend on the locale
         std::ostringstream oss;
+        oss.imbue(std::locale::classic());
+#ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
+#else
+        oss << std::fixed << std::setprecision(6) << arg;
+#endif
         return oss.str();
     }
-    else
-#endif
-    {
+    else {
         return std::to_string(std::forward<any_t>(arg));
     }
 }
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 3da539d..873b53e 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -28,26 +28,33 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
 {
+    static_assert(std::is_floating_point_v<value_t>, "value_t must be floating point");
+#if defined(__cpp_lib_to_chars) && __cpp_lib_to_chars >= 201611L
+    const char* first = str.data();
+    const char* last = str.data() + str.size();
+    const auto [ptr, ec] = std::from_chars(first, last, result);
+    return ec == std::errc {} && ptr == last;
+#else
     try {
-        size_t pos = 0;
-        value_t result {};
-        if constexpr (std::is_same_v<value_t, float>) {
-            result = std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            result = std::stod(str, &pos);
-        }
-        else {
-            result = std::stold(str, &pos);
-        }
-
-        if (pos == str.size()) {
-            return result;
-        }
+        std::istringstream iss(str);
+        iss.imbue(std::locale::classic());
+        iss >> std::noskipws >> result;
+        return !iss.fail() && iss.peek() == std::istringstream::traits_type::eof();
     }
     catch (const std::exception&) {
+        return false;
+    }
+#endif
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
@@ -56,22 +63,8 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 template <typename value_t>
 inline bool can_parse_floating(const std::string& str) noexcept
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t result {};
+    return try_parse_floating(str, result);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0


From 0368f346b4ca3123109471a8e3b4bff7b3700bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 11/17] fix: reject a high surrogate that is followed by
 another escape than a low one

---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 63723f3..165903f 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -438,6 +438,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        // a high surrogate must be followed by a low one
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From e71f602cdfd9916a7ec5cea84a97c267dfa5fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 12/17] fix: don't take a string_view from a const rvalue value

---
 include/common/value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..5cc3ad5 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -471,7 +471,7 @@ public:
     explicit operator std::string() const;
 
     explicit operator std::string_view() const&;
-    explicit operator std::string_view() && = delete;
+    explicit operator std::string_view() const&& = delete;
 
     explicit operator array() const;
 
-- 
2.43.0


From 0f8d661c091afe1d49518c2837940fa172ce3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 13/17] fix: merging a part of an object into that object

---
 include/common/object_impl.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..3291fbb 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -6,18 +6,19 @@ namespace json
 {
 namespace _object_impl_detail
 {
-inline void merge_object(object::raw_object& dst, const object& src)
+inline void merge_object_move(object::raw_object& dst, object& src)
 {
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
+    // src may be a part of a member of dst, which is gone once it is written over
+    object members = std::move(src);
+    for (auto& [key, val] : members) {
+        dst.insert_or_assign(key, std::move(val));
     }
 }
 
-inline void merge_object_move(object::raw_object& dst, object& src)
+inline void merge_object(object::raw_object& dst, const object& src)
 {
-    for (auto& [key, val] : src) {
-        dst.insert_or_assign(key, std::move(val));
-    }
+    object members = src;
+    merge_object_move(dst, members);
 }
 } // namespace _object_impl_detail
 
-- 
2.43.0


From 6726c8a730936fbf583552a3aeb13775c0c7d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 14/17] fix: don't move the content out of an lvalue wrapper or
 a shared_ptr

---
 include/common/utils.hpp | 6 ++++++
 include/common/value.hpp | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index c24fcd7..8d0d486 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -8,6 +8,7 @@
 #include <iterator>
 #include <limits>
 #include <locale>
+#include <memory>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -99,6 +100,11 @@ constexpr bool is_optional = false;
 template <typename T>
 constexpr bool is_optional<std::optional<T>> = true;
 
+template <typename T>
+constexpr bool is_shared_ptr = false;
+template <typename T>
+constexpr bool is_shared_ptr<std::shared_ptr<T>> = true;
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value.hpp b/include/common/value.hpp
index 5cc3ad5..9e74918 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -139,7 +139,9 @@ public:
     template <
         typename wrapper_t,
         std::enable_if_t<
-            _utils::is_nullable<std::decay_t<wrapper_t>> && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
+            // only from an expiring wrapper which owns its content alone, otherwise the content has to be copied
+            std::is_rvalue_reference_v<wrapper_t&&> && !_utils::is_shared_ptr<std::decay_t<wrapper_t>>
+                && _utils::is_nullable<std::decay_t<wrapper_t>> && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-- 
2.43.0


From 492d0f92eab2dc8a200859cb3dcc817ba92abae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 15/17] fix: read a one-element tuple out of its array with
 as<>()

---
 include/common/value_impl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 873b53e..761c584 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -697,8 +697,9 @@ inline value_t value::as() const&
         }
         return dst;
     }
-    else if constexpr (_utils::is_optional<value_t>) {
-        // a cast would pick the converting constructor of std::optional, which doesn't know null
+    else if constexpr (_utils::is_optional<value_t> || _utils::is_tuple<value_t>) {
+        // a cast would pick the converting constructor of std::optional, which doesn't know null,
+        // and the one of std::tuple<T>, which takes the whole array for the element
         return this->operator value_t();
     }
     else {
@@ -726,8 +727,9 @@ inline value_t value::as() &&
         }
         return dst;
     }
-    else if constexpr (_utils::is_optional<value_t>) {
-        // a cast would pick the converting constructor of std::optional, which doesn't know null
+    else if constexpr (_utils::is_optional<value_t> || _utils::is_tuple<value_t>) {
+        // a cast would pick the converting constructor of std::optional, which doesn't know null,
+        // and the one of std::tuple<T>, which takes the whole array for the element
         return this->operator value_t();
     }
     else {
-- 
2.43.0


From 82c41ea11baee797efb46eaf4c485c42783109b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 16/17] fix: give no value when the stream broke while it was
 read

---
 include/parser/parser_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 165903f..fd8e589 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -630,6 +630,9 @@ inline std::optional<value> parse(std::istream& istream, bool check_bom, bool wi
     istream.seekg(0, std::ios::beg);
 
     istream.read(str.data(), file_size);
+    if (istream.bad()) {
+        return std::nullopt;
+    }
 
     if (check_bom) {
         using uchar = unsigned char;
-- 
2.43.0


From 2d2754727ed9e51aad91e076579a7a95c90f9915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 17/17] fix: assigning a part of an array or object to itself

---
 include/common/array_impl.hpp  | 17 +++++++++++++++--
 include/common/object_impl.hpp | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..e28328c 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,21 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+
+inline array& array::operator=(const array& rhs)
+{
+    // rhs may be a part of *this, which is gone once the data is written over
+    raw_array data = rhs._array_data;
+    _array_data = std::move(data);
+    return *this;
+}
+
+inline array& array::operator=(array&& rhs) noexcept
+{
+    raw_array data = std::move(rhs._array_data);
+    _array_data = std::move(data);
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index 3291fbb..3dac084 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -26,8 +26,21 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+
+inline object& object::operator=(const object& rhs)
+{
+    // rhs may be a part of *this, which is gone once the data is written over
+    raw_object data = rhs._object_data;
+    _object_data = std::move(data);
+    return *this;
+}
+
+inline object& object::operator=(object&& rhs) noexcept
+{
+    raw_object data = std::move(rhs._object_data);
+    _object_data = std::move(data);
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
-- 
2.43.0

