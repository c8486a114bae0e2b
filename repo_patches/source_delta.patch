From 618780de3ed3358254a516f58b0085a2e9f4bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:33 +0000
Subject: [PATCH 01/47] fix: left/right aligned to_chars() wrote past the
 buffer when the padded width does not fit

---
 src/c4/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..7fb03fa 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -545,7 +545,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
     to_chars(buf, align.val);
@@ -557,7 +557,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
     buf.first(rem).fill(align.pad);
-- 
2.43.0


From 3dda4438791b3bf60accac356af8db98b27ec756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 02/47] fix: itoa() with radix wrote the sign into a buffer too
 small for the number

---
 src/c4/charconv.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..382a75b 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1010,18 +1010,18 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
 {
     using digits_type = detail::charconv_digits<I>;
     size_t pos = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_dec))
             return digits_type::maxdigits_dec;
+        buf.str[pos++] = '-';
         pos =_itoa2buf(buf, pos, digits_type::min_value_dec());
         break;
     case I(16):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_hex))
             return digits_type::maxdigits_hex;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'x';
         pos = _itoa2buf(buf, pos, digits_type::min_value_hex());
@@ -1029,6 +1029,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
     case I( 2):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_bin))
             return digits_type::maxdigits_bin;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'b';
         pos = _itoa2buf(buf, pos, digits_type::min_value_bin());
@@ -1036,6 +1037,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
     case I( 8):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_oct))
             return digits_type::maxdigits_oct;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'o';
         pos = _itoa2buf(buf, pos, digits_type::min_value_oct());
@@ -1049,8 +1051,6 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
     using digits_type = detail::charconv_digits<I>;
     size_t pos = 0;
     size_t needed_digits = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
@@ -1058,6 +1058,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+1 > digits_type::maxdigits_dec ? num_digits+1 : digits_type::maxdigits_dec;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_dec());
         break;
     case I(16):
@@ -1065,6 +1066,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_hex ? num_digits+3 : digits_type::maxdigits_hex;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'x';
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_hex());
@@ -1074,6 +1076,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_bin ? num_digits+3 : digits_type::maxdigits_bin;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         C4_ASSERT(buf.len >= digits_type::maxdigits_bin);
         buf.str[pos++] = '0';
         buf.str[pos++] = 'b';
@@ -1084,6 +1087,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_oct ? num_digits+3 : digits_type::maxdigits_oct;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         C4_ASSERT(buf.len >= digits_type::maxdigits_oct);
         buf.str[pos++] = '0';
         buf.str[pos++] = 'o';
@@ -1154,8 +1158,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned digits = 0;
@@ -1164,12 +1166,18 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         case T(10):
             digits = digits_dec(v);
             if(C4_LIKELY(buf.len >= pos + digits))
+            {
+                if(pos)
+                    buf.str[0] = '-';
                 write_dec_unchecked(buf.sub(pos), v, digits);
+            }
             break;
         case T(16):
             digits = digits_hex(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'x';
                 write_hex_unchecked(buf.sub(pos + 2), v, digits);
@@ -1180,6 +1188,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits = digits_bin(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'b';
                 write_bin_unchecked(buf.sub(pos + 2), v, digits);
@@ -1190,6 +1200,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits = digits_oct(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'o';
                 write_oct_unchecked(buf.sub(pos + 2), v, digits);
@@ -1231,8 +1243,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned total_digits = 0;
@@ -1242,13 +1252,19 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = digits_dec(v);
             total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
+            {
+                if(pos)
+                    buf.str[0] = '-';
                 write_dec(buf.sub(pos), v, num_digits);
+            }
             break;
         case T(16):
             total_digits = digits_hex(v);
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'x';
                 write_hex(buf.sub(pos + 2), v, num_digits);
@@ -1259,6 +1275,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'b';
                 write_bin(buf.sub(pos + 2), v, num_digits);
@@ -1269,6 +1287,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'o';
                 write_oct(buf.sub(pos + 2), v, num_digits);
-- 
2.43.0


From 6eccec451d8522015f57159076e83748cbe8acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:52 +0000
Subject: [PATCH 03/47] fix: overflows<signed>("-") read past the end of the
 string

---
 src/c4/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 382a75b..953bb80 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1741,6 +1741,8 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
+        if(C4_UNLIKELY(str.len == 1))
+            return false;
         if(str.str[1] == '0')
         {
             if(str.len == 2)
-- 
2.43.0


From 2ba7f7b7a288e623a1b90a4f465c026192e36364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:07 +0000
Subject: [PATCH 04/47] fix: ftoa()/dtoa() in hexadecimal format passed an
 invalid range when the buffer has less than two characters

---
 src/c4/charconv.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 953bb80..8b16b3d 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1951,8 +1951,12 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
         {
             buf.str[0] = '0';
             buf.str[1] = 'x';
+            pos += size_t(2);
+        }
+        else
+        {
+            pos = buf.len; // no room: do not go past the end of the buffer
         }
-        pos += size_t(2);
     }
     if(precision == -1)
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting);
-- 
2.43.0


From 85e999a73c67920d4ec7f8910051970d5337d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:05 +0000
Subject: [PATCH 05/47] fix: reading hexadecimal reals gave wrong values
 (letter digits, exponent base, uninitialized accumulator)

---
 src/c4/charconv.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 8b16b3d..9c0d6cf 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1996,6 +1996,7 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
     C4_ASSERT(!s.begins_with("0x"));
     C4_ASSERT(!s.begins_with("0X"));
     size_t pos = 0;
+    *val = T(0);
     // integer part
     for( ; pos < s.len; ++pos)
     {
@@ -2003,9 +2004,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         if(c >= '0' && c <= '9')
             *val = *val * T(16) + T(c - '0');
         else if(c >= 'a' && c <= 'f')
-            *val = *val * T(16) + T(c - 'a');
+            *val = *val * T(16) + T(10 + (c - 'a'));
         else if(c >= 'A' && c <= 'F')
-            *val = *val * T(16) + T(c - 'A');
+            *val = *val * T(16) + T(10 + (c - 'A'));
         else if(c == '.')
         {
             ++pos;
@@ -2030,9 +2031,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             if(c >= '0' && c <= '9')
                 *val += digit * T(c - '0');
             else if(c >= 'a' && c <= 'f')
-                *val += digit * T(c - 'a');
+                *val += digit * T(10 + (c - 'a'));
             else if(c >= 'A' && c <= 'F')
-                *val += digit * T(c - 'A');
+                *val += digit * T(10 + (c - 'A'));
             else if(c == 'p' || c == 'P')
             {
                 ++pos;
@@ -2055,7 +2056,7 @@ power:
             int16_t powval = {};
             if(C4_LIKELY(atoi(s.sub(pos), &powval)))
             {
-                *val *= ipow<T, int16_t, 16>(powval);
+                *val *= ipow<T, int16_t, 2>(powval);
                 return true;
             }
         }
-- 
2.43.0


From 72edc491b6cc0b22ccba2eca8b175a10342ae7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:04 +0000
Subject: [PATCH 06/47] fix: substr::count() with an empty pattern never
 returned

---
 src/c4/substr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..77f6b5f 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -583,7 +583,9 @@ public:
         while(pos != npos)
         {
             ++num;
-            pos = find(c, pos + c.len);
+            // an empty pattern matches at every position: always advance
+            pos += c.len ? c.len : 1;
+            pos = pos <= len ? find(c, pos) : npos;
         }
         return num;
     }
-- 
2.43.0


From 89a66491d2927b469141dde469a5f646fc55cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:29 +0000
Subject: [PATCH 07/47] fix: comparing a substr with a char truncated the
 length to int

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 77f6b5f..60d8ceb 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -229,7 +229,7 @@ public:
     {
         C4_XASSERT((str != nullptr) || len == 0);
         if(C4_LIKELY(str != nullptr && len > 0))
-            return (*str != c) ? *str - c : (static_cast<int>(len) - 1);
+            return (*str != c) ? *str - c : static_cast<int>(len > 1); // do not cast len: it may not fit
         else
             return -1;
     }
-- 
2.43.0


From b89488a6042f13fd17172a556ce3c76c8ef77972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:09 +0000
Subject: [PATCH 08/47] fix: substr::replace_all() with pos=npos copied out of
 bounds

---
 src/c4/substr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 60d8ceb..1a47ac3 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2146,6 +2146,8 @@ public:
                 sz += num;                                              \
             }
         size_t sz = 0;
+        if(pos == npos)
+            pos = len; // start at the end: there is nothing to replace
         size_t b = pos;
         _c4append(str, str + pos);
         do {
-- 
2.43.0


From 4e2047d5caeb46259e4fee06c66664d6c6de779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:39 +0000
Subject: [PATCH 09/47] fix: substr::toupper()/tolower() passed negative chars
 to the ctype functions

---
 src/c4/substr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 1a47ac3..de50858 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -1981,7 +1981,7 @@ public:
     {
         for(size_t i = 0; i < len; ++i)
         {
-            str[i] = static_cast<C>(::toupper(str[i]));
+            str[i] = static_cast<C>(::toupper(static_cast<unsigned char>(str[i])));
         }
     }
 
@@ -1991,7 +1991,7 @@ public:
     {
         for(size_t i = 0; i < len; ++i)
         {
-            str[i] = static_cast<C>(::tolower(str[i]));
+            str[i] = static_cast<C>(::tolower(static_cast<unsigned char>(str[i])));
         }
     }
 
-- 
2.43.0


From c54f5c83e518f7637924488272da2ada96c15cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:57 +0000
Subject: [PATCH 10/47] fix: isspace(char) passed negative chars to
 std::isspace()

---
 src/c4/char_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/char_traits.hpp b/src/c4/char_traits.hpp
index b080659..4940bf6 100644
--- a/src/c4/char_traits.hpp
+++ b/src/c4/char_traits.hpp
@@ -9,7 +9,7 @@
 
 namespace c4 {
 
-C4_ALWAYS_INLINE bool isspace(char c) { return std::isspace(c) != 0; }
+C4_ALWAYS_INLINE bool isspace(char c) { return std::isspace(static_cast<unsigned char>(c)) != 0; }
 C4_ALWAYS_INLINE bool isspace(wchar_t c) { return std::iswspace(static_cast<wint_t>(c)) != 0; }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 1ab2c80ec916e9a6fac47142c9c2becd66189024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:57 +0000
Subject: [PATCH 11/47] fix: char_traits<wchar_t>::num_whitespace_chars counted
 bytes

---
 src/c4/char_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/char_traits.hpp b/src/c4/char_traits.hpp
index 4940bf6..9ce6c8f 100644
--- a/src/c4/char_traits.hpp
+++ b/src/c4/char_traits.hpp
@@ -27,7 +27,7 @@ template<>
 struct char_traits<wchar_t> : public std::char_traits<wchar_t>
 {
     constexpr static const wchar_t whitespace_chars[] = L" \f\n\r\t\v";
-    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) - 1;
+    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) / sizeof(wchar_t) - 1;
 };
 
 
-- 
2.43.0


From 52b70fcc8f4da131ccbc0fececcb065be1fcba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:34 +0000
Subject: [PATCH 12/47] fix: base64_valid() accepted padding in the middle of
 the text

---
 src/c4/base64.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..0b398ba 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,14 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
+    // padding is valid only at the end, with at most two characters
+    for(size_t i = 0; i < 2; ++i)
+        if(encoded.ends_with('='))
+            encoded = encoded.first(encoded.len - 1);
     for(const char c : encoded)
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From de5c17f96337fbd0478d205c2c990e0473c812f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:16 +0000
Subject: [PATCH 13/47] fix: from_chars_first() of a pointer returned 1 instead
 of the number of characters read, also on failure

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 9c0d6cf..2d8617f 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2429,7 +2429,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
-- 
2.43.0


From 52a2ce1ae55d1e8469e24e792a4368bbae8c6d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:16 +0000
Subject: [PATCH 14/47] fix: from_chars_first() of a bool converted the whole
 buffer instead of its first span

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 2d8617f..b36cc34 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2518,9 +2518,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
-- 
2.43.0


From 671b332b874c7fb55a021cffb91fb8f6f4546ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:16 +0000
Subject: [PATCH 15/47] fix: from_chars_first() of raw data returned 1 instead
 of the number of characters read

---
 src/c4/format.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 7fb03fa..cb620cb 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -478,13 +478,16 @@ inline bool from_chars(csubstr buf, fmt::raw_wrapper r)
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper *r)
 {
-    return from_chars(buf, r);
+    if(!from_chars(buf, r))
+        return csubstr::npos;
+    size_t excess = static_cast<size_t>(reinterpret_cast<uintptr_t>(buf.str) % r->alignment);
+    return (excess ? r->alignment - excess : 0) + r->len;
 }
 /** read a variable in raw binary format, using memcpy
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper r)
 {
-    return from_chars(buf, &r);
+    return from_chars_first(buf, &r);
 }
 
 
-- 
2.43.0


From 32d93fde85bf15676b00da4536ea70645c2c09e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:55 +0000
Subject: [PATCH 16/47] fix: atoi_first()/atou_first() rejected (or asserted
 on) numbers with a leading '+'

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index b36cc34..016a1c2 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1531,7 +1531,7 @@ C4_ALWAYS_INLINE size_t atoi_first(csubstr str, T * C4_RESTRICT v)
     csubstr trimmed = str.first_int_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atoi(trimmed, v))
+    if(atoi(trimmed.sub(trimmed.str[0] == '+'), v)) // atoi() cannot handle a leading '+'
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
@@ -1612,7 +1612,7 @@ C4_ALWAYS_INLINE size_t atou_first(csubstr str, T *v)
     csubstr trimmed = str.first_uint_span();
     if(trimmed.len == 0)
         return csubstr::npos;
-    if(atou(trimmed, v))
+    if(atou(trimmed.sub(trimmed.str[0] == '+'), v)) // atou() cannot handle a leading '+'
         return static_cast<size_t>(trimmed.end() - str.begin());
     return csubstr::npos;
 }
-- 
2.43.0


From f049e598eb9dc1b49870b2ee3438c3db8bc33d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:02 +0000
Subject: [PATCH 17/47] fix: *_dump_resume() lost, repeated or reordered
 arguments when resuming after a failure

---
 src/c4/dump.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index c65623f..fc28939 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -143,6 +143,8 @@ DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump<dumpfn>(buf, a);  // yield to the specialized function
+        if(!sz && !buf.len)
+            sz = 1; // nothing is dumped without a buffer, not even strings
         if(currarg == results.lastok + 1 && sz <= buf.len)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
@@ -157,6 +159,8 @@ DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults resul
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump(dumpfn, buf, a);  // yield to the specialized function
+        if(!sz && !buf.len)
+            sz = 1; // nothing is dumped without a buffer, not even strings
         if(currarg == results.lastok + 1 && sz <= buf.len)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
@@ -168,6 +172,8 @@ template<DumperPfn dumpfn, class Arg, class... Args>
 DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume<dumpfn>(currarg, results, buf, a);
+    if(C4_UNLIKELY(results.write_arg(currarg)))
+        buf = buf.first(0); // ensure no more calls
     return detail::cat_dump_resume<dumpfn>(currarg + 1u, results, buf, more...);
 }
 
@@ -175,6 +181,8 @@ template<class DumperFn, class Arg, class... Args>
 DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume(currarg, dumpfn, results, buf, a);
+    if(C4_UNLIKELY(results.write_arg(currarg)))
+        buf = buf.first(0); // ensure no more calls
     return detail::cat_dump_resume(currarg + 1u, dumpfn, results, buf, more...);
 }
 } // namespace detail
@@ -279,6 +287,8 @@ void catsep_dump_resume_(size_t currarg, DumpResults *C4_RESTRICT results, subst
     if(C4_LIKELY(results->write_arg(currarg)))
     {
         size_t sz = dump<dumpfn>(*buf, a);
+        if(!sz && !buf->len)
+            sz = 1; // nothing is dumped without a buffer, not even strings
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
         if(C4_LIKELY(sz <= buf->len))
             results->lastok = currarg;
@@ -293,6 +303,8 @@ void catsep_dump_resume_(size_t currarg, DumperFn &&dumpfn, DumpResults *C4_REST
     if(C4_LIKELY(results->write_arg(currarg)))
     {
         size_t sz = dump(dumpfn, *buf, a);
+        if(!sz && !buf->len)
+            sz = 1; // nothing is dumped without a buffer, not even strings
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
         if(C4_LIKELY(sz <= buf->len))
             results->lastok = currarg;
@@ -453,7 +465,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -466,7 +478,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -499,10 +511,16 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
             dumpfn(fmt.first(pos));
         }
     }
+    else if(C4_UNLIKELY(pos == csubstr::npos))
+    {
+        return results; // the format was already fully dumped
+    }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump<dumpfn>(buf, a);
+        if(!pos && !buf.len)
+            pos = 1; // nothing is dumped without a buffer, not even strings
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
         if(C4_LIKELY(pos <= buf.len))
             results.lastok = currarg + 1;
@@ -539,10 +557,16 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
             dumpfn(fmt.first(pos));
         }
     }
+    else if(C4_UNLIKELY(pos == csubstr::npos))
+    {
+        return results; // the format was already fully dumped
+    }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
     {
         pos = dump(dumpfn, buf, a);
+        if(!pos && !buf.len)
+            pos = 1; // nothing is dumped without a buffer, not even strings
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
         if(C4_LIKELY(pos <= buf.len))
             results.lastok = currarg + 1;
-- 
2.43.0


From 766088a21a3541e78f8df284bc01e88be85a4666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:50 +0000
Subject: [PATCH 18/47] fix: span::rend() of a non-const span did not compile

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 43bb633..6efdc22 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -83,7 +83,7 @@ public:
     C4_ALWAYS_INLINE const_reverse_iterator  rbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
     C4_ALWAYS_INLINE const_reverse_iterator crbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
 
-    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return const_reverse_iterator(_c4ptr); }
+    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return reverse_iterator(_c4ptr); }
     C4_ALWAYS_INLINE const_reverse_iterator  rend() const noexcept { return const_reverse_iterator(_c4cptr); }
     C4_ALWAYS_INLINE const_reverse_iterator crend() const noexcept { return const_reverse_iterator(_c4cptr); }
 
-- 
2.43.0


From 374db187a348a0c5f3456c52a69ba6559172842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:17 +0000
Subject: [PATCH 19/47] fix: comparing spans of different sizes in C++11 read
 past the end and could report equality

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 6efdc22..76bb01c 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -211,7 +211,7 @@ inline constexpr bool operator==
 #if C4_CPP >= 14
     return std::equal(l.begin(), l.end(), r.begin(), r.end());
 #else
-    return l.same_span(r) || std::equal(l.begin(), l.end(), r.begin());
+    return static_cast<size_t>(l.size()) == static_cast<size_t>(r.size()) && std::equal(l.begin(), l.end(), r.begin());
 #endif
 }
 
-- 
2.43.0


From 507fcc795be60b834605df607b7da66de57674a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 20/47] fix: MemoryResourceLinear::reallocate() lost the
 contents when the block had to be moved

---
 src/c4/memory_resource.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 891c373..f4c2f53 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -254,8 +254,11 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block or it doesn't fit -
-    // delegate any of these situations to do_deallocate()
-    return do_allocate(newsz, alignment, ptr);
+    // delegate any of these situations to do_allocate()
+    void *mem = do_allocate(newsz, alignment, ptr);
+    if(mem && oldsz)
+        ::memcpy(mem, ptr, oldsz);
+    return mem;
 }
 
 
-- 
2.43.0


From 1ccb0bf5a309236b2328f728e5a2b0bd143da916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 21/47] fix: MemoryResourceLinear::reallocate() accepted sizes
 for which the address computation overflows

---
 src/c4/memory_resource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index f4c2f53..2c7f905 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -247,7 +247,7 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block, and it fits in size
-    else if(same_pos && cptr + newsz <= m_mem + m_size)
+    else if(same_pos && newsz - oldsz <= m_size - m_pos)
     {
         // if this is the MRA, we can safely shrink the position
         m_pos += newsz - oldsz;
-- 
2.43.0


From 93a36f4fe8a2340bb4bbe8d4904169b7e46dde4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 22/47] fix: MemoryResourceLinear::allocate() returned memory
 past the end when the error callback returns

---
 src/c4/memory_resource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 2c7f905..2481b63 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -204,6 +204,7 @@ void* MemoryResourceLinear::do_allocate(size_t sz, size_t alignment, void *hint)
     if(m_pos + sz > m_size)
     {
         C4_ERROR("out of memory");
+        return nullptr;
     }
     void *mem = m_mem + m_pos;
     size_t space = m_size - m_pos;
@@ -218,6 +219,7 @@ void* MemoryResourceLinear::do_allocate(size_t sz, size_t alignment, void *hint)
     else
     {
         C4_ERROR("could not align memory");
+        return nullptr;
     }
     return mem;
 }
-- 
2.43.0


From 75b5f03d2dbe933fcc3932748706db19c1dcca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 23/47] fix: acquire() and release() of a linear memory
 resource used the resource itself instead of its source, and leaked

---
 src/c4/memory_resource.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 2481b63..82dd0af 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -166,7 +166,8 @@ void detail::_MemoryResourceSingleChunk::release()
 {
     if(m_mem && m_owner)
     {
-        impl_type::deallocate(m_mem, m_size);
+        // this must not go to the overriden do_deallocate() of the derived resource
+        impl_type::do_deallocate(m_mem, m_size, alignof(max_align_t));
     }
     m_mem = nullptr;
     m_size = 0;
@@ -176,16 +177,17 @@ void detail::_MemoryResourceSingleChunk::release()
 
 void detail::_MemoryResourceSingleChunk::acquire(size_t sz)
 {
-    clear();
+    release();
     m_owner = true;
-    m_mem = (char*) impl_type::allocate(sz, alignof(max_align_t));
+    // this must not go to the overriden do_allocate() of the derived resource
+    m_mem = (char*) impl_type::do_allocate(sz, alignof(max_align_t), nullptr);
     m_size = sz;
     m_pos = 0;
 }
 
 void detail::_MemoryResourceSingleChunk::acquire(void *mem, size_t sz)
 {
-    clear();
+    release();
     m_owner = false;
     m_mem = (char*) mem;
     m_size = sz;
-- 
2.43.0


From 381780beb662776da05cf1412424fb9ab40631e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 24/47] fix: ScopedMemoryResourceCounts did not restore the
 original memory resource when given another one

---
 src/c4/memory_resource.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0818f58..985eece 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -547,19 +547,20 @@ struct ScopedMemoryResource
  * @ingroup memory_resources */
 struct ScopedMemoryResourceCounts
 {
+    MemoryResource *m_original;
     MemoryResourceCounts mr;
 
-    ScopedMemoryResourceCounts() : mr()
+    ScopedMemoryResourceCounts() : m_original(get_memory_resource()), mr()
     {
         set_memory_resource(&mr);
     }
-    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m)
+    ScopedMemoryResourceCounts(MemoryResource *m) : m_original(get_memory_resource()), mr(m)
     {
         set_memory_resource(&mr);
     }
     ~ScopedMemoryResourceCounts()
     {
-        set_memory_resource(mr.resource());
+        set_memory_resource(m_original);
     }
 };
 
-- 
2.43.0


From 987a61f45cb54ffbb683c3656bc041475ecf6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 25/47] fix: arealloc() copied to null and freed the original
 block when the allocation fails

---
 src/c4/memory_resource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 82dd0af..201533c 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -84,6 +84,8 @@ void* arealloc_impl(void* ptr, size_t oldsz, size_t newsz, size_t alignment)
      * @see look for qReallocAligned() in http://code.qt.io/cgit/qt/qtbase.git/tree/src/corelib/global/qmalloc.cpp
      */
     void *tmp = aalloc(newsz, alignment);
+    if(C4_UNLIKELY(tmp == nullptr))
+        return nullptr; // as with realloc(), the original block is left untouched
     size_t min = newsz < oldsz ? newsz : oldsz;
     if(mem_overlaps(ptr, tmp, oldsz, newsz))
     {
-- 
2.43.0


From 2ee8eda17a5f2c8ec5d38c1b3741542351364f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:48 +0000
Subject: [PATCH 26/47] fix: SmallAllocator gave overlapping blocks after an
 out of order deallocation, and ignored the alignment

---
 src/c4/allocator.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index e345966..69310cc 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -272,7 +272,8 @@ class SmallAllocator : public detail::_AllocatorUtil<MemResProvider>
     using impl_type = detail::_AllocatorUtil<MemResProvider>;
 
     alignas(Alignment) char m_arr[N * sizeof(T)];
-    size_t m_num{0};
+    size_t m_num{0};  ///< position of the first unused object in the array
+    size_t m_live{0}; ///< number of blocks in the array which are in use
 
 public:
 
@@ -336,25 +337,31 @@ public:
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
         void *vmem;
-        if(m_num + num_objs <= N)
+        if(num_objs <= N - m_num && alignment <= Alignment && (m_num * sizeof(T)) % alignment == 0)
         {
             vmem = (m_arr + m_num * sizeof(T));
+            m_num += num_objs;
+            ++m_live;
         }
         else
         {
             vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
         }
-        m_num += num_objs;
         T *mem = static_cast<T*>(vmem);
         return mem;
     }
 
     void deallocate(T * ptr, size_t num_objs, size_t alignment=Alignment)
     {
-        C4_ASSERT(m_num >= num_objs);
-        m_num -= num_objs;
-        if((char*)ptr >= m_arr && (char*)ptr < m_arr + (N * sizeof(T)))
+        if((char*)ptr >= m_arr && (char*)ptr <= m_arr + (N * sizeof(T)))
         {
+            // the array can be reused only from the end of the last block in use
+            C4_ASSERT(m_live > 0 && m_num >= num_objs);
+            --m_live;
+            if(m_live == 0)
+                m_num = 0;
+            else if((char*)ptr + num_objs * sizeof(T) == m_arr + m_num * sizeof(T))
+                m_num -= num_objs;
             return;
         }
         C4_ASSERT(this->resource() != nullptr);
-- 
2.43.0


From 189752537156f838aa495b1554b1e634cda3fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:09 +0000
Subject: [PATCH 27/47] fix: SmallAllocator::reallocate() did not compile, and
 returned blocks in use without keeping the contents

---
 src/c4/allocator.hpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index 69310cc..0680312 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -4,6 +4,7 @@
 #include "c4/memory_resource.hpp"
 #include "c4/ctor_dtor.hpp"
 
+#include <string.h> // memcpy
 #include <memory> // std::allocator_traits
 #include <type_traits>
 
@@ -373,21 +374,16 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        if(oldnum <= N && newnum <= N)
+        bool in_arr = (char*)ptr >= m_arr && (char*)ptr <= m_arr + (N * sizeof(T));
+        if(!in_arr && newnum > N)
         {
-            return m_arr;
+            void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
+            return static_cast<T*>(vmem);
         }
-        else if(oldnum <= N && newnum > N)
-        {
-            return allocate(newnum, alignment);
-        }
-        else if(oldnum > N && newnum <= N)
-        {
-            deallocate(ptr, oldnum, alignment);
-            return m_arr;
-        }
-        void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
-        T* mem = static_cast<T*>(vmem);
+        T *mem = allocate(newnum, alignment);
+        if(mem && mem != ptr)
+            ::memcpy((void*)mem, (void const*)ptr, (oldnum < newnum ? oldnum : newnum) * sizeof(T));
+        deallocate(ptr, oldnum, alignment);
         return mem;
     }
 
-- 
2.43.0


From 57099a37754be7a9923f40df637a36bcb920a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 28/47] Revert "fix: arealloc() copied to null and freed the
 original block when the allocation fails"

This reverts commit 987a61f45cb54ffbb683c3656bc041475ecf6b83.
---
 src/c4/memory_resource.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 201533c..82dd0af 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -84,8 +84,6 @@ void* arealloc_impl(void* ptr, size_t oldsz, size_t newsz, size_t alignment)
      * @see look for qReallocAligned() in http://code.qt.io/cgit/qt/qtbase.git/tree/src/corelib/global/qmalloc.cpp
      */
     void *tmp = aalloc(newsz, alignment);
-    if(C4_UNLIKELY(tmp == nullptr))
-        return nullptr; // as with realloc(), the original block is left untouched
     size_t min = newsz < oldsz ? newsz : oldsz;
     if(mem_overlaps(ptr, tmp, oldsz, newsz))
     {
-- 
2.43.0


From 9b14ef4e1b12561bc7cbec6825cdbce2b63c3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 29/47] Revert "fix: MemoryResourceLinear::allocate() returned
 memory past the end when the error callback returns"

This reverts commit 93a36f4fe8a2340bb4bbe8d4904169b7e46dde4b.
---
 src/c4/memory_resource.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 82dd0af..a43f7ea 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -206,7 +206,6 @@ void* MemoryResourceLinear::do_allocate(size_t sz, size_t alignment, void *hint)
     if(m_pos + sz > m_size)
     {
         C4_ERROR("out of memory");
-        return nullptr;
     }
     void *mem = m_mem + m_pos;
     size_t space = m_size - m_pos;
@@ -221,7 +220,6 @@ void* MemoryResourceLinear::do_allocate(size_t sz, size_t alignment, void *hint)
     else
     {
         C4_ERROR("could not align memory");
-        return nullptr;
     }
     return mem;
 }
-- 
2.43.0


From 9df03aaf3be6e2c0043c47fe313a64f3b71e6c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:17 +0000
Subject: [PATCH 30/47] fix: the exception thrown on error had an uninitialized
 message when neither logging nor a callback is enabled

---
 src/c4/error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 32a266d..75a2118 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -78,7 +78,7 @@ void handle_error(srcloc where, const char *fmt, ...)
 {
     char buf[1024];
     size_t msglen = 0;
-    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK))
+    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK|ON_ERROR_THROW))
     {
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From a6b766433629bd524b4cf8b5d3f2d0e063669144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:16 +0000
Subject: [PATCH 31/47] fix: the error callback received 1023 unspecified
 characters when the message could not be formatted

---
 src/c4/error.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 75a2118..2d8cd7c 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -84,7 +84,12 @@ void handle_error(srcloc where, const char *fmt, ...)
         va_start(args, fmt);
         int ilen = vsnprintf(buf, sizeof(buf), fmt, args); // ss.vprintf(fmt, args);
         va_end(args);
-        msglen = ilen >= 0 && ilen < (int)sizeof(buf) ? static_cast<size_t>(ilen) : sizeof(buf)-1;
+        if(ilen < 0) // there was an encoding error, and the contents of buf are unspecified
+        {
+            buf[0] = '\0';
+            ilen = 0;
+        }
+        msglen = ilen < (int)sizeof(buf) ? static_cast<size_t>(ilen) : sizeof(buf)-1;
     }
 
     if(s_error_flags & ON_ERROR_LOG)
-- 
2.43.0


From 5b3b5dd8f7d6b0994aaa2f4703b60c834eb5420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:16 +0000
Subject: [PATCH 32/47] fix: is_debugger_attached() searched an unterminated
 buffer when the status file is larger than the buffer

---
 src/c4/error.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 2d8cd7c..0872772 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -172,15 +172,12 @@ bool is_debugger_attached()
         }
         else
         {
-            ssize_t num_read = ::read(status_fd, buf, sizeof(buf));
+            ssize_t num_read = ::read(status_fd, buf, sizeof(buf) - 1);
             if (num_read > 0)
             {
                 static const char TracerPid[] = "TracerPid:";
                 char *tracer_pid;
-                if(num_read < 1024)
-                {
-                    buf[num_read] = 0;
-                }
+                buf[num_read] = 0;
                 tracer_pid = strstr(buf, TracerPid);
                 if (tracer_pid)
                 {
-- 
2.43.0


From a78aa6385f8521868ccf1840cfefd9f9c64d8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:16 +0000
Subject: [PATCH 33/47] fix: C4_CHECK_MSG() and C4_ASSERT_MSG() used the text
 of the condition as a printf format

---
 src/c4/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.hpp b/src/c4/error.hpp
index 95d7c0d..6e52e23 100644
--- a/src/c4/error.hpp
+++ b/src/c4/error.hpp
@@ -338,7 +338,7 @@ struct srcloc
     do {                                                                \
         if(C4_UNLIKELY(!(cond)))                                        \
         {                                                               \
-            C4_ERROR("check failed: " #cond "\n" fmt, ## __VA_ARGS__);  \
+            C4_ERROR("check failed: %s\n" fmt, #cond, ## __VA_ARGS__);  \
         }                                                               \
     } while(0)
 
-- 
2.43.0


From dce22d54668f616d76b17db3e50a498b357e2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:23 +0000
Subject: [PATCH 34/47] fix: hexadecimal text of negative reals had the sign
 after the prefix (0x-1.8p+0) and could not be read back

---
 src/c4/charconv.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 016a1c2..7583d6c 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -99,6 +99,9 @@
 #if !C4CORE_HAVE_STD_FROMCHARS
 #include <cstdio>
 #endif
+#if C4CORE_HAVE_STD_TOCHARS
+#include <cmath> // std::signbit
+#endif
 
 
 #if defined(_MSC_VER)
@@ -1947,11 +1950,17 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
     size_t pos = 0;
     if(formatting == FTOA_HEXA)
     {
-        if(buf.len > size_t(2))
+        // the prefix goes after the sign
+        const bool isneg = std::signbit(v);
+        if(buf.len > size_t(2) + isneg)
         {
-            buf.str[0] = '0';
-            buf.str[1] = 'x';
-            pos += size_t(2);
+            if(isneg)
+            {
+                buf.str[pos++] = '-';
+                v = -v;
+            }
+            buf.str[pos++] = '0';
+            buf.str[pos++] = 'x';
         }
         else
         {
-- 
2.43.0


From a535173440fb109dcdeeecd8e57e896afc220bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:07 +0000
Subject: [PATCH 35/47] fix: reading a malformed hexadecimal real (0x, 0x.,
 0x-1) succeeded or failed an assertion instead of returning false

---
 src/c4/charconv.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 7583d6c..8fc8c2f 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1999,11 +1999,9 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
-    C4_ASSERT(s.len > 0);
-    C4_ASSERT(s.str[0] != '-');
-    C4_ASSERT(s.str[0] != '+');
-    C4_ASSERT(!s.begins_with("0x"));
-    C4_ASSERT(!s.begins_with("0X"));
+    // there must be at least one digit
+    if(C4_UNLIKELY(s.first_of("0123456789abcdefABCDEF") > size_t(s.begins_with('.'))))
+        return false;
     size_t pos = 0;
     *val = T(0);
     // integer part
-- 
2.43.0


From a344b45569d80c87227d4234cb0cfe4cbd66b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:37 +0000
Subject: [PATCH 36/47] fix: ipow() returned 1 for the most negative exponent

---
 src/c4/memory_util.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 29341cf..5ff39d9 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -485,8 +485,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(B base, E exponent) noexcept -> typename std::
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= base;
     }
     return r;
@@ -506,8 +505,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= base;
     }
     return r;
@@ -528,8 +526,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = 0; e > exponent; --e)
             r /= bbase;
     }
     return r;
-- 
2.43.0


From 06fb4a67f537f620cd04e3b3100cc3bf3bb85b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 37/47] fix: make_room() and destroy_room() moved non-trivial
 objects onto themselves when there is no room to make

---
 src/c4/ctor_dtor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index da832ba..2d31bfc 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -318,7 +318,11 @@ template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_t
 make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
 {
     C4_ASSERT(bufsz >= 0 && room >= 0);
-    if(room >= bufsz)
+    if(room == 0)
+    {
+        return; // do not construct the objects from themselves
+    }
+    else if(room >= bufsz)
     {
         for(I i = 0; i < bufsz; ++i)
         {
@@ -412,7 +416,11 @@ destroy_room(U *buf, I n, I room)
 {
     C4_ASSERT(n >= 0 && room >= 0);
     C4_ASSERT(room <= n);
-    if(room < n)
+    if(room == 0)
+    {
+        return; // do not move the objects to themselves
+    }
+    else if(room < n)
     {
         for(I i = 0, e = n - room; i < e; ++i)
         {
-- 
2.43.0


From 17cc809696c73e40fb60ea7d764429e978b4c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 38/47] fix: assigning a blob to a cblob had no return
 statement

---
 src/c4/blob.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/blob.hpp b/src/c4/blob.hpp
index 76a1d9e..542e8f9 100644
--- a/src/c4/blob.hpp
+++ b/src/c4/blob.hpp
@@ -39,8 +39,8 @@ public:
 
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U> const& that) noexcept : buf(that.buf), len(that.len) {}
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U>     && that) noexcept : buf(that.buf), len(that.len) {}
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; }
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; return *this; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; return *this; }
 
     C4_ALWAYS_INLINE blob_(void       *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
     C4_ALWAYS_INLINE blob_(void const *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
-- 
2.43.0


From edbd9a2377bdcb22f0b6ae1c869bcc62fbcd8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:16 +0000
Subject: [PATCH 39/47] fix: an enum symbol was found by any prefix of its
 name, so that the first symbol starting with the text given was returned
 instead of the one with that name

---
 src/c4/enum.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/c4/enum.hpp b/src/c4/enum.hpp
index ae12f51..25de404 100644
--- a/src/c4/enum.hpp
+++ b/src/c4/enum.hpp
@@ -240,19 +240,15 @@ bool EnumSymbols<Enum>::Sym::cmp(const char *s) const
 template<class Enum>
 bool EnumSymbols<Enum>::Sym::cmp(const char *s, size_t len) const
 {
-    if(strncmp(name, s, len) == 0)
+    const size_t nlen = strlen(name);
+    if(len >= nlen && strncmp(name, s, len) == 0)
         return true;
 
-    size_t nlen = 0;
     for(int i = 1; i <_EOFFS_LAST; ++i)
     {
         auto o = eoffs<Enum>((EnumOffsetType)i);
         if(o > 0)
         {
-            if(!nlen)
-            {
-                nlen = strlen(name);
-            }
             C4_ASSERT(o < nlen);
             size_t rem = nlen - o;
             auto m = len > rem ? len : rem;
-- 
2.43.0


From ad6d1f94614ae59ee0b58d3f888d3e26e65a45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:16 +0000
Subject: [PATCH 40/47] fix: str2bm() refused hexadecimal digits, names with
 digits and spaces before the separator, and ignored text after a number

---
 src/c4/bitmask.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index a4190d5..1e30666 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -235,6 +235,8 @@ typename std::underlying_type<Enum>::type str2bm_read_one(const char *str, size_
 {
     using I = typename std::underlying_type<Enum>::type;
     auto pairs = esyms<Enum>();
+    while(sz > 0 && str[sz-1] == ' ')
+        --sz; // spaces are accepted before the separator
     if(alnum)
     {
         auto *p = pairs.find(str, sz);
@@ -243,7 +245,7 @@ typename std::underlying_type<Enum>::type str2bm_read_one(const char *str, size_
     }
     I tmp{0};
     size_t len = uncat(csubstr(str, sz), tmp);
-    C4_CHECK_MSG(len != csubstr::npos, "could not read string as an integral type: '%.*s'", (int)sz, str);
+    C4_CHECK_MSG(len == sz, "could not read string as an integral type: '%.*s'", (int)sz, str);
     return tmp;
 }
 
@@ -269,7 +271,8 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         const char c = *pc;
         if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')
         {
-            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))); // accept hexadecimal numbers
+            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X')) // accept hexadecimal numbers
+                     || ((pc - f) > 1 && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))));
             if( ! started)
             {
                 f = pc;
@@ -278,8 +281,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c >= '0' && c <= '9')
         {
-            C4_CHECK( ! alnum);
-            if(!started)
+            if(!started) // note that names can have digits
             {
                 f = pc;
                 num = started = true;
-- 
2.43.0


From 35950f87630493e8fad5775ab5ec2ec9139fe984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:16 +0000
Subject: [PATCH 41/47] fix: str2bm() read from a null pointer when the text
 starts with the separator

---
 src/c4/bitmask.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index 1e30666..0af7135 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -293,7 +293,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c == '|' || c == '\0')
         {
-            C4_ASSERT(num != alnum);
+            C4_CHECK(num != alnum); // there must be something to read
             C4_ASSERT(pc >= f);
             val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
             started = num = alnum = false;
@@ -310,7 +310,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
 
     if(f)
     {
-        C4_ASSERT(num != alnum);
+        C4_CHECK(num != alnum); // there must be something to read
         C4_ASSERT(pc >= f);
         val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
     }
-- 
2.43.0


From 50fef87973157dc945a1033451844f435104608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:18 +0000
Subject: [PATCH 42/47] fix: the default constructor of tight_pair left the
 second member unset when both types are the same

---
 src/c4/memory_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 5ff39d9..8a3f2ac 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -720,7 +720,7 @@ struct tight_pair<First, Second, tpc_same> : public First
     using first_type = First;
     using second_type = Second;
 
-    tight_pair() : First() {}
+    tight_pair() : First(), m_second() {}
     tight_pair(First const& f, Second const& s) : First(f), m_second(s) {}
 
     C4_ALWAYS_INLINE C4_CONSTEXPR14 First      & first ()       { return static_cast<First      &>(*this); }
-- 
2.43.0


From a4849f57203428b52c2634568e3e95ae1cf0bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:02 +0000
Subject: [PATCH 43/47] fix: assertions of offs(), left_of() and right_of() let
 through positions which give a view outside the string

---
 src/c4/substr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index de50858..80d18ed 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -368,7 +368,7 @@ public:
     {
         C4_ASSERT(left  >= 0 && left  <= len);
         C4_ASSERT(right >= 0 && right <= len);
-        C4_ASSERT(left  <= len - right + 1);
+        C4_ASSERT(left  <= len - right);
         return basic_substring(str + left, len - right - left);
     }
 
@@ -384,7 +384,7 @@ public:
     /** return [0, pos+include_pos[ . Same as .first(pos+1), but provided for compatibility with .right_of() */
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos == npos || pos + include_pos <= len);
         return (pos != npos) ?
             basic_substring(str, pos+include_pos) :
             *this;
@@ -393,7 +393,7 @@ public:
     /** return [pos+1, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos < len || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
@@ -402,7 +402,7 @@ public:
     /** return [pos+!include_pos, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos == npos || pos + !include_pos <= len);
         return (pos != npos) ?
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
-- 
2.43.0


From 8002ab08a70d9ed70f3f9a1cf4cc00cad877c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:40 +0000
Subject: [PATCH 44/47] fix: the assertion of span::subspan() let through a
 count which wraps around

---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 76bb01c..e88d830 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -99,7 +99,7 @@ public:
     C4_ALWAYS_INLINE SpanImpl subspan(I first, I num) const C4_NOEXCEPT_X
     {
         C4_XASSERT((first >= 0 && first < _c4csz) || (first == _c4csz && num == 0));
-        C4_XASSERT((first + num >= 0) && (first + num <= _c4csz));
+        C4_XASSERT((num >= 0) && (num <= _c4csz - first));
         return _c4cthis->_select(_c4cptr + first, num);
     }
     C4_ALWAYS_INLINE SpanImpl subspan(I first) const C4_NOEXCEPT_X ///< goes up until the end of the span
-- 
2.43.0


From 04e51173627eb308b9d61e8bb8b337190b35cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:27 +0000
Subject: [PATCH 45/47] fix: erase() accepted a position and count whose sum
 wraps around

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 80d18ed..0e4d5c6 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2061,7 +2061,7 @@ public:
      * @note this method requires that the string memory is writeable and is SFINAEd out for const C */
     C4_REQUIRE_RW(basic_substring) erase(size_t pos, size_t num)
     {
-        C4_ASSERT(pos >= 0 && pos+num <= len);
+        C4_ASSERT(pos <= len && num <= len - pos); // pos+num could wrap around
         size_t num_to_move = len - pos - num;
         memmove(str + pos, str + pos + num, sizeof(C) * num_to_move);
         return basic_substring{str, len - num};
-- 
2.43.0


From dfc9c2dc757f513961c8d18b4051190376fd7c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 46/47] fix: hexadecimal reals with a malformed exponent (two
 signs, radix prefix) were accepted

---
 src/c4/charconv.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 8fc8c2f..1415fc5 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2056,14 +2056,15 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 power:
     if(C4_LIKELY(pos < s.len))
     {
-        if(s.str[pos] == '+') // atoi() cannot handle a leading '+'
+        const bool negpow = (s.str[pos] == '-');
+        if(negpow || s.str[pos] == '+')
             ++pos;
         if(C4_LIKELY(pos < s.len))
         {
-            int16_t powval = {};
-            if(C4_LIKELY(atoi(s.sub(pos), &powval)))
+            uint16_t powval = {};
+            if(C4_LIKELY(read_dec(s.sub(pos), &powval))) // only decimal digits; no other sign or radix prefix
             {
-                *val *= ipow<T, int16_t, 2>(powval);
+                *val *= ipow<T, int, 2>(negpow ? -int(powval) : int(powval));
                 return true;
             }
         }
-- 
2.43.0


From eedc0c3c4678df34591487d144672238b83d0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:11 +0000
Subject: [PATCH 47/47] fix: hexadecimal reals lost range when the power of two
 alone is not representable

---
 src/c4/charconv.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 1415fc5..ec07deb 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -99,8 +99,8 @@
 #if !C4CORE_HAVE_STD_FROMCHARS
 #include <cstdio>
 #endif
-#if C4CORE_HAVE_STD_TOCHARS
-#include <cmath> // std::signbit
+#if C4CORE_HAVE_STD_TOCHARS || C4CORE_HAVE_FAST_FLOAT
+#include <cmath> // std::signbit, std::ldexp
 #endif
 
 
@@ -2064,7 +2064,7 @@ power:
             uint16_t powval = {};
             if(C4_LIKELY(read_dec(s.sub(pos), &powval))) // only decimal digits; no other sign or radix prefix
             {
-                *val *= ipow<T, int, 2>(negpow ? -int(powval) : int(powval));
+                *val = std::ldexp(*val, negpow ? -int(powval) : int(powval));
                 return true;
             }
         }
-- 
2.43.0

