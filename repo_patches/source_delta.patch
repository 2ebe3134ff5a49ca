From e12077c1c3ff7f48ef02aee81fdff45fa9261489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 01/32] fix: pcg engine shifted by out-of-range counts
 (undefined, differed per build)

---
 include/eirin/random.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..45ae13c 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -48,9 +48,12 @@ protected:
     UIntType m_seed;
     UIntType m_state;
 
+    // shifting by the width of the type or more is undefined, so reduce the shift count.
+    static constexpr UIntType shift_mask = sizeof(UIntType) * 8 - 1;
+
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x >>= (8 ^ x) & shift_mask;
         x += increment;
         return x;
     }
@@ -64,7 +67,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x >>= (8 ^ x) & shift_mask;
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From cf4d5ccbbd5a169d5e2105b247f48a9cff285024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 02/32] fix: pcg engine seed() kept the old position, so
 reseeding did not restart the sequence

---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 45ae13c..1c51a49 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -104,6 +104,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From 6ce350be8917100bb878ec6ea3dfe37252c3d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 03/32] fix: writing a pcg engine to a stream left the stream's
 number base changed

---
 include/eirin/random.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 1c51a49..88b4252 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -144,9 +144,11 @@ public:
     inline friend std::basic_ostream<charT, charTraits>& operator<<(std::basic_ostream<charT, charTraits>& os, const permuted_congruential_engine& obj)
     {
         // set fmtflags to dec and left, padding with space.
-        os.setf(std::ios::fmtflags(os.flags() | std::ios::dec | std::ios_base::left), std::ios::basefield);
+        const auto flags = os.flags();
+        os.flags(std::ios_base::dec | std::ios_base::left);
         // write the current state into the stream.
         os << obj.m_seed << ' ' << obj.m_state;
+        os.flags(flags);
         return os;
     }
 };
-- 
2.43.0


From 4021acc190f06264101d234694257f559a1eacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:03 +0000
Subject: [PATCH 04/32] fix: decimal parsing dropped digits, split numbers on
 streams and overflowed

The parsers stopped after 4-10 decimals, so printed numbers did not read back
exactly and operator>> left the other digits on the stream; operator>> and
io::parse also overflowed the store type, long numbers overflowed the
intermediate type, and the minimum value was rejected.
---
 include/eirin/fixed.hpp    | 197 ++++++++++++++++++-------------------
 include/eirin/io/parse.hpp |  23 +----
 2 files changed, 101 insertions(+), 119 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..acc7b51 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -679,14 +679,86 @@ namespace detail
     struct is_fixed_point<fixed_num<T, I, f, r>> : public std::true_type
     {};
 
+    /**
+     * @brief Collects the digits of a decimal number and converts them to a fixed number, truncated toward zero.
+     * The gap between two neighbouring fixed numbers always contains a number with at most f decimals,
+     * so the first f decimals decide the result and the others can be ignored.
+     */
+    template <typename T, typename I, unsigned int f, bool r>
+    class decimal_digits
+    {
+        static constexpr std::uint32_t chunk_base = 1000000000u; // 9 decimals in each chunk.
+
+        I m_int = I(0);
+        std::array<std::uint32_t, (f + 8) / 9> m_chunks{};
+        std::uint32_t m_scale = chunk_base;
+        unsigned int m_decimals = 0;
+
+    public:
+        constexpr void push_integral(int digit) noexcept
+        {
+            // stop when it is already out of range, to avoid the overflow of the intermediate type.
+            if(m_int <= static_cast<I>(std::numeric_limits<T>::max()))
+                m_int = m_int * 10 + digit;
+        }
+
+        constexpr void push_decimal(int digit) noexcept
+        {
+            if(m_decimals == f)
+                return;
+            if(m_decimals % 9 == 0)
+                m_scale = chunk_base;
+            m_scale /= 10;
+            m_chunks[m_decimals / 9] += static_cast<std::uint32_t>(digit) * m_scale;
+            ++m_decimals;
+        }
+
+        /**
+         * @return false if the number is out of range, and fp is not modified in this situation.
+         */
+        constexpr bool store(bool negative, fixed_num<T, I, f, r>& fp) noexcept
+        {
+            if(m_int > static_cast<I>(std::numeric_limits<T>::max() >> f) + 1)
+                return false;
+
+            I value = m_int;
+            for(unsigned int done = 0; done < f;)
+            {
+                const unsigned int bits = f - done < 32 ? f - done : 32;
+                std::uint64_t carry = 0;
+                for(auto i = m_chunks.size(); i-- > 0;)
+                {
+                    const auto scaled = (static_cast<std::uint64_t>(m_chunks[i]) << bits) + carry;
+                    m_chunks[i] = static_cast<std::uint32_t>(scaled % chunk_base);
+                    carry = scaled / chunk_base;
+                }
+                value = (value << bits) + static_cast<I>(carry);
+                done += bits;
+            }
+
+            // check overflow
+            if(negative)
+                value = -value;
+            if constexpr(!is_signed<T>::value)
+            {
+                if(negative && value != I(0))
+                    return false;
+            }
+            if(value > static_cast<I>(std::numeric_limits<T>::max()) || value < static_cast<I>(std::numeric_limits<T>::min()))
+                return false;
+
+            fp = fixed_num<T, I, f, r>::from_internal_value(static_cast<T>(value));
+            return true;
+        }
+    };
+
     template <typename CharT, typename T, typename I, unsigned int f, bool r>
     constexpr bool parse(const CharT* str, size_t len, fixed_num<T, I, f, r>& fp) noexcept
     {
-        using fixed = fixed_num<T, I, f, r>;
         size_t pos = 0;
         bool negative = false;
 
-        auto check_ch = [](char ch) -> bool
+        auto check_ch = [](CharT ch) -> bool
         {
             // This should be faster than isdigit
             return '0' <= ch && ch <= '9';
@@ -703,51 +775,28 @@ namespace detail
             next();
         }
 
-        I int_part = I(0), dec_part = I(0);
+        decimal_digits<T, I, f, r> digits;
         // parse the integer part.
         while(pos < len && str[pos] != '.')
         {
             if(!check_ch(str[pos]))
                 return false;
-            int_part = int_part * 10 + (next() - '0');
+            digits.push_integral(next() - '0');
         }
 
-        I fixed_value;
         // parse the decimal part.
         if(pos < len && str[pos] == '.')
         {
             ++pos;
-            constexpr auto max_fraction = ((std::int64_t)1 << fixed::precision) - 1;
-            I divisor = I(1);
             while(pos < len)
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
-                {
-                    break;
-                }
-                auto digit = next() - '0';
-                dec_part = dec_part * 10 + digit;
-                divisor *= 10;
+                digits.push_decimal(next() - '0');
             }
-            fixed_value = (int_part << fixed::precision) + (dec_part << fixed::precision) / divisor;
-        }
-        else
-        {
-            fixed_value = int_part << fixed::precision;
         }
 
-        // check overflow
-        if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
-        {
-            return false;
-        }
-
-        fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
-        return true;
+        return digits.store(negative, fp);
     }
 } // namespace detail
 
@@ -786,7 +835,7 @@ inline namespace literals
 
     constexpr inline fixed32 operator""_f32(const char* str, size_t len)
     {
-        fixed32 fp;
+        fixed32 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
@@ -796,7 +845,7 @@ inline namespace literals
     {
         auto len = sizeof...(chars);
         const char str[] = {chars...};
-        fixed32 fp;
+        fixed32 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
@@ -804,7 +853,7 @@ inline namespace literals
 #ifdef EIRIN_MATH_HAS_INT128
     constexpr inline fixed64 operator""_f64(const char* str, size_t len)
     {
-        fixed64 fp;
+        fixed64 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
@@ -814,7 +863,7 @@ inline namespace literals
     {
         auto len = sizeof...(chars);
         const char str[] = {chars...};
-        fixed64 fp;
+        fixed64 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
@@ -909,7 +958,7 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         next();
     }
 
-    int64_t int_part = 0, dec_part = 0;
+    detail::decimal_digits<int32_t, int64_t, fixed32::precision, false> digits;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -917,52 +966,28 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         {
             return false;
         }
-        int_part = int_part * 10 + (next() - '0');
+        digits.push_integral(next() - '0');
     }
-    int64_t fixed_value;
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         ++pos;
-        constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int64_t divisor = 1;
         while(has_next())
         {
             if(!check_ch(peek()))
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            digits.push_decimal(next() - '0');
         }
-        fixed_value = (int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor;
-    }
-    else
-    {
-        fixed_value = int_part << fixed32::precision;
     }
 
-    // check overflow
-    if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
-    {
-        return false;
-    }
-
-    fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
-    return true;
+    return digits.store(negative, fp);
 }
 
 template <typename T, typename I, unsigned int f, bool r>
 constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f, r>& fp) noexcept
 {
-    using fixed = fixed_num<T, I, f, r>;
     size_t pos = 0;
     bool negative = false;
     auto peek = [&]() -> char
@@ -989,52 +1014,32 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         next();
     }
 
-    I int_part = I(0), dec_part = I(0);
+    detail::decimal_digits<T, I, f, r> digits;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
         if(!check_ch(peek()))
             break;
-        int_part = int_part * 10 + (next() - '0');
+        digits.push_integral(next() - '0');
     }
-    I fixed_value = I(0);
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
-        I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
+            if(!check_ch(peek()))
                 break;
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            digits.push_decimal(next() - '0');
         }
-        fixed_value = (int_part << f) + (dec_part << f) / divisor;
-    }
-    else
-    {
-        fixed_value = (int_part << f);
-    }
-
-    // check overflow
-    if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
-    {
-        return false;
     }
 
-    fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
-    return true;
+    return digits.store(negative, fp);
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
 std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
 {
-    using fixed = fixed_num<T, I, f, r>;
     bool negative = false;
     auto peek = [&]() -> CharT
     {
@@ -1059,36 +1064,26 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    detail::decimal_digits<T, I, f, r> digits;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
         if(!isdigit(peek()))
             break;
-        int_part = int_part * 10 + (next() - '0');
+        digits.push_integral(next() - '0');
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
+            if(!isdigit(peek()))
                 break;
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            digits.push_decimal(next() - '0');
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
-    }
-    else
-    {
-        fp = fixed::from_internal_value(int_part << f);
     }
-    if(negative)
-        fp = -fp;
+    digits.store(negative, fp);
     return is;
 }
 
diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..3f27deb 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -45,7 +45,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         return '0' <= ch && ch <= '9';
     };
 
-    int32_t int_part = 0, dec_part = 0;
+    eirin::detail::decimal_digits<int32_t, int64_t, fixed32::precision, false> digits;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -53,36 +53,23 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         {
             return start -= pos;
         }
-        int_part = int_part * 10 + (next() - '0');
+        digits.push_integral(next() - '0');
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
         while(has_next())
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            digits.push_decimal(next() - '0');
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
-    }
-    else
-    {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
     }
-    if(negative)
-        out = -out;
+    if(!digits.store(negative, out))
+        return start -= pos;
     return start;
 }
 
-- 
2.43.0


From 780c8f72402778f95eef5e71b088d0d221b6e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 05/32] fix: operator>> did not report failures, skip white
 space or honour the exception mask

A number ending at the end of the input was reported as failed, an unreadable
one was not, a failed read stored 0 and an exception asked for by the stream
terminated the process.
---
 include/eirin/fixed.hpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index acc7b51..6cfbd20 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1038,27 +1038,35 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
+std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp)
 {
-    bool negative = false;
+    bool negative = false, has_digit = false;
+    // skip the leading white spaces, and do nothing if the stream has already failed.
+    typename std::basic_istream<CharT, Traits>::sentry ready(is);
+    if(!ready)
+        return is;
+    auto ch = is.peek();
     auto peek = [&]() -> CharT
     {
-        return is.peek();
+        return Traits::to_char_type(ch);
     };
     auto next = [&]() -> CharT
     {
-        return is.get();
+        auto current = peek();
+        is.get();
+        // do not peek again after reaching the end, that is an error.
+        ch = is.peek();
+        return current;
     };
     auto has_next = [&]() -> bool
     {
-        auto ch = is.peek();
-        return !is.eof();
+        return !Traits::eq_int_type(ch, Traits::eof());
     };
-    if(!has_next())
+    auto check_ch = [](CharT c) -> bool
     {
-        return is;
-    }
-    else if(peek() == '-')
+        return '0' <= c && c <= '9';
+    };
+    if(has_next() && peek() == '-')
     {
         negative = true;
         next();
@@ -1068,9 +1076,10 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
-        if(!isdigit(peek()))
+        if(!check_ch(peek()))
             break;
         digits.push_integral(next() - '0');
+        has_digit = true;
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
@@ -1078,12 +1087,16 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         next();
         while(has_next())
         {
-            if(!isdigit(peek()))
+            if(!check_ch(peek()))
                 break;
             digits.push_decimal(next() - '0');
+            has_digit = true;
         }
     }
-    digits.store(negative, fp);
+    if(is.bad())
+        return is;
+    if(!has_digit || !digits.store(negative, fp))
+        is.setstate(std::ios_base::failbit);
     return is;
 }
 
-- 
2.43.0


From f0b19451a5b2cbc566a08d150057e4e798de7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:52 +0000
Subject: [PATCH 06/32] fix: io::parse(string_view) read past the view and
 stopped at chars equal to the one after it

---
 include/eirin/io/parse.hpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 3f27deb..34c5422 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -8,15 +8,10 @@
 
 namespace eirin::io
 {
-/**
- * @brief Parse fixed point number from string
- *
- * @param start the beginning pos of the pointer.
- * @param stop the end pos of the pointer.
- * @param out tge output fixed point number
- * @return the pos of the pointer.
- */
-inline const char* parse(const char* start, const char* stop, fixed32& out)
+namespace detail
+{
+template <typename AtEnd>
+const char* parse_until(const char* start, AtEnd at_end, fixed32& out)
 {
     size_t pos = 0;
     bool negative = false;
@@ -31,7 +26,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
     };
     auto has_next = [&]() -> bool
     {
-        return *start != *stop;
+        return !at_end(start);
     };
 
     if(has_next() && peek() == '-')
@@ -73,13 +68,26 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
     return start;
 }
 
+} // namespace detail
+
+/**
+ * @brief Parse fixed point number from string
+ *
+ * @param start the beginning pos of the pointer.
+ * @param stop the end pos of the pointer.
+ * @param out tge output fixed point number
+ * @return the pos of the pointer.
+ */
+inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse_until(start, [stop](const char* pos) { return *pos == *stop; }, out);
+}
+
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
-        out
-    );
+    // the char after a string_view does not belong to it, so only compare the position.
+    const char* stop = std::to_address(str.end());
+    return detail::parse_until(std::to_address(str.begin()), [stop](const char* pos) { return pos == stop; }, out);
 }
 } // namespace eirin::io
 
-- 
2.43.0


From 6e4b7f867a563edc3c2e20b7400ab6e5bb045ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:52 +0000
Subject: [PATCH 07/32] fix: integral_part() was one too large for negative
 non-integers, so {} printed -0.5 as -1.5

---
 include/eirin/fixed.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 6cfbd20..4a885c1 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -264,13 +264,9 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
-        Type result = m_value;
+        Type result = static_cast<Type>(m_value / fraction_multiplier); // Drop fractional part
         if(signbit(*this))
-        {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
-        }
-        result >>= fraction; // Drop fractional part
+            result = -result;
 
         return result;
     }
-- 
2.43.0


From 0c989437a2da35e25c5dcb912f894cbc1a004372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:13 +0000
Subject: [PATCH 08/32] fix: ceil() of negative numbers was wrong and
 floor()/ceil() relied on signed overflow

---
 include/eirin/math.hpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..6f90e46 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -34,11 +34,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> f
     using fixed = fixed_num<T, I, f, r>;
     constexpr auto frac_mult = T(1) << f;
     auto value = fp.internal_value();
-    if(value > 0)
-        value += frac_mult - 1;
     // overflow check.
-    if(value < 0)
+    if(value > std::numeric_limits<T>::max() - (frac_mult - 1))
         return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
+    if(value > 0)
+        value += frac_mult - 1;
     return fixed::from_internal_value(value / frac_mult * frac_mult);
 }
 
@@ -47,14 +47,10 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r>
 {
     using fixed = fixed_num<T, I, f, r>;
     constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    auto neg = value < 0;
-    if(value < 0)
-        value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    auto value = fp.internal_value() / frac_mult * frac_mult;
+    if(value > fp.internal_value())
+        value -= frac_mult;
+    return fixed::from_internal_value(value);
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 6458a98d422c16e06ae6475bede92183b3b02043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:37 +0000
Subject: [PATCH 09/32] fix: conversion to a type with more fraction bits
 overflowed the source type

---
 include/eirin/fixed.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4a885c1..1591045 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -493,7 +493,8 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        // the store type of the source may be too small for the shifted value.
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(inner_value) * (IntermediateType(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From f5e760529f294910a1bd32c482b66f4944e1e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:37 +0000
Subject: [PATCH 10/32] fix: multiplication and division of rounding fixed
 numbers returned twice the result

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 1591045..654759a 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -333,7 +333,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -346,7 +346,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -367,7 +367,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -380,7 +380,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -614,7 +614,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -639,7 +639,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
-- 
2.43.0


From d623d23179000ff207a18f137e1a3fcd0a1f24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:37 +0000
Subject: [PATCH 11/32] fix: distribution adapters ignored the parameters given
 for a single call

---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From e4a56db76a40cc86eeb942b34b7482ffb4e6274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 12/32] fix: distribution adapters truncated the range to the
 result type of the given distribution

---
 include/eirin/detail/distribution.hpp | 30 ++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 81ca21f..aaeb550 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -13,6 +13,26 @@
 
 namespace eirin
 {
+namespace detail
+{
+    /**
+     * @brief The distribution to draw the internal values of a fixed number with store type V from.
+     * Such value may not fit in the result of the given distribution, then use the same distribution of V instead.
+     */
+    template <typename DistType, typename V>
+    struct fixed_distribution_rebind
+    {
+        using type = DistType;
+    };
+
+    template <template <typename> class D, typename R, typename V>
+    requires(sizeof(R) < sizeof(V))
+    struct fixed_distribution_rebind<D<R>, V>
+    {
+        using type = D<V>;
+    };
+} // namespace detail
+
 /**
  * @brief A adapter to distribute fixed point numbers using integral distribution.
  * @note Different from `fixed_distribution_adapter`, this adapter works directly with standard random engines.
@@ -36,11 +56,11 @@ public:
     typedef FixedType result_type;
     typedef typename result_type::value_type value_type;
     typedef std::make_unsigned_t<value_type> unsigned_type;
-    typedef DistType underlying_type;
+    typedef typename detail::fixed_distribution_rebind<DistType, value_type>::type underlying_type;
 
     struct param_type
     {
-        using target_type = typename DistType::param_type;
+        using target_type = typename underlying_type::param_type;
 
         explicit param_type(const result_type& a = std::numeric_limits<result_type>::min(), const result_type& b = std::numeric_limits<result_type>::max())
             : m_a(a), m_b(b)
@@ -113,7 +133,7 @@ public:
     void param(const param_type& param)
     {
         m_param = param;
-        m_dist = DistType(static_cast<value_type>(param.a().internal_value()), static_cast<value_type>(param.b().internal_value()));
+        m_dist = underlying_type(static_cast<value_type>(param.a().internal_value()), static_cast<value_type>(param.b().internal_value()));
     }
 
     result_type a() const
@@ -171,11 +191,11 @@ public:
     typedef FixedType result_type;
     typedef typename result_type::value_type value_type;
     typedef std::make_unsigned_t<value_type> unsigned_type;
-    typedef DistType underlying_type;
+    typedef typename detail::fixed_distribution_rebind<DistType, value_type>::type underlying_type;
 
     struct param_type
     {
-        using target_type = typename DistType::param_type;
+        using target_type = typename underlying_type::param_type;
 
         explicit param_type(const result_type& a = std::numeric_limits<result_type>::min(), const result_type& b = std::numeric_limits<result_type>::max())
             : m_a(a), m_b(b)
-- 
2.43.0


From dacbefb8dbb88e0169a8cd6cfc66e4f53fd051de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 13/32] fix: concurrent cpu feature queries saw features
 missing while another thread detected them

---
 include/eirin/ext/simd_math.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..6c354cc 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -27,17 +27,12 @@ namespace eirin::simd
 {
 class platform_support
 {
-    static inline bool features_detected = false;
-
     // we only consider to support x86 for now.
     // a bit set for storeage.
     static inline std::bitset<8> features_flag = 0x00;
 
-    EIRIN_ALWAYS_INLINE static void detect_features()
+    static bool fill_features_flag()
     {
-        if(features_detected) [[likely]]
-            return;
-        features_detected = true;
 #ifdef EIRIN_ARCH_X86
 #    if defined(__GNUC__) || defined(__clang__)
         u_int32_t eax, ebx, ecx, edx;
@@ -63,13 +58,21 @@ class platform_support
         features_flag.set(4, (ebx & (1 << 16)) != 0);
         features_flag.set(5, (ebx & (1 << 17)) != 0);
 #    else
-        return;
+        return false;
 #    endif
+        return true;
 #else
-        return;
+        return false;
 #endif
     }
 
+    EIRIN_ALWAYS_INLINE static void detect_features()
+    {
+        // thread-safe: nobody reads the flags before they are filled.
+        static const bool features_detected = fill_features_flag();
+        static_cast<void>(features_detected);
+    }
+
 public:
     inline static bool supports_sse2()
     {
-- 
2.43.0


From 9d0b32f893af14cec366ec35d5cbd592100e1f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 14/32] fix: simd_reduce_angle dropped the high half of
 products in AVX-512 builds

---
 include/eirin/ext/simd_math.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 6c354cc..6e0e14d 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -115,11 +115,7 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // Lane-wise 64-bit multiplication, the 64-bit multiplication of AVX-512 would drop the high half of the product.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -150,7 +146,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0


From 1b10e68b4a61f7e04b479485c70fc0d6791b8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 15/32] fix: conversion to floating point types dropped the
 fraction

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 654759a..8a63e29 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -291,7 +291,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(fraction_multiplier);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From b1697b6ddf490a26632d98ed97b1225fd6f0a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 16/32] fix: rounding fixed numbers halved positive floating
 point numbers

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 8a63e29..d9fdebf 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
-- 
2.43.0


From 9995eb014179025f477e9d773acbac6fc8005db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 17/32] fix: operator<< printed wrong digits for 28 or more
 fraction bits and large unsigned numbers

---
 include/eirin/fixed.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index d9fdebf..902dc2b 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -521,30 +521,20 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        IntermediateType divisor = fraction_multiplier;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
-        Type int_part;
-        if(value == val.signbit_mask())
+        IntermediateType value = val.m_value;
+        if(value < 0)
         {
             put_char('-');
-            int_part = ~(value >> fraction) + 1;
-            value = 0;
-        }
-        else
-        {
-            if(value < 0)
-            {
-                put_char('-');
-                value = -value;
-            }
-            int_part = value >> fraction;
+            value = -value;
         }
+        IntermediateType int_part = value >> fraction;
         value %= divisor;
         std::array<char, 514> buffer;
         auto iter = buffer.begin();
-- 
2.43.0


From 92a008a2c86b5b595c7bdddff874610034bc8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 18/32] fix: formatting with precision 0 left a trailing point

---
 include/eirin/io/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..91f483d 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -137,7 +137,7 @@ public:
                     frac_val = -frac_val;
             }
 
-            bool has_frac = (frac_val != 0);
+            bool has_frac = (frac_val != 0) && m_state.precision != 0;
             int used_prec = 0;
 
             if(has_frac)
-- 
2.43.0


From 5b954b5cccdd18b90d213b3021f634ca967038a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 19/32] fix: formatting numbers with 28 or more fraction bits
 overflowed

---
 include/eirin/io/format.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 91f483d..88ff5c4 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -150,14 +150,15 @@ public:
 
                 int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
 
-                T frac_bits = frac_val;
+                // the store type may have no room for one more decimal digit.
+                I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    I shifted = frac_bits * static_cast<I>(10);
+                    T digit = static_cast<T>(shifted >> F);
+                    frac_bits = shifted & ((static_cast<I>(1) << F) - static_cast<I>(1));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
-- 
2.43.0


From ce46735097db1badc69179fda73ffbbcfbb1eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 20/32] fix: zero padding was written before the sign

---
 include/eirin/io/format.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 88ff5c4..0a0cd55 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -179,6 +179,7 @@ public:
             }
         }
 
+        pad_with_zeros(body, prefix.size());
         return output_aligned(out, body);
     }
 
@@ -220,6 +221,7 @@ private:
         if(m_state.alt_form)
             append_alt_prefix(body, 16, upper);
 
+        const auto prefix_size = body.size();
         const auto& digits = detail::digit_map_lower;
 
         if(uval == 0)
@@ -238,6 +240,7 @@ private:
             body += rev;
         }
 
+        pad_with_zeros(body, prefix_size);
         return output_aligned(out, body);
     }
 
@@ -324,6 +327,13 @@ private:
         }
     }
 
+    // The zeros for padding are placed after the sign and the alternate-form prefix
+    void pad_with_zeros(std::basic_string<CharT>& body, std::size_t prefix_size) const
+    {
+        if(m_state.zero_pad && static_cast<int>(body.size()) < m_state.width_val)
+            body.insert(prefix_size, static_cast<std::size_t>(m_state.width_val) - body.size(), static_cast<CharT>('0'));
+    }
+
     template <typename OutputIt>
     OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body) const
     {
-- 
2.43.0


From bd143e246042975661e8122a9047bd6827fd224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 21/32] fix: pow() with a fixed exponent terminated the program
 on a negative base instead of reporting the domain error

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 6f90e46..505b9cb 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -543,7 +543,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
-- 
2.43.0


From d3e96928ca3feaeb0ab5379b2ba74002ad7731c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:14 +0000
Subject: [PATCH 22/32] fix: std::format rejected "{}>": closing brace taken as
 fill character

---
 include/eirin/io/format.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 0a0cd55..630a66c 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -415,6 +415,7 @@ public:
         }
 
         // [[fill]align]
+        if(*it != '}') // the end of an empty format-spec is not a fill character
         {
             auto nxt = it;
             ++nxt;
-- 
2.43.0


From 1f2569a1a0d593b2debde187e73791b97d71d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:50 +0000
Subject: [PATCH 23/32] fix: ceil() of values near the maximum overflowed a
 signed intermediate, so the result depended on the compiler

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 505b9cb..0574e41 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -36,7 +36,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> f
     auto value = fp.internal_value();
     // overflow check.
     if(value > std::numeric_limits<T>::max() - (frac_mult - 1))
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
+        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + (frac_mult - 1));
     if(value > 0)
         value += frac_mult - 1;
     return fixed::from_internal_value(value / frac_mult * frac_mult);
-- 
2.43.0


From d74061c7b51693596584ee8fe95b486ae3f5e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:56 +0000
Subject: [PATCH 24/32] fix: AVX2 and AVX-512 were taken from unrelated CPUID
 data on processors without leaf 7

---
 include/eirin/ext/simd_math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 6e0e14d..211d6fd 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -40,6 +40,10 @@ class platform_support
         features_flag.set(0, (edx & (1 << 26)) != 0);
         features_flag.set(1, (ecx & (1 << 20)) != 0);
         features_flag.set(2, (ecx & (1 << 28)) != 0);
+        // a processor without leaf 7 answers with the data of another leaf.
+        __cpuid(0, eax, ebx, ecx, edx);
+        if(eax < 7)
+            return true;
         __cpuid_count(7, 0, eax, ebx, ecx, edx);
         features_flag.set(3, (ebx & (1 << 5)) != 0);
         features_flag.set(4, (ebx & (1 << 16)) != 0);
@@ -52,6 +56,10 @@ class platform_support
         features_flag.set(0, (edx & (1 << 26)) != 0);
         features_flag.set(1, (ecx & (1 << 20)) != 0);
         features_flag.set(2, (ecx & (1 << 28)) != 0);
+        // a processor without leaf 7 answers with the data of another leaf.
+        __cpuid(cpu_info, 0);
+        if(cpu_info[0] < 7)
+            return true;
         __cpuidex(cpu_info, 7, 0);
         uint32_t ebx = cpu_info[1];
         features_flag.set(3, (ebx & (1 << 5)) != 0);
-- 
2.43.0


From a0b06db79a247e1640eb0270e0c14f60839cd499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:42 +0000
Subject: [PATCH 25/32] fix: simd_reduce_angle_2 returned the product of the
 low halves and swapped its lanes

---
 include/eirin/ext/simd_math.hpp | 36 +++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 211d6fd..3ab4eea 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -207,6 +207,34 @@ namespace detail
     //     static const __m256i threshold = _mm256_set1_epi64x((0.00015_f64).internal_value());
     // }
 
+    EIRIN_ALWAYS_INLINE __m128i sse_mm_mullo_epi64(__m128i __A, __m128i __B)
+    {
+        // The same as avx_mm256_mullo_epi64, for 2 lanes.
+        __m128i sign_mask_a = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__A, 63));
+        __m128i sign_mask_b = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__B, 63));
+        __m128i a_lo = _mm_sub_epi64(_mm_xor_si128(__A, sign_mask_a), sign_mask_a);
+        __m128i b_lo = _mm_sub_epi64(_mm_xor_si128(__B, sign_mask_b), sign_mask_b);
+        __m128i a_hi = _mm_srli_epi64(a_lo, 32);
+        __m128i b_hi = _mm_srli_epi64(b_lo, 32);
+
+        // _mm_mul_epu32 only uses the low 32 bits of each lane.
+        __m128i mid = _mm_add_epi64(_mm_mul_epu32(a_hi, b_lo), _mm_mul_epu32(a_lo, b_hi));
+        __m128i result = _mm_add_epi64(_mm_add_epi64(mid, _mm_slli_epi64(_mm_mul_epu32(a_hi, b_hi), 32)), _mm_srli_epi64(_mm_mul_epu32(a_lo, b_lo), 32));
+
+        // restore sign
+        __m128i sign = _mm_xor_si128(sign_mask_a, sign_mask_b);
+        return _mm_sub_epi64(_mm_xor_si128(result, sign), sign);
+    }
+
+    EIRIN_ALWAYS_INLINE __m128i _mm_fpint_epi64(__m128i __X)
+    {
+        // The same as _mm256_fpint_epi64, for 2 lanes.
+        __m128i sign_mask = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__X, 63));
+        __m128i abs_val = _mm_sub_epi64(_mm_xor_si128(__X, sign_mask), sign_mask);
+        __m128i integer_part = _mm_slli_epi64(_mm_srli_epi64(abs_val, 32), 32);
+        return _mm_sub_epi64(_mm_xor_si128(integer_part, sign_mask), sign_mask);
+    }
+
     EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
     {
         // these [2 * i64] vector stores the fixed point internal represent.
@@ -214,10 +242,10 @@ namespace detail
         static constexpr int64_t inv_two_pi_v[2] = {(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value(), (1_f64 / (numbers::pi_f64 * 2_f64)).internal_value()};
         static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
         static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
-        // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
+        // n = floor(x / (2pi))
+        __m128i n = _mm_fpint_epi64(sse_mm_mullo_epi64(x, inv_two_pi));
         // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
+        return _mm_sub_epi64(x, sse_mm_mullo_epi64(n, two_pi));
     }
 } // namespace detail
 
@@ -235,7 +263,7 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed6
 {
     __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
     __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
+    int64_t r1 = _mm_extract_epi64(rv, 0b0), r2 = _mm_extract_epi64(rv, 0b1);
     return {FIXED64(r1), FIXED64(r2)};
 }
 
-- 
2.43.0


From 8bd822bcdbb872b7ea28a07ecd1867b2ace2dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:36 +0000
Subject: [PATCH 26/32] fix: std::format accepted widths and precisions that
 overflow int and used the wrapped number

---
 include/eirin/io/format.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 630a66c..59b9e4d 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -5,6 +5,7 @@
 
 #include <version>
 #include <string>
+#include <limits>
 #include <algorithm>
 #include "../fixed.hpp"
 #ifdef __cpp_lib_format
@@ -459,7 +460,10 @@ public:
             st.width_val = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.width_val = st.width_val * 10 + static_cast<int>(*it - '0');
+                const int digit = static_cast<int>(*it - '0');
+                if(st.width_val > (std::numeric_limits<int>::max() - digit) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "width is too large");
+                st.width_val = st.width_val * 10 + digit;
                 ++it;
             }
         }
@@ -471,7 +475,10 @@ public:
             st.precision = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.precision = st.precision * 10 + static_cast<int>(*it - '0');
+                const int digit = static_cast<int>(*it - '0');
+                if(st.precision > (std::numeric_limits<int>::max() - digit) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "precision is too large");
+                st.precision = st.precision * 10 + digit;
                 ++it;
             }
         }
-- 
2.43.0


From db3813f4e7c1fcbff9eba404dc383ebda32a77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:29 +0000
Subject: [PATCH 27/32] fix: dividing a negative fixed number by an unsigned
 integer returned a huge positive number

---
 include/eirin/fixed.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 902dc2b..763cb5d 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -135,6 +135,23 @@ class fixed_num
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
+    // An unsigned divisor would convert a negative value to a large positive one, so divide the absolute value.
+    template <std::integral T>
+    static constexpr Type divide_value(Type value, T divisor) noexcept
+    {
+        if constexpr(std::is_signed_v<Type> && std::is_unsigned_v<T>)
+        {
+            using unsigned_type = std::common_type_t<unsigned int, std::make_unsigned_t<Type>, T>;
+            const unsigned_type abs_value = value < 0 ? unsigned_type(0) - static_cast<unsigned_type>(value) : static_cast<unsigned_type>(value);
+            const unsigned_type result = abs_value / divisor;
+            return static_cast<Type>(value < 0 ? unsigned_type(0) - result : result);
+        }
+        else
+        {
+            return static_cast<Type>(value / divisor);
+        }
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -391,7 +408,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = divide_value(m_value, val);
         return *this;
     }
 
@@ -593,7 +610,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(divide_value(m_value, val), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -617,7 +634,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = divide_value(m_value, val);
         return *this;
     }
 
-- 
2.43.0


From cc1a89b107d5f57122459c64a620b94f8643c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:30 +0000
Subject: [PATCH 28/32] fix: nearly comparisons of numbers far apart
 overflowed, so the minimum was nearly equal to the maximum

---
 include/eirin/fixed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 763cb5d..3a2bfd1 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -465,25 +465,25 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        const auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        const auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        const auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        const auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div < -nearly_compare_epsilon().m_value;
     }
 
-- 
2.43.0


From dbb0fc22e6b2ce49d72fb5e57a47ce0ac4222557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 29/32] fix: asin and acos reject the smallest number

Its absolute value overflows, so the domain check let it pass or not, depending on the compiler.
---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 0574e41..490b33e 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -320,7 +320,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "asin() domain error");
     if(fp == fixed(1))
         return pi / fixed(2);
@@ -333,7 +333,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "acos() domain error");
     if(fp == fixed(1))
         return fixed(0);
-- 
2.43.0


From 3553515c867cb1fec6d4feb7d8caeb741cb1f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 30/32] fix: the remainder of the smallest number by the
 negative epsilon is zero

The division overflows in the store type, which ends the process on x86.
---
 include/eirin/fixed.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 3a2bfd1..d179dbb 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -414,12 +414,13 @@ public:
 
     constexpr inline fixed_num operator%(const fixed_num& other) const noexcept
     {
-        return fixed_num(m_value % other.m_value, raw_value_construct_tag{});
+        // min % -1 overflows in the store type.
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(m_value) % other.m_value), raw_value_construct_tag{});
     }
 
     constexpr inline fixed_num& operator%=(const fixed_num& other) noexcept
     {
-        m_value %= other.m_value;
+        m_value = static_cast<Type>(static_cast<IntermediateType>(m_value) % other.m_value);
         return *this;
     }
 
-- 
2.43.0


From bd4bc0bb84ab382ccc963cbea9418e6a487b3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 31/32] fix: round floating point numbers to the nearest fixed
 number

Adding 0.5 to the scaled number is inexact when it uses all bits of the mantissa, or is next to a tie.
---
 include/eirin/fixed.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index d179dbb..0987235 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -193,9 +193,17 @@ public:
         }
         else
         {
-            m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
-            );
+            const T scaled = val * fraction_multiplier;
+            m_value = static_cast<Type>(scaled);
+            if constexpr(rounding)
+            {
+                // scaled + 0.5 may not be representable, but the part that was cut off always is.
+                const T rest = scaled - static_cast<T>(m_value);
+                if(rest >= T{0.5})
+                    ++m_value;
+                else if(rest <= T{-0.5})
+                    --m_value;
+            }
         }
     };
 
-- 
2.43.0


From 15bd0fb954d48f50223bd3f149ea8d51c7838879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:40 +0000
Subject: [PATCH 32/32] fix: engine state text is padded with spaces, whatever
 the fill character of the stream

---
 include/eirin/random.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 88b4252..00b3409 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -145,10 +145,12 @@ public:
     {
         // set fmtflags to dec and left, padding with space.
         const auto flags = os.flags();
+        const charT fill = os.fill(os.widen(' '));
         os.flags(std::ios_base::dec | std::ios_base::left);
         // write the current state into the stream.
         os << obj.m_seed << ' ' << obj.m_state;
         os.flags(flags);
+        os.fill(fill);
         return os;
     }
 };
-- 
2.43.0

