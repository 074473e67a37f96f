From 4743a9838310ee6e5e03260b1908b4b0b8f0ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 01/71] fix: high surrogates are exactly U+D800 to U+DBFF

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..78580aa 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -86,7 +86,7 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From 81ca110e2c48c2b241083a7cdfb990d33807139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 02/71] fix: report 4 processed bytes for a 4-byte code point

---
 include/papilio/utf/codepoint.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..e135fdd 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -99,7 +99,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
         result <<= 6;
         result |= bytes[3] & 0b0011'1111;
 
-        return std::make_pair(result, std::uint8_t(3));
+        return std::make_pair(result, std::uint8_t(4));
     }
 
     return std::make_pair(U'\0', std::uint8_t(0));
-- 
2.43.0


From 1a991e853b027b3f2688595c4623ba91be678799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 03/71] fix: bytes that start no valid UTF-8 sequence are
 single units, never read past a truncated sequence

---
 include/papilio/utf/codepoint.hpp | 4 ++++
 include/papilio/utf/codepoint.inl | 2 ++
 include/papilio/utf/stralgo.hpp   | 4 +---
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 94889f8..c444b10 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -225,6 +225,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = ptr[i];
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
@@ -239,6 +241,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = static_cast<char8_t>(ptr[i]);
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index e135fdd..58c9983 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -115,6 +115,8 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char8_t>::to_codepoint(std:
     if(ch.empty()) [[unlikely]]
         return std::make_pair(codepoint(), std::uint8_t(0));
     std::uint8_t len = size_bytes(ch[0]);
+    if(len > ch.size()) [[unlikely]]
+        len = static_cast<std::uint8_t>(ch.size());
     return std::make_pair(codepoint(ch.data(), len), len);
 }
 
diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 78580aa..ae3b6bf 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -69,8 +69,6 @@ constexpr inline bool is_trailing_byte(std::uint8_t ch) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 {
-    PAPILIO_ASSERT(PAPILIO_NS utf::is_leading_byte(leading_byte));
-
     if((leading_byte & 0b1000'0000) == 0)
         return 1;
     else if((leading_byte & 0b1110'0000) == 0b1100'0000)
@@ -80,7 +78,7 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
     else if((leading_byte & 0b1111'1000) == 0b1111'0000)
         return 4;
 
-    PAPILIO_UNREACHABLE();
+    return 1; // Stray byte
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From e43d15de327efc902ad43b5f39c43ab13ff3c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 04/71] fix: codepoint::replace compiles for UTF-32 strings

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index c444b10..e01c6c9 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -437,7 +437,7 @@ public:
         {
             str.replace(pos, count, std::basic_string_view<CharT>(*this));
         }
-        else if(char16_like<CharT>)
+        else if constexpr(char16_like<CharT>)
         {
             auto result = decoder<CharT>::from_codepoint(*this);
             str.replace(pos, count, result.get());
-- 
2.43.0


From 4526ba98dfbf0333986937b8578aba7fab3f4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 05/71] fix: index() is available on a const string container

---
 include/papilio/utf/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..55bb028 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1341,6 +1341,8 @@ public:
 
 #endif
 
+    using my_base::index;
+
     // for consistency
     [[nodiscard]]
     constexpr reference index(size_type i) noexcept
-- 
2.43.0


From e0a61329d3eddc99dd3add0a6e61f01c1ae2ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 06/71] fix: bounded strlen and reverse index_offset stay
 within the given length

---
 include/papilio/utf/stralgo.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index ae3b6bf..d0db7ad 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -120,7 +120,7 @@ constexpr std::size_t strlen(
     std::size_t result = 0;
     std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < max_chars && str[i] != CharT(0);)
     {
         if(bytes != 0)
         {
@@ -312,6 +312,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
@@ -470,7 +472,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From ad380dc251106433bae1e8eb0b2024c0561d1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 07/71] fix: mutable string iterators advance by the length of
 the current character

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 55bb028..178b9ec 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1451,7 +1451,7 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(to_address()[m_offset]);
+            m_offset += m_str->ch_size_for_cp(*to_address());
             if(m_offset > m_str->size())
                 m_offset = m_str->size();
         }
-- 
2.43.0


From 3a248d56235e8ae656dfee82bda5f6c37f6b326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 08/71] fix: UTF-16 strlen accepts characters outside the
 surrogate range when checking for invalid units

---
 include/papilio/utf/stralgo.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index d0db7ad..fa12b84 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -271,7 +271,14 @@ constexpr std::size_t strlen(
             }
             else
             {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
+                if(PAPILIO_NS utf::is_low_surrogate(ch) != prev_is_high) [[unlikely]]
+                {
+                    // Unpaired surrogate
+                    if constexpr(OnInvalid == strlen_behavior::stop)
+                        return result;
+                    else
+                        throw invalid_surrogate(ch);
+                }
 
                 prev_is_high = false;
                 ++result;
-- 
2.43.0


From 54049ff11306a784b02c45fc05f6b2b06091b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 09/71] fix: slicing with the most negative bound does not
 overflow

---
 include/papilio/utf/string.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 178b9ec..7f0f659 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -323,12 +323,10 @@ public:
             }
             else
             {
-                idx = -idx; // abs(idx)
-
                 const auto sentinel = cbegin();
 
                 const_iterator it = cend();
-                for(index_range::index_type i = 0; i < idx; ++i)
+                for(index_range::index_type i = 0; i > idx; --i)
                 {
                     if(it == sentinel)
                     {
-- 
2.43.0


From fa1751020a75cc6d34f85ace64eef5aaa5ecb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 10/71] fix: characters of ill-formed or truncated text never
 extend past the text

---
 include/papilio/utf/codepoint.hpp | 10 +++++++---
 include/papilio/utf/codepoint.inl |  4 +++-
 include/papilio/utf/string.hpp    | 17 +++++++++++------
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index e01c6c9..cf96a77 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -514,6 +514,8 @@ namespace detail
                     m_len = byte_count(ch);
                 else
                     m_len = 1;
+                if(m_len > m_str.size() - m_offset) [[unlikely]]
+                    m_len = static_cast<std::uint8_t>(m_str.size() - m_offset);
             }
             else
             {
@@ -540,6 +542,8 @@ namespace detail
                 {
                     m_offset = next_offset;
                     m_len = PAPILIO_NS utf::byte_count(ch);
+                    if(m_len > m_str.size() - m_offset) [[unlikely]]
+                        m_len = static_cast<std::uint8_t>(m_str.size() - m_offset);
                     break;
                 }
                 else if(next_offset == 0)
@@ -605,7 +609,7 @@ namespace detail
             {
                 m_offset = next_offset;
                 std::uint16_t ch = m_str[next_offset];
-                if(PAPILIO_NS utf::is_high_surrogate(ch))
+                if(PAPILIO_NS utf::is_high_surrogate(ch) && m_str.size() - m_offset > 1)
                     m_len = 2;
                 else
                     m_len = 1;
@@ -621,10 +625,10 @@ namespace detail
         {
             PAPILIO_ASSERT(m_offset != 0);
             --m_offset;
-            while(PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
+            while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
                 --m_offset;
 
-            m_len = utf::is_high_surrogate(m_str[m_offset]) ? 2 : 1;
+            m_len = utf::is_high_surrogate(m_str[m_offset]) && m_str.size() - m_offset > 1 ? 2 : 1;
         }
 
         constexpr bool to_bool() const noexcept
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 58c9983..51a83c8 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -206,12 +206,14 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
         std::uint8_t ch_size = PAPILIO_NS utf::is_leading_byte(ch) ?
                                    PAPILIO_NS utf::byte_count(ch) :
                                    1;
+        if(ch_size > str.size()) [[unlikely]]
+            ch_size = static_cast<std::uint8_t>(str.size());
         return result_t(str, 0, ch_size);
     }
     else if constexpr(char16_like<CharU>)
     {
         std::uint16_t ch = str[0];
-        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) ?
+        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) && str.size() > 1 ?
                                    2 :
                                    1;
         return result_t(str, 0, ch_size);
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 7f0f659..0b5f37a 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -104,8 +104,12 @@ public:
 private:
     constexpr const_reference make_const_reference(size_type off) const noexcept
     {
-        const CharT* p = data() + off;
-        return const_reference(p, ch_size_for_cp(*p));
+        string_view_type rest = get_view().substr((std::min)(off, size()));
+        if(rest.empty()) [[unlikely]]
+            return const_reference(rest.data(), 0);
+        return const_reference(
+            rest.data(), static_cast<std::uint8_t>((std::min<size_type>)(ch_size_for_cp(rest[0]), rest.size()))
+        );
     }
 
 public:
@@ -387,16 +391,17 @@ protected:
     constexpr codepoint cp_from_off(size_type off) const noexcept
     {
         string_view_type str = get_view();
-        PAPILIO_ASSERT(off < str.size());
+        if(off >= str.size()) [[unlikely]]
+            return codepoint();
 
         if constexpr(char8_like<CharT>)
         {
             std::uint8_t ch_size = ch_size_for_cp(str[off]);
-            return codepoint(str.data() + off, ch_size);
+            return codepoint(str.data() + off, static_cast<std::uint8_t>((std::min<size_type>)(ch_size, str.size() - off)));
         }
         else if constexpr(char16_like<CharT>)
         {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]) ? 2 : 1;
+            std::uint8_t ch_size = ch_size_for_cp(str[off]);
             return decoder<CharT>::to_codepoint(str.substr(off, ch_size)).first;
         }
         else // char32_like
@@ -1491,7 +1496,7 @@ public:
 
                 PAPILIO_ASSERT(m_offset != 0);
                 --m_offset;
-                while(PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
+                while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
                     --m_offset;
             }
             else
-- 
2.43.0


From e0bec6ed9c57f308a11ca202cd986d33b2f1ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 11/71] fix: the distance of two code point iterators is finite
 on ill-formed text

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index cf96a77..30a299f 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -895,7 +895,7 @@ public:
         {
             difference_type diff = 0;
 
-            while(rhs != *this && rhs)
+            while(rhs.base() < this->base())
             {
                 ++rhs;
                 ++diff;
-- 
2.43.0


From 53f316cb3f34d5df504e7aed756df5a452ba8961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 12/71] fix: decoding an unpaired surrogate throws instead of
 terminating the program

---
 include/papilio/utf/codepoint.hpp |  6 +--
 include/papilio/utf/string.hpp    | 74 +++++++++++++++----------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 30a299f..45cdb12 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -756,17 +756,17 @@ public:
 
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        constexpr operator codepoint() const
         {
             return decoder<CharT>::to_codepoint(std::basic_string_view<CharT>(m_ptr, m_len)).first;
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const
         {
             return static_cast<codepoint>(*this);
         }
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 0b5f37a..c30be4e 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -156,7 +156,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(size_type i, codepoint default_val) const
     {
         size_type off = get_offset(i);
         if(off == npos) return default_val;
@@ -164,7 +164,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const
     {
         size_type off = get_offset(reverse_index, i);
         if(off == npos) return default_val;
@@ -208,19 +208,19 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint front() const noexcept
+    constexpr codepoint front() const
     {
         return index(0);
     }
 
     [[nodiscard]]
-    constexpr codepoint back() const noexcept
+    constexpr codepoint back() const
     {
         return index(reverse_index, 0);
     }
 
     [[nodiscard]]
-    const_iterator find(codepoint ch, size_type pos = 0) const noexcept
+    const_iterator find(codepoint ch, size_type pos = 0) const
     {
         auto it = as_derived().cbegin();
         const auto sentinel = as_derived().cend();
@@ -234,7 +234,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool contains(codepoint ch) const noexcept
+    constexpr bool contains(codepoint ch) const
     {
         return find(ch) != as_derived().cend();
     }
@@ -252,7 +252,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool starts_with(codepoint cp) const noexcept
+    constexpr bool starts_with(codepoint cp) const
     {
         return !empty() && front() == cp;
     }
@@ -388,7 +388,7 @@ protected:
         }
     }
 
-    constexpr codepoint cp_from_off(size_type off) const noexcept
+    constexpr codepoint cp_from_off(size_type off) const
     {
         string_view_type str = get_view();
         if(off >= str.size()) [[unlikely]]
@@ -559,7 +559,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool ends_with(codepoint cp) const noexcept
+    constexpr bool ends_with(codepoint cp) const
     {
         return !this->empty() && this->back() == cp;
     }
@@ -662,25 +662,25 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -705,7 +705,7 @@ private:
     }
 
     template <typename Other>
-    constexpr int compare_impl(const Other& other) const noexcept
+    constexpr int compare_impl(const Other& other) const
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -798,43 +798,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, basic_string_ref<U> r
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
@@ -1212,31 +1212,31 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(const basic_string_container<U>& other) const noexcept
+    constexpr int compare(const basic_string_container<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -1272,17 +1272,17 @@ public:
     public:
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        constexpr operator codepoint() const
         {
             return m_str->cp_from_off(m_offset);
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const
         {
             return static_cast<codepoint>(*this);
         }
@@ -1576,7 +1576,7 @@ private:
     }
 
     template <typename U>
-    constexpr int compare_impl(basic_string_ref<U> other) const noexcept
+    constexpr int compare_impl(basic_string_ref<U> other) const
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -1655,43 +1655,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, const basic_string_co
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs)
 {
     return basic_string_ref(lhs).compare(rhs) <=> 0;
 }
-- 
2.43.0


From 3be9d09b82d13b1bcb31b2d2407a8ccdc8e27e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 13/71] fix: fixed_flat_map::find does not dereference the end
 iterator

---
 include/papilio/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..afa6d48 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1378,28 +1378,28 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
-- 
2.43.0


From 523ad131a0b4a20fbaaac98640f5044d81be720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 14/71] fix: strings compare when a view, std::string or C
 string is on the left

---
 include/papilio/utf/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index c30be4e..39a2e62 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -812,7 +812,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -824,7 +824,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_s
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -836,7 +836,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::b
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT using string_ref = basic_string_ref<char>;
@@ -1669,7 +1669,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1681,7 +1681,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1693,7 +1693,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs)
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT using string_container = basic_string_container<char>;
-- 
2.43.0


From c61d7f5a201f6c9aec182b8e23029edd1ea699de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 15/71] fix: assigning repeated characters replaces the text of
 a string container

---
 include/papilio/utf/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 39a2e62..d9b0373 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -966,11 +966,13 @@ public:
     {
         string_type& str = to_str();
         str.assign(count, ch);
+        return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
     {
         string_type& str = to_str();
+        str.clear();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
-- 
2.43.0


From 1f9756084bf8a9b6128d53006330af8ce91a8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 16/71] fix: null_terminated() of a string container that
 refers to nothing

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index d9b0373..a9c6dc4 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1120,7 +1120,7 @@ public:
     bool null_terminated() const noexcept
     {
         auto v = this->get_view();
-        return *(v.data() + v.size()) == static_cast<CharT>(0);
+        return v.data() && *(v.data() + v.size()) == static_cast<CharT>(0);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 2d0e73f1b50866234705528089e693b51b18b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 17/71] fix: an unpaired surrogate in a format string is
 reported by an exception, not by termination

---
 include/papilio/core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..1b89910 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3215,12 +3215,12 @@ protected:
     }
 
     // Skips white spaces
-    static iterator skip_ws(iterator start, iterator stop) noexcept
+    static iterator skip_ws(iterator start, iterator stop)
     {
         return std::find_if_not(start, stop, utf::is_whitespace);
     }
 
-    static iterator find_field_name_end(iterator start, iterator stop, bool first = true) noexcept
+    static iterator find_field_name_end(iterator start, iterator stop, bool first = true)
     {
         while(start != stop)
         {
@@ -3365,7 +3365,7 @@ protected:
         }
     }
 
-    static iterator skip_string(iterator start, iterator stop) noexcept
+    static iterator skip_string(iterator start, iterator stop)
     {
         bool esc = false;
         while(start != stop)
@@ -4253,7 +4253,7 @@ namespace detail
          * @param stop The end iterator.
          * @return True if the iterator is at the end of the parsing context or at a closing brace, otherwise false.
         */
-        static bool check_stop(iterator start, iterator stop) noexcept
+        static bool check_stop(iterator start, iterator stop)
         {
             return start == stop || *start == U'}';
         }
-- 
2.43.0


From 48db9f198a41c4bd893cb0a0e6b84521a021dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 18/71] fix: numbers in a format string that are too large to
 represent are rejected

---
 include/papilio/core.hpp | 53 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1b89910..11b1f2b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3319,6 +3319,8 @@ protected:
         bool negative = false;
         if(*start == U'-')
         {
+            if constexpr(!std::is_signed_v<T>)
+                throw std::out_of_range("integer value out of range");
             negative = true;
             ++start;
         }
@@ -3329,17 +3331,23 @@ protected:
             if(!utf::is_digit(ch))
                 break;
 
-            value *= 10;
-            value += ch - U'0';
-            ++start;
-        }
-
-        if(negative)
-        {
-            if constexpr(std::is_signed_v<T>)
-                value = -value;
+            // Accumulate with the final sign, so that the minimum value is representable
+            const T digit = static_cast<T>(ch - U'0');
+            constexpr T max_val = std::numeric_limits<T>::max();
+            constexpr T min_val = std::numeric_limits<T>::min();
+            if(negative)
+            {
+                if(value < static_cast<T>((min_val + digit) / 10))
+                    throw std::out_of_range("integer value out of range");
+                value = static_cast<T>(value * 10 - digit);
+            }
             else
-                throw std::out_of_range("integer value out of range");
+            {
+                if(value > static_cast<T>((max_val - digit) / 10))
+                    throw std::out_of_range("integer value out of range");
+                value = static_cast<T>(value * 10 + digit);
+            }
+            ++start;
         }
 
         return std::make_pair(value, start);
@@ -4086,22 +4094,11 @@ private:
 
         if(char32_t first_ch = *start; utf::is_digit(first_ch))
         {
-            std::size_t idx = static_cast<std::size_t>(first_ch - U'0');
-            ++start;
-
-            while(start != stop)
-            {
-                char32_t ch = *start;
-                if(!utf::is_digit(ch))
-                    break;
+            ssize_t idx = 0;
+            std::tie(idx, start) = my_base::template parse_integer<ssize_t>(start, stop);
 
-                idx *= 10;
-                idx += static_cast<std::size_t>(ch - U'0');
-                ++start;
-            }
-
-            ctx.check_arg_id(idx);
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            ctx.check_arg_id(static_cast<std::size_t>(idx));
+            return std::make_pair(ctx.get_args()[idx], start);
         }
         else if(my_base::is_field_name_ch(first_ch, true))
         {
@@ -4323,8 +4320,10 @@ namespace detail
                     char32_t ch = *start;
                     if(!utf::is_digit(ch))
                         break;
-                    val *= 10;
-                    val += static_cast<std::size_t>(ch - U'0');
+                    const std::size_t digit = static_cast<std::size_t>(ch - U'0');
+                    if(val > (std::numeric_limits<std::size_t>::max() - digit) / 10)
+                        throw format_error("invalid format");
+                    val = val * 10 + digit;
 
                     ++start;
                 }
-- 
2.43.0


From 1d0b41d9d389161753e4fa4aa0e9bd8c870cc74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 19/71] fix: an unterminated string in a format string is
 rejected instead of read past

---
 include/papilio/core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 11b1f2b..7b1581c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3439,7 +3439,7 @@ protected:
                     else if(ch == U'\'')
                     {
                         ++it; // skip '\''
-                        break;
+                        return std::make_pair(std::move(result), it);
                     }
                     else
                     {
@@ -3447,7 +3447,7 @@ protected:
                     }
                 }
 
-                return std::make_pair(std::move(result), it);
+                throw_end_of_string();
             }
             else if(ch == U'\'')
             {
@@ -3455,6 +3455,9 @@ protected:
             }
         }
 
+        if(it == stop) [[unlikely]]
+            throw_end_of_string();
+
         return std::make_pair(
             string_container_type(start, it),
             std::next(it) // +1 to skip '\''
-- 
2.43.0


From 0806c36be40b1763d277ca38d33f42048dd54e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 20/71] fix: an index at the end of a format string is not read
 past

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7b1581c..e98e8cf 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3483,7 +3483,7 @@ protected:
                 start, stop
             );
 
-            if(*next_it == U':')
+            if(next_it != stop && *next_it == U':')
             {
                 ++next_it;
                 if(next_it == stop) [[unlikely]]
-- 
2.43.0


From f0ad6e763176953ce150c4000b2a9016548107c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 21/71] fix: slicing a contiguous range never begins before its
 first element

---
 include/papilio/accessor/ranges.hpp | 3 +++
 include/papilio/utility.hpp         | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..740f3ce 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -99,6 +99,9 @@ struct contiguous_range_accessor
         else if(std::cmp_greater(s.second, sz))
             s.second = static_cast<ssize_t>(sz);
 
+        if(s.first < 0)
+            s.first = 0;
+
         if(s.first >= s.second)
             return format_arg_type();
 
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..95b739d 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -208,8 +208,8 @@ public:
     [[nodiscard]]
     constexpr size_type length() const noexcept
     {
-        PAPILIO_ASSERT(first > 0);
-        PAPILIO_ASSERT(second > 0);
+        PAPILIO_ASSERT(first >= 0);
+        PAPILIO_ASSERT(second >= first);
         PAPILIO_ASSERT(second != npos);
         return static_cast<size_type>(second - first);
     }
-- 
2.43.0


From 71b127e1a40cea22305f02d81aa2a46a23a24821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 22/71] fix: indexing a map refers to the mapped value and
 never narrows the key

---
 include/papilio/accessor/ranges.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index 740f3ce..2dc7c57 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -214,10 +214,14 @@ struct map_accessor
                 return format_arg_type();
         }
 
+        // Indices that cannot be represented by the key type
+        if(static_cast<ssize_t>(static_cast<key_type>(i)) != i)
+            return format_arg_type();
+
         auto it = m.find(static_cast<key_type>(i));
-        return it != m.end() ?
-                   static_cast<mapped_type>(it->second) :
-                   format_arg_type();
+        if(it == m.end())
+            return format_arg_type();
+        return it->second;
     }
 
     [[nodiscard]]
@@ -227,16 +231,16 @@ struct map_accessor
         if constexpr(is_transparent_v<typename MapType::key_compare>)
         {
             auto it = m.find(k);
-            return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
-                       format_arg_type();
+            if(it == m.end())
+                return format_arg_type();
+            return it->second;
         }
         else
         {
             auto it = m.find(static_cast<key_type>(k));
-            return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
-                       format_arg_type();
+            if(it == m.end())
+                return format_arg_type();
+            return it->second;
         }
     }
 
-- 
2.43.0


From 8595573c54122295a35e72e8e4e343df415d1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 23/71] fix: characters are padded with left alignment unless
 another is given

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e98e8cf..fa98429 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5101,6 +5101,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From 242cfa2dc7c580a77eb4c01fedb019f5f2eb19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 24/71] fix: argument and attribute names may contain every
 uppercase letter

---
 src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.cpp b/src/core.cpp
index 5cbaee3..6adfae0 100644
--- a/src/core.cpp
+++ b/src/core.cpp
@@ -137,7 +137,7 @@ bool script_base::is_field_name_ch(char32_t ch, bool first) noexcept
         return false;
 
     return digit ||
-           (U'A' <= ch && ch <= U'A') ||
+           (U'A' <= ch && ch <= U'Z') ||
            (U'a' <= ch && ch <= U'z') ||
            ch == U'_' ||
            ch >= 128;
-- 
2.43.0


From 5433e1a21e548ede058289f06c63c2d8fa396f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 25/71] fix: an invalid specification in a branch that is not
 taken throws instead of terminating the program

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index fa98429..e2d08f9 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2921,7 +2921,7 @@ struct formatter_traits
      * @param parse_ctx Parse context
      */
     template <typename ParseContext>
-    static void skip_spec(ParseContext& parse_ctx) noexcept
+    static void skip_spec(ParseContext& parse_ctx)
     {
         if constexpr(parsable<ParseContext>())
         {
-- 
2.43.0


From 6e08a65ef1115e57451f65294187e33dd17ba99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 26/71] fix: a format specification without the preceding colon
 is rejected

---
 include/papilio/core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e2d08f9..423693e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3788,6 +3788,8 @@ private:
             my_base::throw_end_of_string();
         if(*next_it == U':')
             ++next_it;
+        else if(*next_it != U'}') [[unlikely]]
+            my_base::throw_error(script_error_code::invalid_field_name, next_it);
 
         parse_ctx.advance_to(next_it);
         arg.skip_spec(parse_ctx);
@@ -3960,6 +3962,8 @@ private:
             my_base::throw_end_of_string();
         if(*next_it == U':')
             ++next_it;
+        else if(*next_it != U'}') [[unlikely]]
+            my_base::throw_error(script_error_code::invalid_field_name, next_it);
 
         parse_ctx.advance_to(next_it);
         arg.format(parse_ctx, fmt_ctx);
-- 
2.43.0


From e5edc38cd9e532f648c2b690efc8179ccf02bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 27/71] fix: only one final alternative of a scripted field is
 accepted and executed

---
 include/papilio/core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 423693e..21d6755 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3945,6 +3945,9 @@ private:
                 start = exec_branch_if(
                     exec_this_branch, parse_ctx, fmt_ctx
                 );
+
+                // Nothing can follow the final alternative
+                break;
             }
         }
 
-- 
2.43.0


From 3e69cc5d1edf6d37d80f675947ffa528cd1ca579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 28/71] fix: a named argument never empties the object it
 refers to and may be passed as an lvalue

---
 include/papilio/core.hpp    | 26 ++++++++++++++------------
 include/papilio/utility.hpp | 18 +++++++++++++++---
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 21d6755..2b61afe 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1788,20 +1788,21 @@ private:
     map_type m_named_args;
 
     template <typename T>
-    requires(!is_named_arg_v<T>)
+    requires(!is_named_arg_v<std::remove_cvref_t<T>>)
     void emplace(T&& val) noexcept(std::is_nothrow_constructible_v<format_arg_type, T>)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
 
     template <typename T>
-    requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
-    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
+    requires(is_named_arg_v<std::remove_cvref_t<T>> && std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>)
+    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename std::remove_cvref_t<T>::value_type>)
     {
-        m_named_args.insert_or_assign(
-            na.name,
-            PAPILIO_NS forward_like<T>(na.value)
-        );
+        // A value passed as an lvalue still belongs to the caller
+        if constexpr(std::is_reference_v<T>)
+            m_named_args.insert_or_assign(na.name, na.value);
+        else
+            m_named_args.insert_or_assign(na.name, na.forward());
     }
 };
 
@@ -1843,14 +1844,15 @@ public:
         if constexpr(is_named_arg_v<std::remove_cvref_t<T>>)
         {
             static_assert(
-                std::is_same_v<char_type, typename T::char_type>,
+                std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>,
                 "Invalid char type"
             );
 
-            m_named_args.emplace(std::make_pair(
-                PAPILIO_NS forward_like<T>(val.name),
-                PAPILIO_NS forward_like<T>(val.value)
-            ));
+            // A value passed as an lvalue still belongs to the caller
+            if constexpr(std::is_reference_v<T>)
+                m_named_args.emplace(string_type(val.name), format_arg_type(val.value));
+            else
+                m_named_args.emplace(string_type(val.name), format_arg_type(val.forward()));
         }
         else
         {
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 95b739d..b1d70ee 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -218,7 +218,7 @@ public:
 /**
  * @brief Proxy of named argument.
  */
-PAPILIO_EXPORT template <typename CharT, typename T>
+PAPILIO_EXPORT template <typename CharT, typename T, bool IsRvalue = false>
 struct basic_named_arg
 {
     static_assert(!std::is_reference_v<T>, "T cannot be a reference");
@@ -247,6 +247,18 @@ struct basic_named_arg
         return value;
     }
 
+    /**
+     * @brief Get the value with the value category it was passed with.
+     */
+    [[nodiscard]]
+    constexpr decltype(auto) forward() const noexcept
+    {
+        if constexpr(IsRvalue)
+            return std::move(value);
+        else
+            return reference(value);
+    }
+
     constexpr operator reference() const noexcept
     {
         return value;
@@ -274,13 +286,13 @@ constexpr inline bool is_named_arg_v = is_named_arg<T>::value;
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const CharT* name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>, !std::is_reference_v<T>>(name, value);
 }
 
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const std::basic_string_view<CharT> name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>, !std::is_reference_v<T>>(name, value);
 }
 
 namespace detail
-- 
2.43.0


From b1a10de7633ad45f2e4da468c300b8b6778755cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 29/71] fix: equal infinities compare equal in script
 conditions

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 2b61afe..249e12c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -732,7 +732,8 @@ private:
 
     static bool equal_impl(float_type epsilon, float_type lhs, float_type rhs) noexcept
     {
-        return std::abs(lhs - rhs) < epsilon;
+        // Infinities are equal to themselves, but their difference is NaN
+        return lhs == rhs || std::abs(lhs - rhs) < epsilon;
     }
 
     template <std::integral T>
-- 
2.43.0


From cdd0529ef11b508df9b3f1cd27107ce9275cb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 30/71] fix: a script variable made from a temporary argument
 keeps the text the argument owned

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 249e12c..40785f2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -456,7 +456,7 @@ private:
             {
                 return convert_arg(std::forward<T>(v));
             },
-            var
+            std::forward<Variant>(var)
         );
     }
 
@@ -584,7 +584,7 @@ public:
     [[nodiscard]]
     variant_type&& to_variant() && noexcept
     {
-        return m_var;
+        return std::move(m_var);
     }
 
     [[nodiscard]]
-- 
2.43.0


From ec90fdc1a1388ed5cbce90205faa3605c463b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 31/71] fix: unsigned integers above the signed range do not
 wrap in script conditions

---
 include/papilio/core.hpp | 42 ++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 40785f2..b029960 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -377,6 +377,7 @@ PAPILIO_EXPORT class variable_base
 {
 public:
     using int_type = std::int64_t;
+    using uint_type = std::uint64_t;
     using float_type = float;
 
 protected:
@@ -407,15 +408,30 @@ public:
     using string_view_type = std::basic_string_view<CharT>;
     using string_container_type = utf::basic_string_container<CharT>;
     using int_type = my_base::int_type;
+    using uint_type = my_base::uint_type;
     using float_type = my_base::float_type;
 
+    // uint_type is only used for the integers that int_type cannot represent
     using variant_type = std::variant<
         bool,
         int_type,
         float_type,
-        string_container_type>;
+        string_container_type,
+        uint_type>;
 
 private:
+    template <std::integral T>
+    static variant_type convert_int(T i) noexcept
+    {
+        if constexpr(std::is_unsigned_v<T> && sizeof(T) >= sizeof(int_type))
+        {
+            if(i > static_cast<T>(std::numeric_limits<int_type>::max()))
+                return variant_type(std::in_place_type<uint_type>, static_cast<uint_type>(i));
+        }
+
+        return variant_type(std::in_place_type<int_type>, static_cast<int_type>(i));
+    }
+
     template <typename T>
     static variant_type convert_arg(T&& arg)
     {
@@ -432,7 +448,7 @@ private:
         }
         else if constexpr(integral<arg_type>)
         {
-            return variant_type(in_place_type<int_type>, arg);
+            return convert_int(arg);
         }
         else if constexpr(floating_point<arg_type>)
         {
@@ -470,7 +486,7 @@ public:
 
     template <std::integral T>
     basic_variable(T i)
-        : m_var(std::in_place_type<int_type>, i)
+        : m_var(convert_int(i))
     {}
 
     template <std::floating_point T>
@@ -525,7 +541,7 @@ public:
     [[nodiscard]]
     bool holds_int() const noexcept
     {
-        return holds<int_type>();
+        return holds<int_type>() || holds<uint_type>();
     }
 
     [[nodiscard]]
@@ -669,7 +685,7 @@ private:
         {
             if constexpr(is_same_v<T, string_container_type>)
                 throw_invalid_conversion();
-            else // bool, int_type, and float_type
+            else // bool, int_type, uint_type, and float_type
                 return static_cast<Target>(v);
         }
         else if constexpr(basic_string_like<Target, CharT>)
@@ -704,8 +720,16 @@ private:
     requires(std::is_arithmetic_v<T> && std::is_arithmetic_v<U>)
     static std::partial_ordering compare_impl(T lhs, U rhs) noexcept
     {
-        using common_t = std::common_type_t<std::remove_cvref_t<T>, std::remove_cvref_t<U>>;
-        return static_cast<common_t>(lhs) <=> static_cast<common_t>(rhs);
+        // An uint_type is always greater than any int_type or bool
+        if constexpr(std::is_same_v<T, uint_type> && std::is_integral_v<U>)
+            return std::partial_ordering::greater;
+        else if constexpr(std::is_integral_v<T> && std::is_same_v<U, uint_type>)
+            return std::partial_ordering::less;
+        else
+        {
+            using common_t = std::common_type_t<std::remove_cvref_t<T>, std::remove_cvref_t<U>>;
+            return static_cast<common_t>(lhs) <=> static_cast<common_t>(rhs);
+        }
     }
 
     template <typename T>
@@ -725,9 +749,7 @@ private:
     template <std::integral T, std::integral U>
     static bool equal_impl(float_type, T lhs, U rhs) noexcept
     {
-        // int_type and bool
-        using common_t = std::common_type_t<T, U>;
-        return static_cast<common_t>(lhs) == static_cast<common_t>(rhs);
+        return std::is_eq(compare_impl(lhs, rhs));
     }
 
     static bool equal_impl(float_type epsilon, float_type lhs, float_type rhs) noexcept
-- 
2.43.0


From c9a7a14e559517db4beac4a8fd13efd0baf73b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 32/71] fix: a precision of zero is not taken for no precision

---
 include/papilio/core.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b029960..e3acd93 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -250,6 +250,13 @@ PAPILIO_EXPORT struct std_formatter_data
     bool fill_zero = false;
     bool alternate_form = false;
     bool use_locale = false;
+    bool use_precision = false; // distinguishes a precision of zero from no precision
+
+    [[nodiscard]]
+    constexpr bool has_precision() const noexcept
+    {
+        return use_precision || precision != 0;
+    }
 
     [[nodiscard]]
     constexpr bool contains_type(char32_t type_ch) const noexcept
@@ -4556,6 +4563,7 @@ public:
 
             ctx.advance_to(start);
             std::tie(result.precision, start) = utils::template parse_value<true>(ctx);
+            result.use_precision = true;
         }
 
         if(utils::check_stop(start, stop))
@@ -5060,17 +5068,19 @@ private:
             return 3;
         }
 
+        bool has_precision = data().has_precision();
         int precision = static_cast<int>(data().precision);
-        if(precision == 0 &&
+        if(!has_precision &&
            U"fFeEgG"sv.find(data().type) != std::u32string::npos)
         {
+            has_precision = true;
             precision = 6;
         }
 
         char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
         char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
 
-        if(precision == 0)
+        if(!has_precision)
             result = std::to_chars(start, stop, val, ch_fmt);
         else
             result = std::to_chars(start, stop, val, ch_fmt, precision);
@@ -5213,7 +5223,7 @@ public:
         std::size_t used = 0; // Used width
 
         // The "precision" for a string means the max width can be used.
-        if(data().precision != 0)
+        if(data().has_precision())
         {
             for(auto it = str.begin(); it != str.end(); ++it)
             {
-- 
2.43.0


From bc802437035124129b9b7a9872806b4408df3e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 33/71] fix: a floating-point value without type and precision
 uses its shortest representation

---
 include/papilio/core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e3acd93..9fc4062 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4897,7 +4897,8 @@ private:
  * - `g`, `G`: General format. The precision will be 6 if not specified.
  * - `e`, `E`: Scientific format. The precision will be 6 if not specified.
  * - `a`, `A`: Hexadecimal format.
- * - none: Same as the general (`g`) format.
+ * - none: Same as the general (`g`) format if the precision is specified,
+ *         otherwise the shortest representation that reads back as the same value.
  *
  * The uppercase types will replace all letters with their uppercase version.
  * For example, `E` format will use the letter E to indicate the exponent.
@@ -5080,7 +5081,9 @@ private:
         char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
         char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
 
-        if(!has_precision)
+        if(!has_precision && data().type == U'\0')
+            result = std::to_chars(start, stop, val); // shortest representation
+        else if(!has_precision)
             result = std::to_chars(start, stop, val, ch_fmt);
         else
             result = std::to_chars(start, stop, val, ch_fmt, precision);
-- 
2.43.0


From 198adb11cde159109b2c2bb4affdce8271bc627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:55 +0000
Subject: [PATCH 34/71] fix: floating-point values with a long text are
 formatted instead of rejected

---
 include/papilio/core.hpp | 48 +++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 9fc4062..7a0b215 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4925,7 +4925,7 @@ public:
     {
         using context_t = format_context_traits<FormatContext>;
 
-        CharT buf[buf_size];
+        std::basic_string<CharT> buf(buf_size, CharT());
 
         std::size_t fp_size = 0;
 
@@ -4977,7 +4977,7 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        context_t::append(ctx, buf, buf + fp_size);
+        context_t::append(ctx, buf.data(), buf.data() + fp_size);
 
         fill(ctx, right);
 
@@ -4985,7 +4985,7 @@ public:
     }
 
 private:
-    static constexpr std::size_t buf_size = 32;
+    static constexpr std::size_t buf_size = 32; // initial size
 
     std::pair<std::chars_format, bool> get_chars_fmt() const
     {
@@ -5029,7 +5029,7 @@ private:
     }
 
     template <char8_like U>
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
+    std::size_t conv(std::basic_string<U>& buf, T val) const
     {
         using namespace std::literals;
 
@@ -5069,6 +5069,11 @@ private:
             return 3;
         }
 
+        if(std::cmp_greater(data().precision, std::numeric_limits<int>::max())) [[unlikely]]
+        {
+            throw format_error("value too large");
+        }
+
         bool has_precision = data().has_precision();
         int precision = static_cast<int>(data().precision);
         if(!has_precision &&
@@ -5078,21 +5083,24 @@ private:
             precision = 6;
         }
 
-        char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
-        char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
+        while(true)
+        {
+            char* start = std::bit_cast<char*>(buf.data());
+            char* stop = start + buf.size();
 
-        if(!has_precision && data().type == U'\0')
-            result = std::to_chars(start, stop, val); // shortest representation
-        else if(!has_precision)
-            result = std::to_chars(start, stop, val, ch_fmt);
-        else
-            result = std::to_chars(start, stop, val, ch_fmt, precision);
+            if(!has_precision && data().type == U'\0')
+                result = std::to_chars(start, stop, val); // shortest representation
+            else if(!has_precision)
+                result = std::to_chars(start, stop, val, ch_fmt);
+            else
+                result = std::to_chars(start, stop, val, ch_fmt, precision);
 
-        if(result.ec == std::errc::value_too_large) [[unlikely]]
-        {
-            throw format_error("value too large");
+            if(result.ec != std::errc::value_too_large) [[likely]]
+                break;
+            buf.resize(buf.size() * 2); // the text does not fit
         }
-        else if(result.ec != std::errc())
+
+        if(result.ec != std::errc())
         {
             PAPILIO_UNREACHABLE();
         }
@@ -5115,13 +5123,13 @@ private:
 
     template <typename U>
     requires(!char8_like<U>)
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
+    std::size_t conv(std::basic_string<U>& buf, T val) const
     {
-        char narrow_buf[buf_size];
+        std::string narrow_buf(buf_size, '\0');
         std::size_t size = conv<char>(narrow_buf, val);
-        PAPILIO_ASSERT(size <= buf.size());
+        PAPILIO_ASSERT(size <= narrow_buf.size());
 
-        std::copy_n(narrow_buf, size, buf.begin());
+        buf.assign(narrow_buf.begin(), narrow_buf.begin() + static_cast<std::ptrdiff_t>(size));
         return size;
     }
 };
-- 
2.43.0


From 477c6c5f9e25e984da0eaf0053354ffae74fa808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:55 +0000
Subject: [PATCH 35/71] fix: the 0 option pads floating-point values

---
 include/papilio/core.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7a0b215..954d3df 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4915,7 +4915,9 @@ public:
 
         data() = dt;
         data().fill = dt.fill_or(U' ');
-        if(data().align == format_align::default_align)
+        if(data().align != format_align::default_align)
+            data().fill_zero = false;
+        else
             data().align = format_align::right;
     }
 
@@ -4953,7 +4955,12 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        auto [left, right] = fill_size(used);
+        // Infinity and NaN are never padded with zeros
+        const bool fill_zero = data().fill_zero && std::isfinite(val);
+
+        auto [left, right] = fill_zero ?
+                                 std::make_pair<std::size_t, std::size_t>(0, 0) :
+                                 fill_size(used);
 
         fill(ctx, left);
 
@@ -4977,6 +4984,9 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
+        if(fill_zero && used < data().width)
+            context_t::append(ctx, static_cast<CharT>('0'), data().width - used);
+
         context_t::append(ctx, buf.data(), buf.data() + fp_size);
 
         fill(ctx, right);
-- 
2.43.0


From 0ee5da890ca617c44d97f0f398efe49a9af37082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 36/71] fix: a precision is rejected where none is available

---
 include/papilio/core.hpp                 | 9 +++++++--
 include/papilio/formatter/filesystem.hpp | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 954d3df..23da693 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4557,6 +4557,9 @@ public:
             goto parse_end;
         if(*start == U'.')
         {
+            if constexpr(!EnablePrecision)
+                throw format_error("invalid precision");
+
             ++start;
             if(start == stop)
                 throw format_error("invalid precision");
@@ -5301,6 +5304,8 @@ public:
         auto [result, it] = parser.parse(ctx, U"sBbXxod");
 
         m_data = result;
+        if(m_data.has_precision() && m_data.type_or(U's') != U's')
+            throw format_error("invalid precision");
 
 #ifndef PAPILIO_HAS_ENUM_NAME
         // No "enum-to-string" support, fallback to integer representation
@@ -5643,7 +5648,7 @@ public:
     {
         using namespace std::literals;
 
-        using parser_t = std_formatter_parser<ParseContext, false>;
+        using parser_t = std_formatter_parser<ParseContext, true>;
 
         parser_t parser;
 
@@ -5875,7 +5880,7 @@ public:
     {
         using namespace std::literals;
 
-        using parser_t = std_formatter_parser<ParseContext, true>;
+        using parser_t = std_formatter_parser<ParseContext, false>;
 
         parser_t parser;
 
diff --git a/include/papilio/formatter/filesystem.hpp b/include/papilio/formatter/filesystem.hpp
index 4824375..534e39e 100644
--- a/include/papilio/formatter/filesystem.hpp
+++ b/include/papilio/formatter/filesystem.hpp
@@ -39,7 +39,7 @@ public:
     auto parse(ParseContext& ctx)
         -> typename ParseContext::iterator
     {
-        std_formatter_parser<ParseContext, false> parser{};
+        std_formatter_parser<ParseContext, true> parser{};
         auto&& [data, it] = parser.parse(ctx, U"?g");
 
         m_data = data;
-- 
2.43.0


From f3a893e0f8c33c25b49584f79d8b19cc25ccea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 37/71] fix: an integer that is no Unicode scalar value is not
 formatted as a character

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 23da693..574f92f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5611,7 +5611,8 @@ public:
     {
         if(m_data.type == U'c')
         {
-            if(std::cmp_greater(val, std::numeric_limits<std::uint32_t>::max()))
+            if(std::cmp_less(val, 0) || std::cmp_greater(val, 0x10FFFF) ||
+               (std::cmp_greater_equal(val, 0xD800) && std::cmp_less_equal(val, 0xDFFF)))
                 throw format_error("integer value out of range");
 
             codepoint_formatter fmt;
-- 
2.43.0


From 3a757d0678e6155704e7e662c866978c7cbdce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 38/71] fix: enumerations over Boolean and character types are
 formatted as integers

---
 include/papilio/core.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 574f92f..c0091cf 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5321,9 +5321,12 @@ public:
     {
         if(m_data.type_or(U's') != U's')
         {
-            int_formatter<std::underlying_type_t<Enum>, CharT> fmt;
-            fmt.set_data(m_data);
-            return fmt.format(PAPILIO_NS to_underlying(e), ctx);
+            // Promote the types not supported by the integer formatter
+            auto val = PAPILIO_NS to_underlying(e);
+            if constexpr(std::is_same_v<decltype(val), bool> || char_like<decltype(val)>)
+                return format_int(+val, m_data, ctx);
+            else
+                return format_int(val, m_data, ctx);
         }
 #ifdef PAPILIO_HAS_ENUM_NAME
         else
@@ -5359,6 +5362,15 @@ public:
 
 private:
     std_formatter_data m_data{.type = U's'};
+
+    template <std::integral Int, typename FormatContext>
+    static auto format_int(Int val, const std_formatter_data& dt, FormatContext& ctx)
+        -> typename FormatContext::iterator
+    {
+        int_formatter<Int, CharT> fmt;
+        fmt.set_data(dt);
+        return fmt.format(val, ctx);
+    }
 };
 
 /**
-- 
2.43.0


From 5c1623d24f7dbdfcbee490452d26bd1abb64c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 39/71] fix: an enumeration value without an available name is
 formatted as integer

---
 include/papilio/core.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index c0091cf..1635248 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5329,6 +5329,14 @@ public:
                 return format_int(val, m_data, ctx);
         }
 #ifdef PAPILIO_HAS_ENUM_NAME
+        else if(const auto val = +PAPILIO_NS to_underlying(e);
+                std::cmp_less(val, -128) || std::cmp_greater_equal(val, 128))
+        {
+            // The name is unavailable, fallback to integer representation
+            std_formatter_data dt = m_data;
+            dt.type = U'd';
+            return format_int(val, dt, ctx);
+        }
         else
         {
             string_formatter<CharT> fmt;
-- 
2.43.0


From 818c95c5348117b2a413bdd46449fb2a3ce2af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 40/71] fix: debug output shows an invalid byte as that byte
 and a truncated sequence without the text after it

---
 include/papilio/core.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1635248..a791b1b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2513,21 +2513,18 @@ private:
         {
             if(PAPILIO_NS utf::is_leading_byte(str[i]))
             {
-                std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
-                if(i + size_bytes > str.size())
-                {
-                    for(std::size_t j = i; j < str.size(); ++j)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
-                    }
-                    return;
-                }
+                std::size_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
+                // A truncated sequence contains a missing trailing byte
+                const bool truncated = size_bytes > str.size() - i;
+                if(truncated)
+                    size_bytes = str.size() - i;
 
                 if(has_esc_seq<true, false>(str[i]))
                 {
                     append_as_esc_seq<true, false>(ctx, str[i]);
                 }
-                else if(std::all_of(
+                else if(!truncated &&
+                        std::all_of(
                             str.begin() + i + 1,
                             str.begin() + i + size_bytes,
                             &utf::is_trailing_byte
@@ -2562,7 +2559,7 @@ private:
             }
             else
             {
-                append_hex_digits(ctx, str[i], false);
+                append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
                 ++i;
             }
         }
-- 
2.43.0


From ca31b5eb6fd38bd19ff0c7fdc29382df0cb4f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 41/71] fix: debug output does not lose the unit after an
 unpaired high surrogate

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index a791b1b..e56896d 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2587,13 +2587,13 @@ private:
                 else if(!PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
                 {
                     append_hex_digits(ctx, ch, false);
+                    ++i;
                 }
                 else
                 {
                     append(ctx, str.begin() + i, str.begin() + i + 2);
+                    i += 2;
                 }
-
-                i += 2;
             }
             else
             {
-- 
2.43.0


From 115f8d445a0edab0701951891258d8862d47c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 42/71] fix: debug output shows a UTF-32 unit that is no code
 point in hexadecimal

---
 include/papilio/core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e56896d..d7efe37 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2620,6 +2620,11 @@ private:
             {
                 append_as_esc_seq<true, false>(ctx, static_cast<std::uint32_t>(ch));
             }
+            else if(const auto val = static_cast<std::uint32_t>(ch);
+                    val > 0x10FFFF || (0xD800 <= val && val <= 0xDFFF))
+            {
+                append_hex_digits(ctx, val, false);
+            }
             else
             {
                 append(ctx, ch, 1);
-- 
2.43.0


From b507797fb70bf333475ba05757069f50a48e31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 43/71] fix: debug output escapes the delete character

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index d7efe37..ff0c502 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2370,7 +2370,7 @@ other_ch:
                val == '\\' ||
                (DoubleQuote && val == '"') ||
                (SingleQuote && val == '\'') ||
-               val < U' ';
+               val == 0x7F; // DEL
     }
 
 public:
-- 
2.43.0


From cbbc4e0b97055ea2bdb34486261838df99b003d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 44/71] fix: escaped characters and strings are padded and
 truncated as specified

---
 include/papilio/core.hpp | 45 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index ff0c502..4442b5d 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5149,6 +5149,27 @@ private:
     }
 };
 
+namespace detail
+{
+    // Returns the escaped form of a character or a string
+    template <typename CharT, typename T>
+    std::basic_string<CharT> to_escaped(const T& val)
+    {
+        using context_type = basic_format_context<format_iterator_for<CharT>, CharT>;
+        using context_t = format_context_traits<context_type>;
+
+        std::basic_string<CharT> result;
+        const auto args = context_t::make_format_args();
+        context_type ctx(std::back_inserter(result), args);
+        context_t::append_escaped(ctx, val);
+
+        return result;
+    }
+} // namespace detail
+
+template <typename CharT>
+class string_formatter;
+
 /**
  * @brief Base formatter for Unicode code point.
  *
@@ -5185,8 +5206,11 @@ public:
 
         if(data().type == U'?')
         {
-            context_t::append_escaped(ctx, cp, 1);
-            return context_t::out(ctx);
+            using char_type = typename FormatContext::char_type;
+
+            string_formatter<char_type> fmt;
+            fmt.set_data(data());
+            return fmt.format_text(detail::to_escaped<char_type>(cp), ctx);
         }
 
         auto [left, right] = fill_size(cp.estimate_width());
@@ -5238,14 +5262,23 @@ public:
     auto format(string_ref_type str, FormatContext& ctx)
         -> typename FormatContext::iterator
     {
-        using context_t = format_context_traits<FormatContext>;
-
         if(data().type == '?')
         {
-            context_t::append_escaped(ctx, str);
-            return context_t::out(ctx);
+            return format_text(detail::to_escaped<CharT>(str), ctx);
         }
 
+        return format_text(str, ctx);
+    }
+
+    /**
+     * @brief Output text without escaping, truncated and padded as specified.
+     */
+    template <typename FormatContext>
+    auto format_text(string_ref_type str, FormatContext& ctx)
+        -> typename FormatContext::iterator
+    {
+        using context_t = format_context_traits<FormatContext>;
+
         std::size_t used = 0; // Used width
 
         // The "precision" for a string means the max width can be used.
-- 
2.43.0


From 3ccfb112200bb3a3bb28a7cba2c10b1e83b82083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 45/71] fix: debug output shows bytes that form no valid code
 point in hexadecimal

---
 include/papilio/core.hpp | 90 ++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 4442b5d..3d6bb4b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2505,61 +2505,61 @@ public:
 #endif
 
 private:
+    // Returns the length of the valid UTF-8 sequence at the beginning of a non-empty string,
+    // or 0 if the string does not begin with a valid one
+    static std::size_t valid_sequence_length(string_view_type str) noexcept
+        requires(char8_like<char_type>)
+    {
+        const std::uint8_t first = static_cast<std::uint8_t>(str[0]);
+        const std::size_t len = PAPILIO_NS utf::is_leading_byte(first) ?
+                                    PAPILIO_NS utf::byte_count(first) :
+                                    0;
+        if(len > str.size())
+            return 0;
+        if(len == 1)
+            return first <= 0x7F ? 1 : 0;
+
+        for(std::size_t i = 1; i < len; ++i)
+        {
+            if(!PAPILIO_NS utf::is_trailing_byte(static_cast<std::uint8_t>(str[i])))
+                return 0;
+        }
+
+        if(len >= 2)
+        {
+            const std::uint8_t second = static_cast<std::uint8_t>(str[1]);
+            if(first < 0xC2 ||                      // overlong 2-byte sequence
+               (first == 0xE0 && second < 0xA0) ||  // overlong 3-byte sequence
+               (first == 0xED && second >= 0xA0) || // surrogate
+               (first == 0xF0 && second < 0x90) ||  // overlong 4-byte sequence
+               (first == 0xF4 && second >= 0x90) || // beyond U+10FFFF
+               first > 0xF4)
+                return 0;
+        }
+
+        return len;
+    }
+
     static void append_escaped_impl(context_type& ctx, string_view_type str)
         requires(char8_like<char_type>)
     {
         std::size_t i = 0;
         while(i < str.size())
         {
-            if(PAPILIO_NS utf::is_leading_byte(str[i]))
+            const std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
+            if(has_esc_seq<true, false>(ch))
             {
-                std::size_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
-                // A truncated sequence contains a missing trailing byte
-                const bool truncated = size_bytes > str.size() - i;
-                if(truncated)
-                    size_bytes = str.size() - i;
-
-                if(has_esc_seq<true, false>(str[i]))
-                {
-                    append_as_esc_seq<true, false>(ctx, str[i]);
-                }
-                else if(!truncated &&
-                        std::all_of(
-                            str.begin() + i + 1,
-                            str.begin() + i + size_bytes,
-                            &utf::is_trailing_byte
-                        ))
-                {
-                    append(
-                        ctx,
-                        string_view_type(
-                            str.begin() + i,
-                            str.begin() + i + size_bytes
-                        )
-                    );
-                }
-                else
-                {
-                    auto stop = std::find_if_not(
-                        str.begin() + i + 1,
-                        str.begin() + i + size_bytes,
-                        &utf::is_trailing_byte
-                    );
-
-                    for(auto it = str.begin() + i; it != stop; ++it)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(*it), false);
-                    }
-
-                    i += std::distance(str.begin() + i, stop);
-                    continue;
-                }
-
-                i += size_bytes;
+                append_as_esc_seq<true, false>(ctx, ch);
+                ++i;
+            }
+            else if(const std::size_t len = valid_sequence_length(str.substr(i)); len != 0)
+            {
+                append(ctx, str.substr(i, len));
+                i += len;
             }
             else
             {
-                append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
+                append_hex_digits(ctx, ch, false);
                 ++i;
             }
         }
-- 
2.43.0


From e7766c02405750ce6c119957c6b4f09210f47eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 46/71] fix: debug output shows a character that is no code
 point in hexadecimal

---
 include/papilio/core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3d6bb4b..47dca04 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2492,6 +2492,10 @@ public:
             {
                 append_as_esc_seq<false, true>(ctx, ch);
             }
+            else if(ch > 0x10FFFF || (0xD800 <= ch && ch <= 0xDFFF))
+            {
+                append_hex_digits(ctx, ch, false);
+            }
             else
             {
                 advance_to(ctx, cp.append_to_as<char_type>(out(ctx)));
-- 
2.43.0


From 01e9b2e403ceff607a151fccb6662c81f6eed23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 47/71] fix: a second alignment in a format specification is
 rejected

---
 include/papilio/core.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 47dca04..864532d 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4425,7 +4425,8 @@ public:
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start;
+           result.align == format_align::default_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
@@ -4513,7 +4514,8 @@ public:
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start;
+           result.align == format_align::default_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
-- 
2.43.0


From 53efccfeaa494bc6c6e5bab849fa86bbe34fed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:11 +0000
Subject: [PATCH 48/71] fix: chained member access keeps the objects its result
 refers to alive

---
 include/papilio/core.hpp | 69 ++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 864532d..97f2008 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -17,6 +17,7 @@
 #include <span>
 #include <array>
 #include <charconv>
+#include <forward_list>
 #include <typeindex>
 #include "macros.hpp"
 #include "fmtfwd.hpp"
@@ -3603,7 +3604,8 @@ public:
      */
     static std::pair<format_arg_type, iterator> access(parse_context& ctx)
     {
-        return access_impl(ctx, ctx.begin(), ctx.end());
+        access_chain chain;
+        return access_impl(ctx, ctx.begin(), ctx.end(), chain);
     }
 
     class interpreter_context
@@ -3806,21 +3808,26 @@ public:
     }
 
 private:
-    static std::pair<format_arg_type, iterator> access_impl(parse_context& ctx, iterator start, iterator stop)
+    // Intermediate results of a chained access.
+    // The final result may refer to an object owned by one of them.
+    using access_chain = std::forward_list<format_arg_type>;
+
+    static std::pair<format_arg_type, iterator> access_impl(
+        parse_context& ctx, iterator start, iterator stop, access_chain& chain
+    )
     {
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string();
 
         auto [arg, next_it] = parse_field_name(ctx, start, stop);
 
-        std::tie(arg, next_it) = parse_chained_access(arg, next_it, stop);
-
-        return std::make_pair(std::move(arg), next_it);
+        return parse_chained_access(*arg, next_it, stop, chain);
     }
 
     static void skip_repl(parse_context& parse_ctx)
     {
-        auto [arg, next_it] = access(parse_ctx);
+        access_chain chain;
+        auto [arg, next_it] = access_impl(parse_ctx, parse_ctx.begin(), parse_ctx.end(), chain);
 
         if(next_it == parse_ctx.end()) [[unlikely]]
             my_base::throw_end_of_string();
@@ -3997,7 +4004,8 @@ private:
      */
     static void exec_repl(parse_context& parse_ctx, FormatContext& fmt_ctx)
     {
-        auto [arg, next_it] = access(parse_ctx);
+        access_chain chain;
+        auto [arg, next_it] = access_impl(parse_ctx, parse_ctx.begin(), parse_ctx.end(), chain);
 
         if(next_it == parse_ctx.end()) [[unlikely]]
             my_base::throw_end_of_string();
@@ -4010,7 +4018,9 @@ private:
         arg.format(parse_ctx, fmt_ctx);
     }
 
-    static std::pair<variable_type, iterator> parse_variable(parse_context& ctx, iterator start, iterator stop)
+    static std::pair<variable_type, iterator> parse_variable(
+        parse_context& ctx, iterator start, iterator stop, access_chain& chain
+    )
     {
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string();
@@ -4019,7 +4029,7 @@ private:
         if(first_ch == U'{')
         {
             ++start;
-            auto [arg, next_it] = access_impl(ctx, start, stop);
+            auto [arg, next_it] = access_impl(ctx, start, stop, chain);
             if(next_it == stop) [[unlikely]]
                 my_base::throw_end_of_string();
             if(*next_it != U'}') [[unlikely]]
@@ -4075,13 +4085,15 @@ private:
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string();
 
+        access_chain chain;
+
         char32_t first_ch = *start;
         if(first_ch == U'!')
         {
             ++start;
             start = my_base::skip_ws(start, stop);
 
-            auto [var, next_it] = parse_variable(ctx, start, stop);
+            auto [var, next_it] = parse_variable(ctx, start, stop, chain);
             next_it = my_base::skip_ws(next_it, stop);
             if(next_it == stop) [[unlikely]]
                 my_base::throw_end_of_string();
@@ -4093,7 +4105,7 @@ private:
         }
         else if(my_base::is_var_start_ch(first_ch))
         {
-            auto [var, next_it] = parse_variable(ctx, start, stop);
+            auto [var, next_it] = parse_variable(ctx, start, stop, chain);
 
             next_it = my_base::skip_ws(next_it, stop);
             if(next_it == stop) [[unlikely]]
@@ -4112,7 +4124,7 @@ private:
 
                 next_it = my_base::skip_ws(next_it, stop);
 
-                auto [var_2, next_it_2] = parse_variable(ctx, next_it, stop);
+                auto [var_2, next_it_2] = parse_variable(ctx, next_it, stop, chain);
                 next_it = my_base::skip_ws(next_it_2, stop);
 
                 if(next_it == stop) [[unlikely]]
@@ -4133,7 +4145,7 @@ private:
         my_base::throw_error(script_error_code::invalid_condition, start);
     }
 
-    static std::pair<format_arg_type, iterator> parse_field_name(
+    static std::pair<const format_arg_type*, iterator> parse_field_name(
         parse_context& ctx, iterator start, iterator stop
     )
     {
@@ -4146,7 +4158,7 @@ private:
             std::tie(idx, start) = my_base::template parse_integer<ssize_t>(start, stop);
 
             ctx.check_arg_id(static_cast<std::size_t>(idx));
-            return std::make_pair(ctx.get_args()[idx], start);
+            return std::make_pair(std::addressof(ctx.get_args()[idx]), start);
         }
         else if(my_base::is_field_name_ch(first_ch, true))
         {
@@ -4157,7 +4169,7 @@ private:
             string_ref_type name(str_start, str_end);
 
             return std::make_pair(
-                ctx.get_args().get(string_view_type(name)),
+                std::addressof(ctx.get_args().get(string_view_type(name))),
                 str_end
             );
         }
@@ -4165,17 +4177,27 @@ private:
         {
             std::size_t idx = ctx.current_arg_id();
             ctx.next_arg_id();
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            return std::make_pair(std::addressof(ctx.get_args()[static_cast<ssize_t>(idx)]), start);
         }
 
         my_base::throw_error(script_error_code::invalid_field_name, start);
     }
 
     static std::pair<format_arg_type, iterator> parse_chained_access(
-        format_arg_type& base_arg, iterator start, iterator stop
+        const format_arg_type& base_arg, iterator start, iterator stop, access_chain& chain
     )
     {
-        format_arg_type current = base_arg;
+        const format_arg_type* current = std::addressof(base_arg);
+        format_arg_type result;
+
+        // Keep the previous result alive, because the next one may refer to it
+        auto advance_to = [&](auto&& fn)
+        {
+            if(current != std::addressof(base_arg))
+                current = std::addressof(chain.emplace_front(std::move(result)));
+            result = fn(*current);
+            current = std::addressof(result);
+        };
 
         while(start != stop)
         {
@@ -4191,7 +4213,8 @@ private:
                 if(attr_name.empty())
                     my_base::throw_error(script_error_code::invalid_attribute, str_end);
 
-                current = current.attribute(attr_name);
+                advance_to([&](const format_arg_type& arg)
+                           { return arg.attribute(attr_name); });
 
                 start = str_end;
             }
@@ -4205,7 +4228,8 @@ private:
                     my_base::throw_error(script_error_code::invalid_index, next_it);
                 ++next_it;
 
-                current = current.index(idx);
+                advance_to([&, &i = idx](const format_arg_type& arg)
+                           { return arg.index(i); });
 
                 start = next_it;
             }
@@ -4215,7 +4239,10 @@ private:
             }
         }
 
-        return std::make_pair(std::move(current), start);
+        if(current == std::addressof(base_arg))
+            return std::make_pair(base_arg, start);
+
+        return std::make_pair(std::move(result), start);
     }
 };
 
-- 
2.43.0


From 3f4a9c18e8e3a10c4bd81dd42dc433e75181ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:56 +0000
Subject: [PATCH 49/71] fix: the boolean value of a format argument can be
 retrieved

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 97f2008..252a98d 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1531,6 +1531,8 @@ public:
     {
         if constexpr(char_like<T> || std::is_same_v<std::remove_cvref_t<T>, utf::codepoint>)
             return std::get<utf::codepoint>(val.m_val);
+        else if constexpr(std::is_same_v<std::remove_cvref_t<T>, bool>)
+            return std::get<bool>(val.m_val);
         else if constexpr(std::integral<T>)
             return std::get<detail::convert_int_t<T>>(val.m_val);
         else if constexpr(detail::acceptable_fp<T>)
-- 
2.43.0


From 38263645e1622c947adc1b733ea23132a6517875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 50/71] fix: strings in a range or join object are formatted as
 strings

---
 include/papilio/core.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 252a98d..c5d2338 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5952,6 +5952,20 @@ private:
     std_formatter_data m_data;
 };
 
+/**
+ * @brief Formatter for other string types.
+ * It simply redirect all calls to the Unicode string formatter.
+ *
+ * @sa utf::basic_string_container
+ *
+ * @tparam String String type
+ * @tparam CharT Character type
+ */
+PAPILIO_EXPORT template <typename String, typename CharT>
+requires(basic_string_like<String, CharT>)
+class formatter<String, CharT> : public formatter<utf::basic_string_container<CharT>, CharT>
+{};
+
 /**
  * @brief Formatter for pointers.
  *
@@ -6033,6 +6047,7 @@ class formatter<T, CharT> : public enum_formatter<T, CharT>
 {};
 
 template <std::ranges::input_range R, typename CharT>
+requires(!basic_string_like<R, CharT>)
 class formatter<R, CharT> :
     public std::conditional_t<formattable<std::ranges::range_value_t<R>, CharT>, range_formatter<R, CharT>, disabled_formatter>
 {};
-- 
2.43.0


From 7c489d2912accf1c3fc54718d85c187b0f54cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 51/71] fix: an element specification without range options is
 not replaced by the debug format

---
 include/papilio/core.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index c5d2338..485a0ef 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5562,10 +5562,6 @@ public:
             fmt_t::try_set_brackets(m_underlying, string_view_type(), string_view_type());
             fmt_t::try_set_separator(m_underlying, PAPILIO_TSTRING_VIEW(CharT, ": "));
         }
-        else if(m_type == U'\0')
-        {
-            fmt_t::try_set_debug_format(m_underlying);
-        }
         else if(m_type == U's' && m_debug)
             fmt_t::try_set_debug_format(m_underlying);
 
-- 
2.43.0


From 64884267bc1197ccf6c3d698d19f57ddbaf5d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 52/71] fix: ranges and join objects with arrays, optional or
 variant elements can be formatted

---
 include/papilio/core.hpp            | 14 ++++++++++++--
 include/papilio/format.hpp          |  4 ++--
 include/papilio/formatter/tuple.hpp |  2 ++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 485a0ef..b8a0cd4 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5553,7 +5553,8 @@ public:
         {
             ++it;
             ctx.advance_to(it);
-            it = m_underlying.parse(ctx);
+            if constexpr(is_parsable<ParseContext>())
+                it = m_underlying.parse(ctx);
         }
 
         using fmt_t = formatter_traits<underlying_formatter_type>;
@@ -5615,7 +5616,10 @@ end_parse:
             }
             first = false;
 
-            context_t::advance_to(ctx, m_underlying.format(i, ctx));
+            if constexpr(is_parsable<basic_format_parse_context<Context>>())
+                context_t::advance_to(ctx, m_underlying.format(i, ctx));
+            else
+                context_t::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
         }
 
 
@@ -5636,6 +5640,12 @@ private:
     string_view_type m_closing;
     bool m_debug = false;
 
+    template <typename ParseContext>
+    static constexpr bool is_parsable() noexcept
+    {
+        return formatter_traits<underlying_formatter_type>::template parsable<ParseContext>();
+    }
+
     static constexpr range_format get_kind()
     {
         return format_kind<std::remove_cvref_t<R>>;
diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 207b09f..d87c809 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -641,8 +641,8 @@ public:
                     append_sep(fmt_ctx, j);
                 first = false;
 
-                fmt_ctx.advance_to(
-                    PAPILIO_NS format_to(fmt_ctx.out(), "{}", i)
+                format_context_traits<FormatContext>::format_to(
+                    fmt_ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i
                 );
             }
         }
diff --git a/include/papilio/formatter/tuple.hpp b/include/papilio/formatter/tuple.hpp
index 7085346..4f55898 100644
--- a/include/papilio/formatter/tuple.hpp
+++ b/include/papilio/formatter/tuple.hpp
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <ranges>
 #include <tuple>
 #include "../core.hpp"
 #include "../format.hpp"
@@ -50,6 +51,7 @@ namespace detail
 } // namespace detail
 
 PAPILIO_EXPORT template <tuple_like Tuple, typename CharT>
+requires(!std::ranges::input_range<Tuple>)
 class formatter<Tuple, CharT> : public detail::tuple_fmt_base<CharT>
 {
     using my_base = detail::tuple_fmt_base<CharT>;
-- 
2.43.0


From 94f79f2ce36e22d534d100ade89da95dc90b6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:09 +0000
Subject: [PATCH 53/71] fix: assigning a range of code points encodes them

---
 include/papilio/utf/string.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index a9c6dc4..90d3df9 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1043,7 +1043,11 @@ public:
     template <std::ranges::input_range R>
     basic_string_container& assign_range(R&& r) noexcept
     {
-        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
+        // A code point is also convertible to CharT, but needs to be encoded
+        constexpr bool is_codepoint =
+            std::is_same_v<std::remove_cvref_t<std::ranges::range_reference_t<R>>, utf::codepoint>;
+
+        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT> && !is_codepoint)
         {
             string_type buf;
             if constexpr(std::ranges::sized_range<R>)
-- 
2.43.0


From 729de887a5aeea84151d9bbd822fa286ba5d20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:08 +0000
Subject: [PATCH 54/71] fix: the lazy formatted range yields exactly the
 formatted text

---
 include/papilio/format.hpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index d87c809..e172ed7 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -67,7 +67,10 @@ public:
               m_intp(),
               m_intp_ctx(m_intp.create_context(other.m_intp_ctx.input_context(), m_fmt_ctx)),
               m_buf(std::move(other.m_buf)),
-              m_offset(std::exchange(other.m_offset, 0)) {}
+              m_offset(std::exchange(other.m_offset, 0))
+        {
+            m_intp_ctx.advance_input_to(other.m_intp_ctx.input());
+        }
 
         const_iterator(parse_context& ictx)
             : m_fmt_ctx(std::back_inserter(m_buf), ictx.get_args()),
@@ -76,17 +79,21 @@ public:
 
         const_iterator& operator=(const_iterator&& rhs) noexcept
         {
+            if(this == std::addressof(rhs))
+                return *this;
+
             m_fmt_ctx = format_context_type(std::back_inserter(m_buf), rhs.m_intp_ctx.input_context().get_args());
             m_intp_ctx = m_intp.create_context(rhs.m_intp_ctx.input_context(), m_fmt_ctx);
+            m_intp_ctx.advance_input_to(rhs.m_intp_ctx.input());
             m_buf = std::move(rhs.m_buf);
             m_offset = std::exchange(rhs.m_offset, 0);
+
+            return *this;
         }
 
         bool operator==(sentinel_t) const
         {
-            if(m_offset < m_buf.size())
-                return false;
-            return m_intp_ctx.input_at_end();
+            return !fetch();
         }
 
         /**
@@ -105,14 +112,28 @@ public:
 
         CharT operator*() const
         {
-            if(m_offset >= m_buf.size())
-            {
-                m_intp.run_n(m_intp_ctx, m_buf.size() - m_offset + 1);
-            }
+            fetch();
             return m_buf[m_offset];
         }
 
     private:
+        /**
+         * @brief Run the interpreter until the current character is available.
+         *
+         * @return false if the output ends before it. A step may output any number of characters, including none.
+         */
+        bool fetch() const
+        {
+            while(m_offset >= m_buf.size())
+            {
+                if(m_intp_ctx.input_at_end())
+                    return false;
+                m_intp.run_once(m_intp_ctx);
+            }
+
+            return true;
+        }
+
         mutable format_context_type m_fmt_ctx;
         mutable intp_t m_intp;
         mutable intp_ctx_t m_intp_ctx;
-- 
2.43.0


From 623f7e6ceac1d260fce86e4ff4bffe5adda8da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:08 +0000
Subject: [PATCH 55/71] fix: format_to accepts a constant locale

---
 include/papilio/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index e172ed7..5db819d 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -199,7 +199,7 @@ OutputIt format_to(OutputIt out, format_string<Args...> fmt, Args&&... args)
 PAPILIO_EXPORT template <typename OutputIt, typename... Args>
 OutputIt format_to(
     OutputIt out,
-    std::locale& loc,
+    const std::locale& loc,
     format_string<Args...> fmt,
     Args&&... args
 )
@@ -231,7 +231,7 @@ OutputIt format_to(
 PAPILIO_EXPORT template <typename OutputIt, typename... Args>
 OutputIt format_to(
     OutputIt out,
-    std::locale& loc,
+    const std::locale& loc,
     wformat_string<Args...> fmt,
     Args&&... args
 )
-- 
2.43.0


From 7031902e328afd35ce6d7e30587d5e225babd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 56/71] fix: format_to for char8_t, char16_t and char32_t
 compiles

---
 include/papilio/xchar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/xchar.hpp b/include/papilio/xchar.hpp
index f9b2007..d0b7cc9 100644
--- a/include/papilio/xchar.hpp
+++ b/include/papilio/xchar.hpp
@@ -60,7 +60,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char8_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -157,7 +157,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char16_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -255,7 +255,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char32_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
-- 
2.43.0


From d849c19f5f1a8b2601780284f219d58ad897c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 57/71] fix: the type of a handle can be queried

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b8a0cd4..d3bb1dd 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1206,7 +1206,7 @@ public:
         }
 
         [[nodiscard]]
-        std::type_info type()
+        const std::type_info& type() const noexcept
         {
             return ptr()->type();
         }
-- 
2.43.0


From 4b1e5b7c2fdb62f52e0f00fe261fc17f1e9fcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 58/71] fix: copying a non-constant handle does not create a
 handle to the handle

---
 include/papilio/core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index d3bb1dd..5bf9f64 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1133,6 +1133,7 @@ public:
         }
 
         template <typename T>
+        requires(!std::is_same_v<std::remove_cvref_t<T>, handle>)
         explicit handle(T&& val) noexcept
             : handle()
         {
-- 
2.43.0


From 41c34e83ed80ce1a838c75d26be4bd31fdafffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 59/71] fix: an exception while copying an object into a format
 argument is passed on

---
 include/papilio/core.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 5bf9f64..5211b71 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1118,16 +1118,14 @@ public:
     class handle
     {
     public:
-        handle() noexcept = default;
+        handle() = delete;
 
         handle(const handle& other) noexcept
-            : handle()
         {
             other.copy(*this);
         }
 
         handle(handle&& other) noexcept
-            : handle()
         {
             other.move(*this);
         }
@@ -1135,14 +1133,12 @@ public:
         template <typename T>
         requires(!std::is_same_v<std::remove_cvref_t<T>, handle>)
         explicit handle(T&& val) noexcept
-            : handle()
         {
             construct<T>(std::forward<T>(val));
         }
 
         template <typename T>
         handle(independent_t, T&& val)
-            : handle()
         {
             construct<T>(independent, std::forward<T>(val));
         }
@@ -1397,7 +1393,7 @@ public:
 
     template <typename T>
     requires(use_handle_v<T>)
-    basic_format_arg(independent_t, T&& val) noexcept
+    basic_format_arg(independent_t, T&& val)
         : m_val(std::in_place_type<handle>, independent, std::forward<T>(val))
     {}
 
-- 
2.43.0


From 55c95cf7a4c79564912a094c6e3b2144ae9493de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 60/71] fix: a small_vector can be copied and its allocator
 retrieved

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index afa6d48..716dc8f 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -568,6 +568,11 @@ private:
         return m_data.second();
     }
 
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
-- 
2.43.0


From 4bad99888b7d9064bdfb9141f693cd1f8ccc951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 61/71] fix: appending a range to a small_vector reserves room
 for all elements

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 716dc8f..f8e5c40 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -858,7 +858,7 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From 12270c9faaba2b2abf1a47df32a3e2db7ae31a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 62/71] fix: elements of a small_vector can be inserted into it
 again

---
 include/papilio/container.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index f8e5c40..ff5487d 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,8 +441,12 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // The arguments may refer to an element of this container
+            value_type tmp(std::forward<Args>(args)...);
+
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+            return emplace_back_impl(std::move(tmp));
         }
         return emplace_back_impl(std::forward<Args>(args)...);
     }
@@ -496,9 +500,19 @@ public:
         }
         else if(count > this->size())
         {
-            reserve(count);
-            while(this->size() != count)
-                emplace_back_impl(val);
+            if(count > this->capacity())
+            {
+                // The value may be an element of this container
+                value_type tmp(val);
+                reserve(count);
+                while(this->size() != count)
+                    emplace_back_impl(tmp);
+            }
+            else
+            {
+                while(this->size() != count)
+                    emplace_back_impl(val);
+            }
         }
     }
 
@@ -631,14 +645,16 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
-        reserve(this->size() + 1);
-
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back(std::forward<Args>(args)...);
             return std::prev(this->end());
         }
 
+        // The arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
+        reserve(this->size() + 1);
+
         emplace_back_impl(std::move(this->back()));
 
         auto move_dst = std::prev(this->end());
@@ -646,7 +662,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
-- 
2.43.0


From 032709ae264f1f89676b1b82102d64f093714ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 63/71] fix: elements of a fixed_vector can be inserted into it
 again

---
 include/papilio/container.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index ff5487d..2b0c3b4 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1097,6 +1097,9 @@ public:
             throw_length_error();
         }
 
+        // The arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
+
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1107,7 +1110,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 43e9af4671786c147c28ad4a1b5a574e83e10a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 64/71] fix: try_emplace accepts any number of arguments

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 2b0c3b4..48e019f 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1389,7 +1389,7 @@ public:
             pos,
             std::piecewise_construct,
             std::forward_as_tuple(k),
-            std::forward_as_tuple(std::forward<Args>(args))...
+            std::forward_as_tuple(std::forward<Args>(args)...)
         );
         return std::make_pair(
             pos, true
-- 
2.43.0


From fc86fa128766f6eb0d2bf6d57a9f4b2ed70c9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 65/71] fix: a small_vector keeps track of its elements when
 moving one of them throws

---
 include/papilio/container.hpp | 46 +++++++++--------------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 48e019f..601a3cb 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -305,12 +305,7 @@ public:
 
     small_vector(small_vector&& other) noexcept(std::is_nothrow_move_constructible_v<value_type>)
         requires std::is_nothrow_move_constructible_v<Allocator>
-        : my_base(),
-          m_data(
-              std::piecewise_construct,
-              std::forward_as_tuple(),
-              std::forward_as_tuple(std::move(other.get_alloc()))
-          )
+        : small_vector(other.get_alloc())
     {
         if(other.dynamic_allocated())
         {
@@ -321,8 +316,6 @@ public:
         }
         else [[likely]]
         {
-            set_ptrs(getbuf(), static_capacity());
-
             PAPILIO_ASSERT(other.size() <= this->capacity());
             for(auto&& i : other)
             {
@@ -708,29 +701,14 @@ private:
             return;
         }
 
-        pointer tmp_ptr = m_p_begin;
         size_type tmp_size = this->size();
-        size_type tmp_capacity = this->capacity();
 
-        set_ptrs(getbuf(), static_capacity());
-
-        try
-        {
-            std::uninitialized_move_n(tmp_ptr, tmp_size, m_p_begin);
-            std::destroy_n(tmp_ptr, tmp_size);
-        }
-        catch(...)
-        {
-            std::allocator_traits<Allocator>::deallocate(
-                get_alloc(), tmp_ptr, tmp_capacity
-            );
-            throw;
-        }
+        // If this throws, the elements stay where they are
+        std::uninitialized_move_n(m_p_begin, tmp_size, getbuf());
 
-        std::allocator_traits<Allocator>::deallocate(
-            get_alloc(), tmp_ptr, tmp_capacity
-        );
-        m_p_end = m_p_begin + tmp_size;
+        destroy_all();
+        free_mem();
+        set_ptrs(getbuf(), tmp_size, static_capacity());
     }
 
     void shrink_dyn()
@@ -812,15 +790,13 @@ private:
         pointer tmp_p_begin = other.m_p_begin;
         pointer tmp_p_end = other.m_p_end;
         pointer tmp_p_capacity = other.m_p_capacity;
-        other.set_ptrs(other.getbuf(), static_capacity());
+        size_type tmp_size = this->size();
+
+        // If this throws, both containers keep their elements
+        std::uninitialized_move_n(m_p_begin, tmp_size, other.getbuf());
 
-        for(size_type i = 0; i < this->size(); ++i)
-        {
-            other.emplace_back_impl(
-                std::move(*(m_p_begin + i))
-            );
-        }
         destroy_all();
+        other.set_ptrs(other.getbuf(), tmp_size, static_capacity());
 
         set_ptrs(tmp_p_begin, tmp_p_end, tmp_p_capacity);
     }
-- 
2.43.0


From c27ecfa1564ad06b18c4b363cddffeff2c58586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 66/71] fix: a fixed_vector whose construction fails destroys
 the elements constructed so far

---
 include/papilio/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 601a3cb..f783829 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -904,6 +904,7 @@ public:
         : m_size(0) {}
 
     fixed_vector(const fixed_vector& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -912,6 +913,7 @@ public:
     }
 
     fixed_vector(fixed_vector&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -920,6 +922,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From 4c0332e951091d06bdd679839a1c5b8307566a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:05 +0000
Subject: [PATCH 67/71] fix: the exception specification of the swap function
 of small_vector does not use itself

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index f783829..c0cf5a8 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -544,7 +544,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From 27ca71f7569d76c8e79117292c0dc2f92d494eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:34 +0000
Subject: [PATCH 68/71] fix: optional_unique_ptr can be assigned and swapped,
 and keeps its deleter when moved

---
 include/papilio/memory.hpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..94842b6 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -178,7 +178,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
@@ -205,7 +205,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(get() != other.get())
+        {
+            reset(other.get(), false);
+            m_del = other.get_deleter();
+        }
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != std::addressof(other))
+            optional_unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -275,11 +286,11 @@ public:
         return std::exchange(m_ptr, pointer());
     }
 
-    template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
@@ -356,7 +367,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     template <typename U>
@@ -379,7 +390,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(get() != other.get())
+        {
+            reset(other.get(), false);
+            m_del = other.get_deleter();
+        }
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != std::addressof(other))
+            optional_unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -444,11 +466,11 @@ public:
         return std::exchange(m_ptr, pointer());
     }
 
-    template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
-- 
2.43.0


From c28457ed341c0661bd572eb00377db9a186e3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:34 +0000
Subject: [PATCH 69/71] fix: an optional_unique_ptr to an array takes over the
 array of a unique_ptr

---
 include/papilio/memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 94842b6..49eabec 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -361,7 +361,7 @@ public:
           m_has_ownership(false) {}
 
     template <typename D>
-    optional_unique_ptr(const optional_unique_ptr<T, D>& other)
+    optional_unique_ptr(const optional_unique_ptr<T[], D>& other)
         : m_ptr(other.m_ptr), m_del(), m_has_ownership(false)
     {}
 
@@ -377,10 +377,10 @@ public:
     {}
 
     template <typename D>
-    optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
+    optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
@@ -434,7 +434,7 @@ public:
     }
 
     template <typename D>
-    void reset(std::unique_ptr<T, D>&& ptr) noexcept
+    void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
-- 
2.43.0


From 95b29368241a181539bcbaf3ac2d869a4b3e9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:34 +0000
Subject: [PATCH 70/71] fix: a null optional_unique_ptr owns nothing

---
 include/papilio/memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 49eabec..1b02adc 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -184,12 +184,12 @@ public:
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(ownership) {}
+          m_has_ownership(ownership && static_cast<bool>(m_ptr)) {}
 
     optional_unique_ptr(independent_t, pointer ptr) noexcept
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(true) {}
+          m_has_ownership(static_cast<bool>(m_ptr)) {}
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
@@ -373,7 +373,7 @@ public:
     template <typename U>
     requires detail::optional_arr_ptr_acceptable<U, pointer, element_type>
     optional_unique_ptr(U ptr, bool ownership) noexcept
-        : m_ptr(ptr), m_del(), m_has_ownership(ownership)
+        : m_ptr(ptr), m_del(), m_has_ownership(ownership && static_cast<bool>(m_ptr))
     {}
 
     template <typename D>
-- 
2.43.0


From ee3462c8546f910c29beedab9ea82a85842016f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:34 +0000
Subject: [PATCH 71/71] fix: optional_unique_ptr uses the deleter of the
 unique_ptr it takes over

---
 include/papilio/memory.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 1b02adc..80ee077 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -172,7 +172,8 @@ public:
 
     template <typename D>
     optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr),
+        : m_ptr(other.get()),
+          m_del(),
           m_has_ownership(false)
     {}
 
@@ -192,8 +193,9 @@ public:
           m_has_ownership(static_cast<bool>(m_ptr)) {}
 
     template <typename D>
+    requires std::is_constructible_v<Deleter, D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(ptr.release()), m_del(std::forward<D>(ptr.get_deleter()))
     {
         m_has_ownership = m_ptr;
     }
@@ -254,12 +256,14 @@ public:
     }
 
     template <typename D>
+    requires std::is_assignable_v<Deleter&, D>
     void reset(std::unique_ptr<T, D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
         {
             m_ptr = ptr.release();
+            m_del = std::forward<D>(ptr.get_deleter());
             m_has_ownership = true;
         }
     }
@@ -362,7 +366,7 @@ public:
 
     template <typename D>
     optional_unique_ptr(const optional_unique_ptr<T[], D>& other)
-        : m_ptr(other.m_ptr), m_del(), m_has_ownership(false)
+        : m_ptr(other.get()), m_del(), m_has_ownership(false)
     {}
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
@@ -377,8 +381,9 @@ public:
     {}
 
     template <typename D>
+    requires std::is_constructible_v<Deleter, D>
     optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(ptr.release()), m_del(std::forward<D>(ptr.get_deleter()))
     {
         m_has_ownership = static_cast<bool>(m_ptr);
     }
@@ -434,12 +439,14 @@ public:
     }
 
     template <typename D>
+    requires std::is_assignable_v<Deleter&, D>
     void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
         {
             m_ptr = ptr.release();
+            m_del = std::forward<D>(ptr.get_deleter());
             m_has_ownership = true;
         }
     }
-- 
2.43.0

