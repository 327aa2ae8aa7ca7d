From 8be65ce9c5a542e2107ed6c0a6ce485386d13120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:15 +0000
Subject: [PATCH 01/77] fix: base64UrlDecode rejects characters outside the
 alphabet instead of decoding them to garbage

---
 include/HXLibs/net/protocol/codec/Base64Url.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/net/protocol/codec/Base64Url.hpp b/include/HXLibs/net/protocol/codec/Base64Url.hpp
index eff12a9..750b2c8 100644
--- a/include/HXLibs/net/protocol/codec/Base64Url.hpp
+++ b/include/HXLibs/net/protocol/codec/Base64Url.hpp
@@ -106,6 +106,12 @@ inline std::string base64UrlDecode(std::string_view input) {
         throw std::runtime_error("invalid base64 length");
     }
 
+    for (char c : input) {
+        if (kDecodeTable[static_cast<uint8_t>(c)] == 0xFF) [[unlikely]] {
+            throw std::runtime_error("invalid base64 character");
+        }
+    }
+
     std::string out(fullBlocks * 3 + (rem ? rem - 1 : 0), '\0');
 
     const uint8_t* inPtr  = reinterpret_cast<const uint8_t*>(input.data());
-- 
2.43.0


From a95b93d14bc5d283e73966f271ebb8e76499e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 02/77] fix: fromJson decodes surrogate pairs to one UTF-8
 character

---
 include/HXLibs/reflection/json/JsonRead.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 36cfaeb..90de542 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -149,8 +149,22 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
             if (std::distance(it, end) <= 4) [[unlikely]] {
                 throw std::runtime_error(R"(Expected 4 hexadecimal digits)");
             }
-            auto code_point = cv::parseUnicodeHex4(it);
-            cv::encodeUtf8(str, code_point); // 内部会移动 it
+            auto code_point = cv::parseUnicodeHex4(it); // 内部会移动 it
+            if (code_point >= 0xD800 && code_point <= 0xDFFF) {
+                // 代理对: 高位代理之后必须紧跟 \uXXXX 形式的低位代理
+                if (code_point > 0xDBFF || std::distance(it, end) <= 6
+                    || *it != '\\' || *(it + 1) != 'u'
+                ) [[unlikely]] {
+                    throw std::runtime_error("Invalid Unicode surrogate pair");
+                }
+                it += 2;
+                auto trail = cv::parseUnicodeHex4(it);
+                if (trail < 0xDC00 || trail > 0xDFFF) [[unlikely]] {
+                    throw std::runtime_error("Invalid Unicode surrogate pair");
+                }
+                code_point = 0x10000 + ((code_point - 0xD800) << 10) + (trail - 0xDC00);
+            }
+            cv::encodeUtf8(str, code_point);
             return;
         }
         default: str += *it; break;
-- 
2.43.0


From 8a71d2691bbf3c8d8cf5503a081c545268280007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 03/77] fix: fromJson reports truncated documents instead of
 reading past the end or accepting them

---
 include/HXLibs/reflection/json/JsonRead.hpp | 47 ++++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 90de542..2e36194 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -211,6 +211,21 @@ void verifyIn(It&& it, It&& end) {
     [[unlikely]] throw std::runtime_error{"Characters are not as expected"};
 }
 
+/**
+ * @brief 判断当前字符是否为 C, 如果已经到达末尾则抛出异常
+ * @tparam C 
+ * @tparam It 
+ * @param it 
+ * @param end 
+ */
+template <char C, typename It>
+bool isChar(It&& it, It&& end) {
+    if (it == end) [[unlikely]] {
+        throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
+    }
+    return *it == C;
+}
+
 /**
  * @brief 查找下一个在 {Cs...} 中的字符
  * @tparam Cs 
@@ -309,8 +324,8 @@ struct FromJson {
         skipWhiteSpace(it, end);
         // 解析字符串
         verify<'"'>(it, end);
-        while (it != end) {
-            if (*it == '"') [[unlikely]] {
+        for (;;) {
+            if (isChar<'"'>(it, end)) [[unlikely]] {
                 ++it;
                 break;
             }
@@ -330,7 +345,7 @@ struct FromJson {
         verify<'['>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == ']') [[unlikely]] {
+        if (isChar<']'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
@@ -338,11 +353,11 @@ struct FromJson {
         if constexpr (requires (T& t) {
             t.emplace_back();
         }) {
-            while (it != end) {
+            for (;;) {
                 // 把内容移交
                 fromJson(t.emplace_back(), it, end);
                 skipWhiteSpace(it, end);
-                if (*it == ']') {
+                if (isChar<']'>(it, end)) {
                     ++it;
                     break;
                 }
@@ -362,13 +377,13 @@ struct FromJson {
         verify<'['>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == ']') [[unlikely]] {
+        if (isChar<']'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
         // 解析数组 []
         std::size_t idx = 0;
-        while (it != end) {
+        for (;;) {
             if (idx >= t.size()) [[unlikely]] {
                 // 数组没有足够的空间存放数据
                 throw std::runtime_error{"The array doesn't have enough space for data"};
@@ -376,7 +391,7 @@ struct FromJson {
             // 把内容移交
             fromJson(t[idx++], it, end);
             skipWhiteSpace(it, end);
-            if (*it == ']') {
+            if (isChar<']'>(it, end)) {
                 ++it;
                 break;
             }
@@ -391,7 +406,7 @@ struct FromJson {
         verify<'['>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == ']') [[unlikely]] {
+        if (isChar<']'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
@@ -405,7 +420,7 @@ struct FromJson {
                 // 把内容移交
                 fromJson(std::get<I>(t), it, end);
                 skipWhiteSpace(it, end);
-                if (*it == ']') {
+                if (isChar<']'>(it, end)) {
                     ++it;
                     return;
                 }
@@ -423,18 +438,18 @@ struct FromJson {
         verify<'{'>(it, end);
 
         skipWhiteSpace(it, end);
-        if (*it == '}') [[unlikely]] {
+        if (isChar<'}'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
-        while (it != end) {
+        for (;;) {
             auto& val = insertOrAssign(t, it, end);
             skipWhiteSpace(it, end);
             verify<':'>(it, end);
             fromJson(val, it, end);
 
             skipWhiteSpace(it, end);
-            if (*it == '}') {
+            if (isChar<'}'>(it, end)) {
                 ++it;
                 break;
             }
@@ -454,7 +469,7 @@ struct FromJson {
     
         skipWhiteSpace(it, end);
         // 不太可能是空的
-        if (*it == '}') [[unlikely]] {
+        if (isChar<'}'>(it, end)) [[unlikely]] {
             ++it;
             return;
         }
@@ -463,7 +478,7 @@ struct FromJson {
         if constexpr (N > 0) {
             static const auto nameHash = reflection::makeNameToIdxVariantHashMap<T>();
             // 需要 name -> idx 映射
-            while (it != end) {
+            for (;;) {
                 auto key = findKey(it, end);
                 // 找 ':'
                 skipWhiteSpace(it, end);
@@ -495,7 +510,7 @@ struct FromJson {
 
                 // 找 ',' 或者 '}'
                 skipWhiteSpace(it, end);
-                if (*it == '}') {
+                if (isChar<'}'>(it, end)) {
                     ++it;
                     break;
                 }
-- 
2.43.0


From aa397ca525951164e57490e571892c08ca5975d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 04/77] fix: fromJson reads a tuple only from an array with
 exactly its elements

---
 include/HXLibs/reflection/json/JsonRead.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 2e36194..a0d4525 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -405,30 +405,20 @@ struct FromJson {
         skipWhiteSpace(it, end);
         verify<'['>(it, end);
 
-        skipWhiteSpace(it, end);
-        if (isChar<']'>(it, end)) [[unlikely]] {
-            ++it;
-            return;
-        }
-        // 解析数组 []
+        // 解析数组 [], 元素个数必需与元组一致
         constexpr auto N = std::tuple_size_v<T>;
         [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             ([&]() {
-                if (it == end) {
-                    return;
-                }
                 // 把内容移交
                 fromJson(std::get<I>(t), it, end);
                 skipWhiteSpace(it, end);
-                if (isChar<']'>(it, end)) {
-                    ++it;
-                    return;
-                }
                 if constexpr (I != N -1) {
                     verify<','>(it, end);
                 }
             }(), ...);
         }(std::make_index_sequence<N>{});
+        skipWhiteSpace(it, end);
+        verify<']'>(it, end);
     }
 
     template <meta::KeyValueContainer T, typename It>
-- 
2.43.0


From 3a9faff99bec5ac3b32a838f38efcb57a288369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 05/77] fix: fromJson unescapes object keys, so escaped and
 non-ASCII map keys round-trip

---
 include/HXLibs/reflection/json/JsonRead.hpp | 63 +++++++++++++++------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index a0d4525..0b7a4b5 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -254,12 +254,53 @@ std::string_view findKey(It&& it, It&& end) {
     return {left, it++};
 }
 
+/**
+ * @brief 解析 "..." 字符串 (处理转义), 追加到 str
+ * @tparam Str 
+ * @tparam It 
+ * @param str 
+ * @param it 
+ * @param end 
+ */
+template <typename Str, typename It>
+void parseString(Str& str, It&& it, It&& end) {
+    skipWhiteSpace(it, end);
+    verify<'"'>(it, end);
+    for (;;) {
+        if (isChar<'"'>(it, end)) [[unlikely]] {
+            ++it;
+            break;
+        }
+        if (*it != '\\') {
+            str += *it++; // 下一个字符
+        } else {
+            handleEscapeChar(str, it, end); // 内部会处理好 it
+        }
+    }
+}
+
+/**
+ * @brief 解析键, 并且处理转义
+ * @tparam It 
+ * @param it 
+ * @param end 
+ * @return std::string 
+ */
+template <typename It>
+std::string parseKey(It&& it, It&& end) {
+    std::string key;
+    parseString(key, it, end);
+    return key;
+}
+
 template <meta::KeyValueContainer T, typename It>
 auto& insertOrAssign(T& t, It&& it, It&& end) {
     if constexpr (requires (T& t) {
-        t[findKey(it, end)];
+        requires(std::is_convertible_v<std::string, typename T::key_type>
+             && !std::is_same_v<std::string_view, typename T::key_type>);
+        t[parseKey(it, end)];
     }) {
-        return t[findKey(it, end)];
+        return t[parseKey(it, end)];
     } else if constexpr (requires (T& t) {
         t[typename T::key_type {findKey(it, end)}];
     }) {
@@ -321,20 +362,8 @@ struct FromJson {
     
     template <meta::StringType T, typename It>
     static void fromJson(T& t, It&& it, It&& end) {
-        skipWhiteSpace(it, end);
         // 解析字符串
-        verify<'"'>(it, end);
-        for (;;) {
-            if (isChar<'"'>(it, end)) [[unlikely]] {
-                ++it;
-                break;
-            }
-            if (*it != '\\') {
-                t += *it++; // 下一个字符
-            } else {
-                handleEscapeChar(t, it, end); // 内部会处理好 it
-            }
-        }
+        parseString(t, it, end);
     }
 
     template <meta::SingleElementContainer T, typename It>
@@ -469,7 +498,7 @@ struct FromJson {
             static const auto nameHash = reflection::makeNameToIdxVariantHashMap<T>();
             // 需要 name -> idx 映射
             for (;;) {
-                auto key = findKey(it, end);
+                auto key = parseKey(it, end);
                 // 找 ':'
                 skipWhiteSpace(it, end);
                 verify<':'>(it, end);
@@ -496,7 +525,7 @@ struct FromJson {
                         reinterpret_cast<char*>(&t) + idx.offset
                     );
                     fromJson(*ptr, it, end);
-                }, nameHash.at(key));
+                }, nameHash.at(std::string_view{key}));
 
                 // 找 ',' 或者 '}'
                 skipWhiteSpace(it, end);
-- 
2.43.0


From 8f8b214d83cd32fddb2b30337dde10079117e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 06/77] fix: CHashMap::at throws for unknown keys instead of
 indexing out of bounds

---
 include/HXLibs/container/CHashMap.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/container/CHashMap.hpp b/include/HXLibs/container/CHashMap.hpp
index c22e386..9f0f69a 100644
--- a/include/HXLibs/container/CHashMap.hpp
+++ b/include/HXLibs/container/CHashMap.hpp
@@ -87,18 +87,16 @@ public:
     // 查找与访问
     template <typename K>
     constexpr mapped_type const& at(K const& key) const {
-        auto const& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
 
     template <typename K>
     constexpr mapped_type& at(K const& key) {
-        auto& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
@@ -132,16 +130,6 @@ public:
     static constexpr bool empty() noexcept { return !N; }
     static constexpr size_type size() noexcept { return N; }
     static constexpr size_type max_size() noexcept { return N; }
-private:
-    template <typename K>
-    constexpr value_type const& lookup(K const& key) const noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
-
-    template <typename K>
-    constexpr value_type& lookup(K const& key) noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
 };
 
 /**
-- 
2.43.0


From b0d4e054e07f131293deef47974fdb50f132d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 07/77] fix: parsing a boolean reports text that is not a
 boolean

---
 include/HXLibs/reflection/deserialization/Numer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/HXLibs/reflection/deserialization/Numer.hpp b/include/HXLibs/reflection/deserialization/Numer.hpp
index 8eb3cc0..2096242 100644
--- a/include/HXLibs/reflection/deserialization/Numer.hpp
+++ b/include/HXLibs/reflection/deserialization/Numer.hpp
@@ -36,6 +36,9 @@ struct Numer {
         requires(std::is_same_v<bool, T>)
     static void fromNumer(T& t, It&& it, It&& end) {
         // 解析布尔
+        if (it == end) [[unlikely]] {
+            throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
+        }
         if (*it == '0' || *it == '1') {
             t = *it++ - '0';
         } else {
@@ -66,7 +69,9 @@ struct Numer {
             ) {
                 t = false;
                 it += 5;
+                return;
             }
+            throw std::runtime_error{"There was an error parsing the boolean"};
         }
     }
 
-- 
2.43.0


From 680bdff79705d0a4a8dacb7ab3b2c316fa0d8e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 08/77] fix: toJson does not read past a string that ends
 inside a UTF-8 sequence

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index 29ef305..ef53a12 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -196,6 +196,10 @@ inline void writeStringWithEscape(
     std::advance(end, length);
     while (it < end) {
         if (static_cast<unsigned>(*it) >= 0x80) [[unlikely]] {
+            const auto lead = static_cast<unsigned char>(*it);
+            if (end - it <= (lead >= 0xF0 ? 3 : lead >= 0xE0 ? 2 : 1)) [[unlikely]] {
+                throw std::runtime_error("illegal unicode character"); // 被截断的 utf-8
+            }
             writeUnicodeToString(it, s);
         } else if (escape[static_cast<unsigned char>(*it)]) [[unlikely]] {
             s.push_back('\\');
-- 
2.43.0


From a8572f4433aca2a6610cbbdf632f55f171261264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 09/77] fix: toJson writes an empty tuple as []

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index ef53a12..bf75c4d 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -347,7 +347,11 @@ struct ToJson {
                 s.push_back(',');
             }(), ...);
         }(std::make_index_sequence<N>{});
-        s.back() = ']';
+        if constexpr (N == 0) {
+            s.push_back(']');
+        } else {
+            s.back() = ']';
+        }
     }
 
     // opt
-- 
2.43.0


From a4616fc644d231119a0f6883106a0f1bfe8a2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 10/77] fix: toJson writes a char member as the number fromJson
 reads

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index bf75c4d..5fa6ce1 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -269,6 +269,8 @@ struct ToJson {
     static void toJson(T const& t, S& s) {
         if constexpr (NF != static_cast<size_t>(-1)) {
             s.append(std::format("{:." + std::format("{}", NF) + "f}", t));
+        } else if constexpr (std::is_same_v<T, char>) {
+            s.append(std::format("{}", static_cast<int>(t))); // char 以数字形式读写
         } else {
             s.append(std::format("{}", t));
         }
-- 
2.43.0


From 9a7fcbc1c8d9aa9e4003513b8951e46115ee0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 11/77] fix: fromJson unescapes enum names like any other
 string

---
 include/HXLibs/reflection/json/JsonRead.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 0b7a4b5..4ab3890 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -324,11 +324,10 @@ struct FromJson {
     template <typename T, typename It>
         requires(std::is_enum_v<T>)
     static void fromJson(T& t, It&& it, It&& end) {
-        skipWhiteSpace(it, end);
-        // 解析字符串
-        verify<'"'>(it, end);
-        Numer::fromNumer(t, it, end);
-        verify<'"'>(it, end);
+        // 解析字符串 (处理转义)
+        std::string name;
+        parseString(name, it, end);
+        t = reflection::toEnum<T>(std::string_view{name});
     }
     
     template <typename T, typename It>
-- 
2.43.0


From 3ae804400ed40612405650b272763cd9e8188b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 12/77] fix: host, port and credentials are looked for only
 inside the authority of a URL

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 84 ++++++++++++--------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 032bf0d..edc7f6a 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -22,7 +22,6 @@
 #include <string_view>
 #include <optional>
 #include <cstdint>
-#include <regex>
 #include <stdexcept>
 
 #include <HXLibs/container/CHashMap.hpp>
@@ -35,6 +34,30 @@ struct AccountInfo {
 };
 
 struct UrlParse {
+    /**
+     * @brief 从 URL 中提取 authority 部分, 即 `[用户[:密码]@]主机[:端口]`
+     * @param url 可以没有协议
+     * @return std::string_view 
+     */
+    static std::string_view extractAuthority(std::string_view url) {
+        std::size_t protocolFind = url.find("://");
+        if (protocolFind != std::string_view::npos
+            && url.find_first_of("/?#") > protocolFind
+        ) {
+            url = url.substr(protocolFind + 3);
+        }
+        return url.substr(0, url.find_first_of("/?#"));
+    }
+
+    /**
+     * @brief 从 URL 中提取 `主机[:端口]` 部分
+     */
+    static std::string_view extractHostPort(std::string_view url) {
+        auto authority = extractAuthority(url);
+        std::size_t userFind = authority.rfind('@');
+        return userFind == std::string_view::npos ? authority : authority.substr(userFind + 1);
+    }
+
     /**
      * @brief 从 URL 从提取出 Ptah 
      * @param url 
@@ -84,13 +107,14 @@ struct UrlParse {
      * @return std::string DomainName
      */
     static std::string extractDomainName(std::string const& url) {
-        std::regex urlRegex(R"([a-zA-Z0-9][-a-zA-Z0-9]{0,62}(\.[a-zA-Z0-9][-a-zA-Z0-9]{0,62})+\.?)");
-        std::smatch urlMatch;
-        if (std::regex_search(url, urlMatch, urlRegex)) {
-            return urlMatch.str();
-        } else {
+        auto host = extractHostPort(url);
+        // IPv6 字面量写在 [] 中, 其中的 ':' 不是端口的分隔
+        std::size_t end = !host.empty() && host.front() == '[' ? host.find(']') : 0;
+        host = host.substr(0, end == std::string_view::npos ? end : host.find(':', end));
+        if (host.empty()) [[unlikely]] {
             throw std::invalid_argument("Invalid URL format: " + url);
         }
+        return std::string{host};
     }
 
     /**
@@ -113,21 +137,19 @@ struct UrlParse {
      * @return pair<用户名, 密码>, 如果解析不到, 则返回 std::nullopt
      */
     static std::optional<AccountInfo> extractUser(std::string_view url) {
-        std::size_t findEnd = url.find('@');
+        auto authority = extractAuthority(url);
+        std::size_t findEnd = authority.rfind('@');
         if (findEnd == std::string_view::npos) {
             return std::nullopt;
         }
-        std::size_t findMid = url.rfind(':', findEnd - 1);
-        std::size_t findStart = url.rfind('/', findMid - 1);
-        if (findStart == std::string_view::npos) {
-            return std::optional{AccountInfo{
-                url.substr(0, findMid), 
-                url.substr(findMid + 1, findEnd - findMid - 1)
-            }};
+        auto user = authority.substr(0, findEnd);
+        std::size_t findMid = user.find(':');
+        if (findMid == std::string_view::npos) {
+            return std::optional{AccountInfo{user, {}}};
         }
         return std::optional{AccountInfo{
-            url.substr(findStart + 1, findMid - findStart - 1), 
-            url.substr(findMid + 1, findEnd - findMid - 1)
+            user.substr(0, findMid), 
+            user.substr(findMid + 1)
         }};
     }
 
@@ -206,27 +228,21 @@ private:
     std::string _service {};
 
     void parseUrl(std::string_view url) {
-        std::size_t protocolFind = url.find("://");
-        std::size_t userFind = url.find('@', protocolFind == std::string_view::npos ? 0 : protocolFind + 1);
-        if (userFind == std::string_view::npos)
-            userFind = protocolFind;
-        std::size_t portFind = url.find(':', userFind == std::string_view::npos ? 0 : userFind + 1);
-
-        if (protocolFind == std::string_view::npos && portFind == std::string_view::npos) {
+        auto hostPort = UrlParse::extractHostPort(url);
+        _hostname = UrlParse::extractDomainName({url.data(), url.size()});
+        if (hostPort.size() > _hostname.size() + 1) {
+            // 有端口，提取端口号
+            _service = hostPort.substr(_hostname.size() + 1);
+        } else if (std::size_t protocolFind = url.find("://");
+            protocolFind != std::string_view::npos
+            && url.find_first_of("/?#") > protocolFind
+        ) {
+            // 有协议但没有端口
+            _service = url.substr(0, protocolFind);
+        } else {
             // 没有协议和端口，默认服务为 "http"
             _service = "http";
-        } else {
-            if (portFind != std::string_view::npos) {
-                // 有端口，提取端口号
-                std::size_t start = portFind + 1;
-                std::size_t end = url.find_first_not_of("0123456789", start);
-                _service = url.substr(start, end - start);
-            } else if (protocolFind != std::string_view::npos) {
-                // 有协议但没有端口
-                _service = url.substr(0, protocolFind);
-            }
         }
-        _hostname = UrlParse::extractDomainName({url.data(), url.size()});
     }
 };
 
-- 
2.43.0


From 65ac13af7c5c1b2d7661a5e6adf7b03f6b94e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 13/77] fix: a URL without a path but with a query keeps its
 query

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index edc7f6a..8c9972e 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -61,13 +61,14 @@ struct UrlParse {
     /**
      * @brief 从 URL 从提取出 Ptah 
      * @param url 
-     * @return std::string_view Ptah
+     * @return std::string Ptah
      */
-    static std::string_view extractPath(std::string_view url) {
-        std::size_t protocolFind = url.find("://");
-        std::size_t pathFind = url.find("/",
-            protocolFind == std::string_view::npos ? 0 : protocolFind + 3);
-        return pathFind == std::string_view::npos ? "/" : url.substr(pathFind);
+    static std::string extractPath(std::string_view url) {
+        auto authority = extractAuthority(url);
+        auto path = url.substr(static_cast<std::size_t>(
+            authority.data() + authority.size() - url.data()));
+        path = path.substr(0, path.find('#')); // 片段不会发送给服务端
+        return path.starts_with('/') ? std::string{path} : "/" + std::string{path};
     }
 
     /**
-- 
2.43.0


From 76faf39019b22abff3199203112800ff70a3f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 14/77] fix: ports out of range are refused, and the WebSocket
 origin of a URL is its scheme, host and port only

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 8c9972e..1844b3c 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -21,6 +21,7 @@
 #include <string>
 #include <string_view>
 #include <optional>
+#include <charconv>
 #include <cstdint>
 #include <stdexcept>
 
@@ -83,12 +84,11 @@ struct UrlParse {
         }
 
         std::string_view protocol = url.substr(0, protocolFind);
-        std::size_t pathFind = url.find("/", protocolFind + 3);
 
-        std::string_view originView = (pathFind == std::string_view::npos) ? url : url.substr(0, pathFind);
-
-        // 转协议，生成新字符串
-        std::string originStr(originView);
+        // 转协议，生成新字符串 (Origin 不含用户信息)
+        std::string originStr(protocol);
+        originStr += "://";
+        originStr += extractHostPort(url);
 
         // ws / wss 要替换
         if (protocol == "ws") {
@@ -203,7 +203,15 @@ struct UrlParse {
         ) {
             return it->second;
         } else [[unlikely]] {
-            return static_cast<uint16_t>(std::stoi(protocol.data())); // 未知协议, 则假设它是端口
+            // 未知协议, 则假设它是端口
+            uint16_t port = 0;
+            auto const* end = protocol.data() + protocol.size();
+            if (auto [ptr, ec] = std::from_chars(protocol.data(), end, port);
+                ec != std::errc{} || ptr != end
+            ) [[unlikely]] {
+                throw std::invalid_argument{"Unknown protocol or port: " + std::string{protocol}};
+            }
+            return port;
         }
     }
 };
-- 
2.43.0


From 23ab09f8eaacf9c2ff316fa37476741b7f3c8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 15/77] fix: HX_REFL_G works where namespace HX is not opened

---
 include/HXLibs/reflection/ReflectionMacro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/reflection/ReflectionMacro.hpp b/include/HXLibs/reflection/ReflectionMacro.hpp
index 4b8f5e6..57ff5ba 100644
--- a/include/HXLibs/reflection/ReflectionMacro.hpp
+++ b/include/HXLibs/reflection/ReflectionMacro.hpp
@@ -35,7 +35,7 @@ namespace HX::reflection {
 
 /// @brief 声明 __NAME__ 成员
 #define _hx_REFL_STRUCT_G_MEMBER__(__NAME__)                                   \
-    decltype(meta::RemoveCvRefType<decltype(t)>::__NAME__) __NAME__;
+    decltype(::HX::meta::RemoveCvRefType<decltype(t)>::__NAME__) __NAME__;
 
 /// @brief 前置逗号获取成员变量
 #define _hx_REFL_GET_MEMBER__(__NAME__) , t.__NAME__
@@ -55,7 +55,7 @@ namespace HX::reflection {
 
 /// @brief 声明 __NAME__ 类型名称为 __NEW_NAME__ 的成员
 #define _hx_REFL_STRUCT_G_MEMBER_AS__(__NAME__, __NEW_NAME__)                  \
-    decltype(meta::RemoveCvRefType<decltype(t)>::__NAME__) __NEW_NAME__;
+    decltype(::HX::meta::RemoveCvRefType<decltype(t)>::__NAME__) __NEW_NAME__;
 
 /// @brief 前置逗号获取成员变量
 #define _hx_REFL_GET_MEMBER_AS__(__NAME__, _) , t.__NAME__
-- 
2.43.0


From d5b598ad51aaea6d63524d2aeca2faa899ebb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 16/77] fix: iterating a CVector stops at its last element

---
 include/HXLibs/container/CVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/CVector.hpp b/include/HXLibs/container/CVector.hpp
index 0a914a1..e0fec92 100644
--- a/include/HXLibs/container/CVector.hpp
+++ b/include/HXLibs/container/CVector.hpp
@@ -88,8 +88,8 @@ public:
     constexpr iterator begin() { return _data; }
     constexpr const_iterator begin() const { return _data; }
 
-    constexpr iterator end() { return _data + _dIdx + 1; }
-    constexpr const_iterator end() const { return _data + _dIdx + 1; }
+    constexpr iterator end() { return _data + _dIdx; }
+    constexpr const_iterator end() const { return _data + _dIdx; }
 
     // 修改
     constexpr void push_back(value_type const& t) { _data[_dIdx++] = t; }
-- 
2.43.0


From c8da12e275c3fc63d13fa3b790ad0e988cb0d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 17/77] fix: a variant whose alternative failed to construct
 holds nothing

---
 include/HXLibs/container/UninitializedNonVoidVariant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/UninitializedNonVoidVariant.hpp b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
index 6e7233a..a811abc 100644
--- a/include/HXLibs/container/UninitializedNonVoidVariant.hpp
+++ b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
@@ -333,8 +333,8 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr NonVT& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<NonVT, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) NonVT(std::forward<Args>(args)...);
+        _idx = Idx; // 构造成功才算有值, 否则会析构未构造的对象
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
@@ -343,8 +343,8 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr T& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) T(std::forward<Args>(args)...);
+        _idx = Idx; // 构造成功才算有值, 否则会析构未构造的对象
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
-- 
2.43.0


From 1edafa1c7bf3345ce16840f27c5f9e7d5a8455a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 18/77] fix: assigning a value to a variant lets the exception
 of its constructor out

---
 include/HXLibs/container/UninitializedNonVoidVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/container/UninitializedNonVoidVariant.hpp b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
index a811abc..492743c 100644
--- a/include/HXLibs/container/UninitializedNonVoidVariant.hpp
+++ b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
@@ -351,7 +351,7 @@ struct UninitializedNonVoidVariant {
     template <typename U, std::size_t Idx = meta::findUniqueConstructibleIndex<U, Ts...>(),
               typename T = UninitializedNonVoidVariantIndexToType<Idx, Ts...>>
         requires(Idx < N)
-    constexpr UninitializedNonVoidVariant& operator=(U&& t) noexcept {
+    constexpr UninitializedNonVoidVariant& operator=(U&& t) noexcept(std::is_nothrow_constructible_v<T, U>) {
         emplace<T>(std::forward<U>(t));
         return *this;
     }
-- 
2.43.0


From 6c75c5185b7c6664cad90ebcc87712fca74ef56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 19/77] fix: an uninitialised holder destroys the value it
 moves out of or replaces

---
 include/HXLibs/container/Uninitialized.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/container/Uninitialized.hpp b/include/HXLibs/container/Uninitialized.hpp
index a571a6d..dbdc475 100644
--- a/include/HXLibs/container/Uninitialized.hpp
+++ b/include/HXLibs/container/Uninitialized.hpp
@@ -34,7 +34,7 @@ struct Uninitialized {
     Uninitialized& operator=(Uninitialized const&) = delete;
     
     Uninitialized(Uninitialized&& that) noexcept 
-        : _available(that._available)
+        : _available{false}
     {
         if (that._available) {
             set(that.move());
@@ -57,8 +57,9 @@ struct Uninitialized {
     }
 
     T move() noexcept {
-        _available = false;
-        return std::move(_data);
+        T res{std::move(_data)};
+        del();
+        return res;
     }
 
     T& get() noexcept {
@@ -71,6 +72,7 @@ struct Uninitialized {
 
     template <typename... Ts>
     void set(Ts&&... args) {
+        del();
         new (std::addressof(_data)) T(std::forward<Ts>(args)...);
         _available = true;
     }
-- 
2.43.0


From bfb6ecd1510d178aede2dad1bb912cfec0e85128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 20/77] fix: a constant map of strings can always find a
 distinguishing hash seed

---
 include/HXLibs/meta/Hash.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/meta/Hash.hpp b/include/HXLibs/meta/Hash.hpp
index 982e804..ddca34d 100644
--- a/include/HXLibs/meta/Hash.hpp
+++ b/include/HXLibs/meta/Hash.hpp
@@ -18,6 +18,7 @@
  * limitations under the License.
  */
 
+#include <cstdint>
 #include <type_traits>
 #include <string_view>
 
@@ -40,10 +41,13 @@ constexpr std::size_t hashString(const String& value) {
 // 根据实验设置删除最低位
 template <typename String>
 constexpr std::size_t hashString(const String& value, std::size_t seed) {
-    std::size_t d = (0x811c9dc5 ^ seed) * static_cast<size_t>(0x01000193);
+    std::uint64_t d = (0x811c9dc5 ^ seed) * std::uint64_t{0x01000193};
     for (const auto& c : value)
-        d = (d ^ static_cast<size_t>(c)) * static_cast<size_t>(0x01000193);
-    return d >> 8;
+        d = (d ^ static_cast<size_t>(c)) * std::uint64_t{0x01000193};
+    // 低位只受种子的低位影响, 需要混入高位, 否则可能没有任何种子可以区分某些键
+    d = (d ^ (d >> 32)) * 0x9e37'79b9'7f4a'7c15ULL;
+    d = (d ^ (d >> 29)) * 0xbf58'476d'1ce4'e5b9ULL;
+    return static_cast<std::size_t>(d >> 8);
 }
 
 template <typename T = void>
-- 
2.43.0


From 50b42dd22c22d5bd3fa9ba5cf6a08018cc6014be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:46 +0000
Subject: [PATCH 21/77] fix: rfindAndTrim skips the whole delimiter

---
 include/HXLibs/utils/StringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index 6575e1a..29df4ee 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -199,7 +199,7 @@ struct StringUtil final {
     static std::string rfindAndTrim(std::string_view str, std::string_view delim) {
         std::size_t pos = str.rfind(delim);
         if (pos != std::string::npos) {
-            return std::string {str.substr(pos + 1)};
+            return std::string {str.substr(pos + delim.size())};
         }
         return std::string {str}; // 如果未找到分隔符, 返回原字符串
     }
-- 
2.43.0


From 1016d47b7259982db6523b9f028a07c5dbd675ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:46 +0000
Subject: [PATCH 22/77] fix: case conversion changes letters only

---
 include/HXLibs/utils/StringUtils.hpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index 29df4ee..c27b7cc 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -159,16 +159,10 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toLower(std::string& str) {
-        size_t len = str.size();
-        size_t ec = len / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] |= 0x2020'2020'2020'2020;
-        }
-        uint8_t *p1 = (uint8_t *)(p8 + ec);
-        len %= 8;
-        for (size_t i = 0; i < len; ++i) {
-            p1[i] |= 0x20;
+        for (char& c : str) {
+            if (c >= 'A' && c <= 'Z') {
+                c = static_cast<char>(c | 0x20);
+            }
         }
     }
 
@@ -177,17 +171,11 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toUpper(std::string& str) {
-        if (str.empty())
-            return;
-        size_t len = str.size() + 1;
-        size_t alignlen = len + 8 - (len % 8);
-        str.resize(alignlen);
-        size_t ec = alignlen / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] &= 0xDFDF'DFDF'DFDF'DFDF;
+        for (char& c : str) {
+            if (c >= 'a' && c <= 'z') {
+                c = static_cast<char>(c & 0xDF);
+            }
         }
-        str.resize(len - 1);
     }
 
     /**
-- 
2.43.0


From 3a7c84d510df75624a971d63dcd4cc7d6e507894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 23/77] fix: number-base conversion neither overflows on
 numbers in range nor reads outside its table

---
 include/HXLibs/utils/NumericBaseConverter.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/utils/NumericBaseConverter.hpp b/include/HXLibs/utils/NumericBaseConverter.hpp
index 3e608ac..8a7e734 100644
--- a/include/HXLibs/utils/NumericBaseConverter.hpp
+++ b/include/HXLibs/utils/NumericBaseConverter.hpp
@@ -56,8 +56,7 @@ struct NumericBaseConverter {
     template <typename T, T Base = static_cast<T>(10), typename Str>
     static T strToNum(Str&& sv) noexcept {
         T res{0};
-        T pow{1};
-        for (auto it = sv.rbegin(); it != sv.rend(); ++it) {
+        for (auto const c : sv) {
             if constexpr (Base > 10) {
                 if constexpr (Base > 10 + 26) {
                     // 未定义, 不支持
@@ -74,11 +73,11 @@ struct NumericBaseConverter {
                         arr[static_cast<std::size_t>(c)] = 'A' - 10;
                     return arr;
                 }();
-                res += static_cast<T>(*it - Benchmark[static_cast<std::size_t>(*it)]) * pow;
+                res = static_cast<T>(res * Base + static_cast<T>(
+                    c - Benchmark[static_cast<std::size_t>(c & 0x7F)]));
             } else {
-                res += static_cast<T>(*it - '0') * pow;
+                res = static_cast<T>(res * Base + static_cast<T>(c - '0'));
             }
-            pow *= Base;
         }
         return res;
     }
-- 
2.43.0


From a11f9e168874aac158a3bdec52fc74fe9fc5e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 24/77] fix: header fields need no space after the colon, and
 malformed heads are refused

---
 include/HXLibs/net/protocol/http/Http.hpp     | 25 +++++++++++++++++++
 include/HXLibs/net/protocol/http/Request.hpp  | 16 ++++++------
 include/HXLibs/net/protocol/http/Response.hpp | 14 ++++++++---
 3 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index f1b959d..f251310 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -18,7 +18,9 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <array>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <unordered_map>
@@ -80,6 +82,29 @@ struct TransparentCaseInsensitiveEqual {
     }
 };
 
+/**
+ * @brief 将一行头部切分为键值对, 并去掉值两端的空白
+ * @return 空行 或者 以空白开头的接续行, 键为空
+ * @throw 如果不是合法的头部
+ */
+inline std::pair<std::string, std::string> splitHeaderLine(std::string_view line) {
+    constexpr std::string_view Blank = " \t";
+    if (line.empty() || Blank.find(line.front()) != std::string_view::npos) {
+        return {};
+    }
+    auto pos = line.find(':');
+    if (pos == 0 || pos == std::string_view::npos
+        || line.find_first_of(Blank) < pos
+    ) [[unlikely]] {
+        throw std::runtime_error{"Malformed http header"};
+    }
+    auto key = line.substr(0, pos);
+    auto val = line.substr(pos + 1);
+    val = val.substr(std::min(val.find_first_not_of(Blank), val.size()));
+    val = val.substr(0, val.find_last_not_of(Blank) + 1);
+    return {std::string{key}, std::string{val}};
+}
+
 } // namespace internal
 
 class Http {};
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8fd3968..349579c 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -685,12 +685,9 @@ private:
                     reqLine, " "sv
                 );
 
-                if (_requestLine.size() < 3) [[unlikely]] {
-                    return IO::kBufMaxSize;
-                } 
-                // else if (_requestLine.size() > 3) [[unlikely]] {
-                // @todo 理论上不会出现
-                // }
+                if (_requestLine.size() != 3) [[unlikely]] {
+                    throw std::runtime_error{"Malformed http request line"};
+                }
 
                 buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 [[fallthrough]];
@@ -709,9 +706,12 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) [[unlikely]] {     // 找不到 ": "
+                    auto p = internal::splitHeaderLine(subKVStr);
+                    if (p.first.empty()) [[unlikely]] {     // 空行 或者 接续上一行
                         if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输请求头的
+                            if (_requestHeadersIt == _requestHeaders.end()) [[unlikely]] {
+                                throw std::runtime_error{"Malformed http header"};
+                            }
                             _requestHeadersIt->second.append(subKVStr);
                         } else { // 请求头解析完毕!
                             _completeRequestHeader = true;
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d92285..7740d94 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -875,8 +875,11 @@ private:
                     _statusLine = utils::StringUtil::split<std::string>(
                         buf.substr(0, pos), " "sv
                     );
-                    if (_statusLine.size() < 3) [[unlikely]] {
-                        return IO::kBufMaxSize;
+                    if (_statusLine.size() < 2) [[unlikely]] {
+                        throw std::runtime_error{"Malformed http status line"};
+                    }
+                    if (_statusLine.size() == 2) { // 状态信息可以为空
+                        _statusLine.emplace_back();
                     }
                     if (_statusLine.size() > 3) {
                         auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
@@ -904,9 +907,12 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) {                  // 找不到 ": "
+                    auto p = internal::splitHeaderLine(subKVStr);
+                    if (p.first.empty()) {                  // 空行 或者 接续上一行
                         if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输响应头的
+                            if (_responseHeadersIt == _responseHeaders.end()) [[unlikely]] {
+                                throw std::runtime_error{"Malformed http header"};
+                            }
                             _responseHeadersIt->second.append(subKVStr);
                         } else { // 请求头解析完毕!
                             _completeResponseHeader = true;
-- 
2.43.0


From 578c2d4be92f4d4c8566a7f6f01c44a74303a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 25/77] fix: bodies are decoded exactly for any split of their
 bytes, and malformed framing is refused

---
 include/HXLibs/net/protocol/http/Http.hpp     |  74 +++++++++++++
 include/HXLibs/net/protocol/http/Request.hpp  | 104 ++++--------------
 include/HXLibs/net/protocol/http/Response.hpp |  52 ++-------
 3 files changed, 110 insertions(+), 120 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index f251310..a522fed 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <array>
+#include <charconv>
 #include <stdexcept>
 #include <string>
 #include <string_view>
@@ -105,6 +106,79 @@ inline std::pair<std::string, std::string> splitHeaderLine(std::string_view line
     return {std::string{key}, std::string{val}};
 }
 
+/**
+ * @brief 解析 Content-Length 的值
+ * @throw 如果不是合法的长度
+ */
+inline std::size_t parseContentLength(std::string_view val) {
+    std::size_t len{};
+    auto const* end = val.data() + val.size();
+    auto [ptr, ec] = std::from_chars(val.data(), end, len);
+    if (ec != std::errc{} || ptr != end) [[unlikely]] {
+        throw std::runtime_error{"Malformed content-length"};
+    }
+    return len;
+}
+
+/**
+ * @brief 从 buf 中取出下一段分块传输编码的内容
+ * @param buf [in, out] 已读取的数据, 会去掉已经消费的部分
+ * @param remaining [in, out] 当前分块 (包含其尾部 \r\n) 还未读取的字节数;
+ *                  无值表示即将读取分块长度; 0 表示已经读取到了末尾分块, 正在跳过尾部字段
+ * @param isEnd [out] 是否已经读取完所有的分块
+ * @return 内容, 为空表示需要读取更多数据, 或者已经读取完毕
+ * @throw 如果不符合分块传输编码
+ */
+inline std::string_view nextChunkData(
+    std::string_view& buf,
+    std::optional<std::size_t>& remaining,
+    bool& isEnd
+) {
+    constexpr std::size_t CRLFSize = 2;
+    isEnd = false;
+    for (;;) {
+        if (remaining && *remaining > CRLFSize) { // 内容
+            auto data = buf.substr(0, *remaining - CRLFSize);
+            buf.remove_prefix(data.size());
+            *remaining -= data.size();
+            return data;
+        }
+        if (remaining && *remaining) { // 内容尾部的 \r\n
+            if (buf.size() < CRLFSize) {
+                return {};
+            }
+            if (!buf.starts_with("\r\n")) [[unlikely]] {
+                throw std::runtime_error{"Malformed chunk"};
+            }
+            buf.remove_prefix(CRLFSize);
+            remaining.reset();
+        }
+        auto pos = buf.find("\r\n");
+        if (pos == std::string_view::npos) { // 没有读完
+            return {};
+        }
+        auto line = buf.substr(0, pos);
+        buf.remove_prefix(pos + CRLFSize);
+        if (remaining) { // 尾部字段, 直到空行
+            if (line.empty()) {
+                isEnd = true;
+                return {};
+            }
+            continue;
+        }
+        // 分块长度, 后面可能有扩展 (`;` 分割)
+        std::size_t len{};
+        auto const* end = line.data() + line.size();
+        auto [ptr, ec] = std::from_chars(line.data(), end, len, 16);
+        if (ec != std::errc{} || len > static_cast<std::size_t>(-1) - CRLFSize
+            || (ptr != end && *ptr != ';' && *ptr != ' ' && *ptr != '\t')
+        ) [[unlikely]] {
+            throw std::runtime_error{"Malformed chunk size"};
+        }
+        remaining = len ? len + CRLFSize : 0;
+    }
+}
+
 } // namespace internal
 
 class Http {};
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 349579c..b243518 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -750,57 +750,29 @@ private:
         if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 计算剩余待解析字节数
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseContentLength(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
+                auto data = buf.substr(0, *_remainingBodyLen);
+                *_remainingBodyLen -= data.size();
+                _body.append(data);
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 return *_remainingBodyLen;
             }
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
+            bool isEnd = false;
             for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
+                auto data = internal::nextChunkData(buf, _remainingBodyLen, isEnd);
+                if (data.empty()) {
+                    break;
                 }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                _body.append(data);
             }
+            _recvBuf.moveToHead(buf);
+            return isEnd ? 0 : IO::kBufMaxSize;
         }
         return 0;
     }
@@ -816,58 +788,30 @@ private:
         if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 计算剩余待解析字节数
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseContentLength(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                co_await file.write(buf); // _body.append(buf);
-                _recvBuf.clear();
+                auto data = buf.substr(0, *_remainingBodyLen);
+                *_remainingBodyLen -= data.size();
+                co_await file.write(data); // _body.append(buf);
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 co_return *_remainingBodyLen;
             }
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                } else { // 读取完了
-                    co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
+            bool isEnd = false;
             for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    co_return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    co_return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
+                auto data = internal::nextChunkData(buf, _remainingBodyLen, isEnd);
+                if (data.empty()) {
+                    break;
                 }
-                co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                co_await file.write(data);
             }
+            _recvBuf.moveToHead(buf);
+            co_return isEnd ? 0 : IO::kBufMaxSize;
         }
         co_return 0;
     }
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 7740d94..a691b9c 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -950,54 +950,26 @@ private:
         if (_responseHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
             // 是 空行之后 (\r\n\r\n) 的内容大小(char)
             if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
+                _remainingBodyLen = internal::parseContentLength(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
             }
             if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
+                auto data = buf.substr(0, *_remainingBodyLen);
+                *_remainingBodyLen -= data.size();
+                _body.append(data);
+                _recvBuf.moveToHead(buf.substr(data.size()));
                 return *_remainingBodyLen;
             }
         } else if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf, 0, *_remainingBodyLen);
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
+            bool isEnd = false;
             for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
+                auto data = internal::nextChunkData(buf, _remainingBodyLen, isEnd);
+                if (data.empty()) {
+                    break;
                 }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                _body.append(data);
             }
+            _recvBuf.moveToHead(buf);
+            return isEnd ? 0 : IO::kBufMaxSize;
         } 
         // else if (_responseHeaders.contains("content-range")) {
             // 断点续传 @todo
-- 
2.43.0


From 4f086651e5faeb1b54061fd35b29f8a97259f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 26/77] fix: pipelined requests are not dropped between
 requests

---
 include/HXLibs/net/protocol/http/Request.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index b243518..1d2a538 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -305,7 +305,8 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserReqHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserReqHead()) {
+        // 可能已经读取到了流水线中的下一个请求, 故先解析
+        for (std::size_t n = _parserReqHead(); n; n = _parserReqHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -550,7 +551,6 @@ public:
         _requestLine.clear();
         _requestHeaders.clear();
         _requestHeadersIt = _requestHeaders.end();
-        _recvBuf.clear();
         _body.clear();
         _completeRequestHeader = false;
         _remainingBodyLen.reset();
-- 
2.43.0


From 7f6375b75a79ddf325c51eaa7c4666736a55ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 27/77] fix: path parameters of a request do not outlive it

---
 include/HXLibs/net/protocol/http/Request.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 1d2a538..7dc40fd 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -548,6 +548,8 @@ public:
         }
         _completeBody = false;
         _boundary = {};
+        _wildcarDataArr = {};
+        _urlWildcardData = {};
         _requestLine.clear();
         _requestHeaders.clear();
         _requestHeadersIt = _requestHeaders.end();
-- 
2.43.0


From 7ff3ed6d079c4648c15da587aec52df63eb03c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 28/77] fix: an upload that fails is not left with its file
 open

---
 include/HXLibs/net/protocol/http/Request.hpp | 44 ++++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 7dc40fd..ee37e26 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -407,32 +407,40 @@ public:
     template <typename Timeout = decltype(5_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> saveToFile(std::string_view path) {
-        utils::AsyncFile file{_io};
-        co_await file.open(path, utils::OpenMode::Write);
         if (_completeBody) [[unlikely]] {
             // 已经解析过 Http Body 了
             throw std::runtime_error{"Have already analyzed the http body"};
         }
+        utils::AsyncFile file{_io};
+        co_await file.open(path, utils::OpenMode::Write);
         _completeBody = true;
-        for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
-            auto res = co_await _io.template recvLinkTimeout<Timeout>(
-                // 保留原有的数据
-                {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
-            );
-            if (res.index() == 1) [[unlikely]] {
-                // 超时
-                throw std::runtime_error{"parseBody: Recv timeout"};
-            }
-            auto recvN = HXLIBS_CHECK_EVENT_LOOP(
-                (res.template get<0, exception::ExceptionMode::Nothrow>())
-            );
-            if (recvN == 0) [[unlikely]] {
-                // 连接断开
-                throw std::runtime_error{"parseBody: Connection is Broken"};
+        container::Try<> err;
+        try {
+            for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
+                auto res = co_await _io.template recvLinkTimeout<Timeout>(
+                    // 保留原有的数据
+                    {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
+                );
+                if (res.index() == 1) [[unlikely]] {
+                    // 超时
+                    throw std::runtime_error{"parseBody: Recv timeout"};
+                }
+                auto recvN = HXLIBS_CHECK_EVENT_LOOP(
+                    (res.template get<0, exception::ExceptionMode::Nothrow>())
+                );
+                if (recvN == 0) [[unlikely]] {
+                    // 连接断开
+                    throw std::runtime_error{"parseBody: Connection is Broken"};
+                }
+                _recvBuf.addSize(static_cast<std::size_t>(recvN));
             }
-            _recvBuf.addSize(static_cast<std::size_t>(recvN));
+            co_await file.close();
+            co_return;
+        } catch (...) {
+            err.setException(std::current_exception());
         }
         co_await file.close();
+        err.rethrow();
     }
 
     // @todo 
-- 
2.43.0


From 1edf507d66de2bd911a342277faa88cfd549a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 29/77] fix: responses that follow each other on a connection
 are all parsed

---
 include/HXLibs/net/protocol/http/Response.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index a691b9c..122ed59 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -183,7 +183,8 @@ public:
     template <typename Timeout = decltype(30_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserResHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserResHead()) {
+        // 可能已经读取到了下一个响应, 故先解析
+        for (std::size_t n = _parserResHead(); n; n = _parserResHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -736,6 +737,7 @@ public:
         _sendBuf.clear();
         _completeResponseHeader = false;
         _completeBody = false;
+        _remainingBodyLen.reset();
     }
 
     /**
-- 
2.43.0


From c61654bf4ea2343a48bdf0a2480e8bf38f5d3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 30/77] fix: queries and ** in a request do not take part in
 routing, and the wildcard remainder is right for repeated slashes

---
 include/HXLibs/net/router/Router.hpp     | 10 +++++++---
 include/HXLibs/net/router/RouterTree.hpp |  3 +++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 3dcb9dd..7a7ee7e 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -50,7 +50,7 @@ public:
         std::string_view path
     ) const {
         auto findLink = utils::StringUtil::split<std::string_view>(
-            path,
+            path.substr(0, path.find('?')), // 查询参数不参与路由
             "/",
             {method}
         );
@@ -239,7 +239,7 @@ private:
                 break;
             }
             case 0x2: {// 仅解析通配符
-                auto UWPIndex = path.find("/**"sv);
+                auto UWPIndex = RequestTemplateParsing::getUniversalWildcardPathBeginIndex(path);
                 realEndpoint = [this, endpoint = std::move(endpoint), UWPIndex,
                                 ... interceptors = interceptors](
                                    Request &req,
@@ -249,7 +249,11 @@ private:
                     bool ok = true;
                     auto pureRequesPath = req.getPureReqPath();
                     std::string_view pureRequesPathView = pureRequesPath;
-                    req._urlWildcardData = pureRequesPathView.substr(UWPIndex);
+                    auto pathSplitArr = utils::StringUtil::splitWithPos<std::string_view>(pureRequesPathView, "/");
+                    // 保留前面的 `/`
+                    req._urlWildcardData = pureRequesPathView.substr(
+                        std::max<std::size_t>(pathSplitArr[UWPIndex].first, 1) - 1
+                    );
 #if defined(_MSC_VER)
                     co_await doBeforeAll(ok, req, res, interceptors...);
 #else
diff --git a/include/HXLibs/net/router/RouterTree.hpp b/include/HXLibs/net/router/RouterTree.hpp
index 5f0e84a..c1ed3a4 100644
--- a/include/HXLibs/net/router/RouterTree.hpp
+++ b/include/HXLibs/net/router/RouterTree.hpp
@@ -145,6 +145,9 @@ private:
         using namespace std::string_view_literals;
         std::array<std::string_view const, 2> arr{findLink.front(), "*"sv};
         for (auto const findStr : arr) {
+            if (findStr == "**"sv) [[unlikely]] {
+                continue; // 请求中的 `**` 只是普通的内容, 不是通配符
+            }
             if (auto it = node->child.find(findStr); it != node->child.end()) {
                 if (auto* res = _find(findLink.subspan(1), it->second)) {
                     return res;
-- 
2.43.0


From 2db61569daa83bf1be5e0e600b0a147dbad5a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 31/77] fix: interceptors of the not-found handler run

---
 include/HXLibs/net/router/Router.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 7a7ee7e..f96683e 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -69,18 +69,30 @@ public:
         std::function<coroutine::Task<>(
             Request &, Response &)>
             realEndpoint =
-                [this, endpoint = std::move(endpoint),
+                [this, endpoint = std::forward<Func>(endpoint),
                  ... interceptors = interceptors] (Request &req,
                                                    Response &res) mutable
             -> coroutine::Task<> {
             static_cast<void>(this);
             bool ok = true;
-            static_cast<void>((doBefore(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doBeforeAll(ok, req, res, interceptors...);
+#else
+            static_cast<void>(((
+                co_await doBefore(interceptors, ok, req, res)
+            ) && ...));
+#endif // !defined(_MSC_VER)
             if (ok) {
                 co_await endpoint(req, res);
             }
             ok = true;
-            static_cast<void>((doAfter(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doAfterAll(ok, req, res, interceptors...);
+#else
+            static_cast<void>(((
+                co_await doAfter(interceptors, ok, req, res)
+            ) && ...));
+#endif // !defined(_MSC_VER)
         };
         _routerTree.setNotFoundHandler(std::move(realEndpoint));
     }
-- 
2.43.0


From 19fdea7286a079d7e8c2d0c24f572f3d9b57d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 32/77] fix: a path parameter is converted only if all of it is
 of the type

---
 include/HXLibs/net/protocol/http/Request.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index ee37e26..9b68798 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -54,7 +54,13 @@ struct PathParam {
             || std::is_enum_v<T>)
     T to() const {
         T t;
-        reflection::Numer::fromNumer(t, _pathParam.begin(), _pathParam.end());
+        auto it = _pathParam.begin();
+        auto end = _pathParam.end();
+        reflection::Numer::fromNumer(t, it, end);
+        if (it != end) [[unlikely]] { // 必需保证整个参数都是该类型
+            throw std::runtime_error{
+                "There was an error parsing the path parameter: " + std::string{_pathParam}};
+        }
         return t;
     }
 
-- 
2.43.0


From 701876419e08227d25e2dc94ff7619d288a25651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 33/77] fix: a path parameter index out of range is refused

---
 include/HXLibs/net/protocol/http/Request.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 9b68798..4cbbcea 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -519,6 +519,9 @@ public:
         if (_wildcarDataArr.empty()) [[unlikely]] {
             throw std::runtime_error("No path parameters available to parse.");
         }
+        if (index >= _wildcarDataArr.size()) [[unlikely]] {
+            throw std::out_of_range("The index of the path parameter is out of range.");
+        }
         return _wildcarDataArr[index];
     }
 
-- 
2.43.0


From 8255471fe76334d98c78f305175242dc8bd9eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 34/77] fix: converting a wildcard element to a floating-point
 number reads only the element

---
 include/HXLibs/net/router/RequestParsing.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/net/router/RequestParsing.hpp b/include/HXLibs/net/router/RequestParsing.hpp
index 4196453..9abae27 100644
--- a/include/HXLibs/net/router/RequestParsing.hpp
+++ b/include/HXLibs/net/router/RequestParsing.hpp
@@ -173,9 +173,10 @@ struct TypeInterpretation<uint64_t> {
 template <>
 struct TypeInterpretation<float> {
     static std::optional<float> wildcardElementTypeConversion(std::string_view we) {
+        std::string const str{we}; // 需要以 `\0` 结尾
         char* end;
-        float value = std::strtof(we.data(), &end);
-        if (end == we.data() + we.size()) {
+        float value = std::strtof(str.c_str(), &end);
+        if (!str.empty() && end == str.c_str() + str.size()) {
             return value;
         }
         return std::nullopt;
@@ -185,9 +186,10 @@ struct TypeInterpretation<float> {
 template <>
 struct TypeInterpretation<double> {
     static std::optional<double> wildcardElementTypeConversion(std::string_view we) {
+        std::string const str{we}; // 需要以 `\0` 结尾
         char* end;
-        double value = std::strtod(we.data(), &end);
-        if (end == we.data() + we.size()) {
+        double value = std::strtod(str.c_str(), &end);
+        if (!str.empty() && end == str.c_str() + str.size()) {
             return value;
         }
         return std::nullopt;
@@ -197,9 +199,10 @@ struct TypeInterpretation<double> {
 template <>
 struct TypeInterpretation<long double> {
     static std::optional<long double> wildcardElementTypeConversion(std::string_view we) {
+        std::string const str{we}; // 需要以 `\0` 结尾
         char* end;
-        long double value = std::strtold(we.data(), &end);
-        if (end == we.data() + we.size()) {
+        long double value = std::strtold(str.c_str(), &end);
+        if (!str.empty() && end == str.c_str() + str.size()) {
             return value;
         }
         return std::nullopt;
-- 
2.43.0


From 34ac8e37215c8cca132d361d3457445704cee4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 35/77] fix: a connection whose request body could not be read
 ends instead of taking the rest of the body for a request

---
 include/HXLibs/net/protocol/http/Request.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 4cbbcea..5b1125d 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -384,6 +384,7 @@ public:
             throw std::runtime_error{"Have already analyzed the http body"};
         }
         _completeBody = true;
+        _isBodyBroken = true;
         for (std::size_t n = _parserReqBody(); n; n = _parserReqBody()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
@@ -402,6 +403,7 @@ public:
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
         }
+        _isBodyBroken = false;
         co_return std::move(_body);
     }
 
@@ -420,6 +422,7 @@ public:
         utils::AsyncFile file{_io};
         co_await file.open(path, utils::OpenMode::Write);
         _completeBody = true;
+        _isBodyBroken = true;
         container::Try<> err;
         try {
             for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
@@ -440,6 +443,7 @@ public:
                 }
                 _recvBuf.addSize(static_cast<std::size_t>(recvN));
             }
+            _isBodyBroken = false;
             co_await file.close();
             co_return;
         } catch (...) {
@@ -563,6 +567,10 @@ public:
             // 250 ms, 如果解析不完, 就滚蛋! 传递这么多没用的干什么?!
             co_await parseBody<decltype(250_ms)>();
         }
+        if (_isBodyBroken) [[unlikely]] {
+            // 请求体没有读取完整, 无法得知下一个请求从哪里开始
+            throw std::runtime_error{"The http body was not fully read"};
+        }
         _completeBody = false;
         _boundary = {};
         _wildcarDataArr = {};
@@ -628,6 +636,11 @@ private:
      */
     bool _completeBody = false;
 
+    /**
+     * @brief 是否读取 Body 失败 (没有读取完整)
+     */
+    bool _isBodyBroken = false;
+
     template <typename>
     friend class Router;
     template <typename>
-- 
2.43.0


From 7801bb13f36663564cd763bed0ba408150b5eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 36/77] fix: the close option of the Connection field is
 recognised in any case and in lists

---
 include/HXLibs/net/protocol/http/Http.hpp       | 17 +++++++++++++++++
 include/HXLibs/net/server/ConnectionHandler.hpp |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index a522fed..b28ddaa 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -106,6 +106,23 @@ inline std::pair<std::string, std::string> splitHeaderLine(std::string_view line
     return {std::string{key}, std::string{val}};
 }
 
+/**
+ * @brief 判断以`,`分割的列表中, 是否存在某一项 (不区分大小写)
+ */
+inline bool hasToken(std::string_view list, std::string_view token) noexcept {
+    constexpr std::string_view Blank = " \t";
+    while (!list.empty()) {
+        auto item = list.substr(0, list.find(','));
+        list.remove_prefix(std::min(item.size() + 1, list.size()));
+        item.remove_prefix(std::min(item.find_first_not_of(Blank), item.size()));
+        item = item.substr(0, item.find_last_not_of(Blank) + 1);
+        if (TransparentCaseInsensitiveEqual{}(item, token)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 /**
  * @brief 解析 Content-Length 的值
  * @throw 如果不是合法的长度
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 2cf670b..4febeea 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -64,7 +64,7 @@ struct ConnectionHandler {
                     )(req, res);
                     // 只要不是明确写 close 的, 我就复用连接 (keep-alive)
                     if (auto it = req.getHeaders().find(CONNECTION_SV);
-                        (it != req.getHeaders().end() && it->second == "close"sv)
+                        (it != req.getHeaders().end() && internal::hasToken(it->second, "close"sv))
                         || !isRun.load(std::memory_order_acquire)
                     ) [[unlikely]] {
                         break;
-- 
2.43.0


From 1cfd4b9b4655b99b9d00901cf6027d7f1887af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 37/77] fix: files sent with chunked coding are terminated
 exactly once

---
 include/HXLibs/net/protocol/http/Request.hpp  | 16 +++++++++-----
 include/HXLibs/net/protocol/http/Response.hpp | 22 ++++++++++++-------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 5b1125d..86bbf88 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -178,17 +178,23 @@ public:
             buf.resize(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            _buildToChunkedEncoding<true>(size, sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-            for (;;) {
+            if (!size) [[unlikely]] {
+                // 空文件, 只有末尾分块
+                _buildToChunkedEncoding<true, true>(0, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+            } else {
+                _buildToChunkedEncoding<true>(size, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
+            }
+            while (size) {
+                size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
                     _buildToChunkedEncoding<false, true>(0, sendBuf);
                     co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                     break;
                 }
-                size = static_cast<std::size_t>(co_await file.read(buf));
                 _buildToChunkedEncoding(size, sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 122ed59..1602d5c 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -391,14 +391,20 @@ public:
             std::vector<char> buf(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            /*
-                len\r\n
-                内容片段
-            */
-            _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
-            co_await _io.fullySend(_sendBuf);           // 发送
-            co_await _io.fullySend({buf.data(), size}); // 发送文件
-            for (;;) {
+            if (!size) [[unlikely]] {
+                // 空文件, 只有末尾分块: 0\r\n\r\n
+                _buildToChunkedEncoding<true, true>(0);
+                co_await _io.fullySend(_sendBuf);
+            } else {
+                /*
+                    len\r\n
+                    内容片段
+                */
+                _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
+                co_await _io.fullySend(_sendBuf);           // 发送
+                co_await _io.fullySend({buf.data(), size}); // 发送文件
+            }
+            while (size) {
                 size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     /*
-- 
2.43.0


From 78d9ea30a5b6eadfa1a51a91ee7dcd1037b3c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 38/77] fix: byte ranges are parsed, clamped or refused as RFC
 9110 says, and multipart responses are well-formed

---
 include/HXLibs/net/protocol/http/Http.hpp     | 61 ++++++++++++
 include/HXLibs/net/protocol/http/Response.hpp | 94 ++++++++-----------
 2 files changed, 101 insertions(+), 54 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index b28ddaa..2416caf 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -27,6 +27,7 @@
 #include <unordered_map>
 #include <optional>
 #include <chrono>
+#include <vector>
 
 namespace HX::net {
 
@@ -196,6 +197,66 @@ inline std::string_view nextChunkData(
     }
 }
 
+/**
+ * @brief 文件中的一段字节 [begin, end]
+ */
+struct ByteRange {
+    uint64_t begin;
+    uint64_t end;
+};
+
+/**
+ * @brief 解析 Range 的值
+ * @param val 如 `bytes=0-99,200-,-50`
+ * @param fileSize 文件大小
+ * @return 所有可以满足的范围 (按照请求的顺序); 如果不合法, 则为空
+ */
+inline std::vector<ByteRange> parseByteRanges(std::string_view val, uint64_t fileSize) {
+    constexpr std::string_view Blank = " \t";
+    constexpr std::string_view Unit = "bytes=";
+    // 解析数字, 过大的数字视为无穷大
+    constexpr auto parseNum = [](std::string_view s) -> std::optional<uint64_t> {
+        uint64_t num{};
+        auto const* end = s.data() + s.size();
+        auto [ptr, ec] = std::from_chars(s.data(), end, num);
+        if (ptr != end || ec == std::errc::invalid_argument) {
+            return {};
+        }
+        return ec == std::errc{} ? num : static_cast<uint64_t>(-1);
+    };
+    if (val.size() < Unit.size()
+        || !TransparentCaseInsensitiveEqual{}(val.substr(0, Unit.size()), Unit)
+    ) [[unlikely]] {
+        return {};
+    }
+    std::vector<ByteRange> res;
+    for (std::size_t pos = Unit.size(); pos <= val.size(); ) {
+        auto item = val.substr(pos, val.find(',', pos) - pos);
+        pos += item.size() + 1;
+        item.remove_prefix(std::min(item.find_first_not_of(Blank), item.size()));
+        item = item.substr(0, item.find_last_not_of(Blank) + 1);
+        auto sep = item.find('-');
+        if (sep == std::string_view::npos || item.size() == 1) [[unlikely]] {
+            return {};
+        }
+        auto first = parseNum(item.substr(0, sep));
+        auto last = parseNum(item.substr(sep + 1));
+        if ((!first && sep != 0) || (!last && sep + 1 != item.size())
+            || (first && last && *first > *last)
+        ) [[unlikely]] {
+            return {};
+        }
+        if (!first) { // 最后 last 个字节
+            if (*last && fileSize) {
+                res.push_back({fileSize - std::min(*last, fileSize), fileSize - 1});
+            }
+        } else if (*first < fileSize) {
+            res.push_back({*first, std::min(last.value_or(fileSize - 1), fileSize - 1)});
+        }
+    }
+    return res;
+}
+
 } // namespace internal
 
 class Http {};
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 1602d5c..6c72c81 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -482,31 +482,22 @@ public:
                 而Content-Length是 [X, Y] 包含X, 包含Y, 所以是 Y - X + 1个字节
             */
             // 解析范围, 如果访问不合法, 应该返回416
-            std::string_view rangeVals = it->second;
-            // Range: bytes=<range-start>-<range-end>
-            auto rangeNumArr = utils::StringUtil::split<std::string>(rangeVals.substr(6), ","sv);
-            setResLine(Status::CODE_206);
+            auto ranges = internal::parseByteRanges(it->second, fileSize);
             addHeader("Accept-Ranges", "bytes");
+            if (ranges.empty()) [[unlikely]] {
+                setResLine(Status::CODE_416);
+                addHeader("Content-Range", "bytes */" + fileSizeStr);
+                addHeader("Content-Length", "0");
+                _buildResponseLineAndHeaders();
+                co_await _io.fullySend(_sendBuf);
+                co_return ;
+            }
+            setResLine(Status::CODE_206);
 
-            if (rangeNumArr.size() == 1) [[likely]] { // 一般都是请求单个范围
-                auto [begin, end] = utils::StringUtil::splitAtFirst(rangeNumArr.back(), "-"sv);
-                if (begin.empty()) {
-                    begin += '0';
-                }
-                if (end.empty()) {
-                    end = std::to_string(fileSize - 1);
-                }
-                uint64_t beginPos = std::stoull(begin);
-                uint64_t endPos = std::stoull(end);
-                if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
-                    // 范围不合法: 返回416, 表示请求错误
-                    setResLine(Status::CODE_416);
-                    _buildResponseLineAndHeaders();
-                    co_await _io.fullySend(_sendBuf);
-                    co_return ;
-                }
+            if (ranges.size() == 1) [[likely]] { // 一般都是请求单个范围
+                auto [beginPos, endPos] = ranges.back();
                 uint64_t remaining = endPos - beginPos + 1;
-                addHeader("Content-Range", "bytes " + begin + "-" + end + "/" + fileSizeStr);
+                addHeader("Content-Range", _makeContentRange(beginPos, endPos, fileSizeStr));
                 addHeader("Content-Type", fileType);
                 addHeader("Content-Length", std::to_string(remaining));
                 _buildResponseLineAndHeaders();
@@ -540,6 +531,7 @@ public:
                 /*
                     HTTP/1.1 206 Partial Content\r\n
                     Content-Type: multipart/byteranges; boundary=BOUNDARY_STRING\r\n
+                    Content-Length: L\r\n
                     \r\n
                     --BOUNDARY_STRING\r\n
                     Content-Range: bytes X1-Y1/Z\r\n
@@ -555,40 +547,27 @@ public:
                     [BINARY DATA PART 2]\r\n
                     --BOUNDARY_STRING--\r\n
                 */
+                // 先组装好每一段的头, 以得知整个响应体的大小
+                constexpr auto kBoundaryEnd = "--BOUNDARY_STRING--\r\n"sv;
+                std::vector<std::string> partHeads;
+                uint64_t bodySize = kBoundaryEnd.size();
+                for (auto [beginPos, endPos] : ranges) {
+                    uint64_t partSize = endPos - beginPos + 1;
+                    auto& head = partHeads.emplace_back("--BOUNDARY_STRING\r\nContent-Range: ");
+                    head += _makeContentRange(beginPos, endPos, fileSizeStr);
+                    head += "\r\nContent-Length: ";
+                    head += std::to_string(partSize);
+                    head += "\r\nContent-Type: application/octet-stream\r\n\r\n";
+                    bodySize += head.size() + partSize + CRLF.size();
+                }
                 addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
+                addHeader("Content-Length", std::to_string(bodySize));
                 _buildResponseLineAndHeaders();
                 co_await _io.fullySend(_sendBuf); // 先发一个头
-                for (auto& ragen : rangeNumArr) {
-                    auto [begin, end] = utils::StringUtil::splitAtFirst(ragen, "-");
-                    if (begin.empty()) {
-                        begin += '0';
-                    }
-                    if (end.empty()) {
-                        end = std::to_string(fileSize - 1);
-                    }
-                    uint64_t beginPos = std::stoull(begin);
-                    uint64_t endPos = std::stoull(end);
-                    // 范围不合法: 不会报错, 而是忽略!
-                    if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
-                        continue;
-                    }
-                    _sendBuf.clear();
-
+                for (std::size_t i = 0; i < ranges.size(); ++i) {
+                    auto [beginPos, endPos] = ranges[i];
                     uint64_t remaining = endPos - beginPos + 1;
-                    utils::StringUtil::append(_sendBuf, "--BOUNDARY_STRING\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, "Content-Range: bytes "sv);
-                    utils::StringUtil::append(_sendBuf, begin);
-                    utils::StringUtil::append(_sendBuf, "-"sv);
-                    utils::StringUtil::append(_sendBuf, end);
-                    utils::StringUtil::append(_sendBuf, "/"sv);
-                    utils::StringUtil::append(_sendBuf, fileSizeStr);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Length: "sv);
-                    utils::StringUtil::append(_sendBuf, std::to_string(remaining));
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Type: application/octet-stream\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    co_await _io.fullySend(_sendBuf); // 先发头
+                    co_await _io.fullySend(partHeads[i]); // 先发头
 
                     utils::AsyncFile file{_io};
                     co_await file.open(filePath);
@@ -608,16 +587,16 @@ public:
                                 break;
                             }
                             co_await _io.fullySend({buf.data(), size});
-                            co_await _io.fullySend(CRLF);
                             remaining -= size;
                         }
+                        co_await _io.fullySend(CRLF);
                     } catch (...) {
                         // _io.template send 会抛异常
                         ;
                     }
                     co_await file.close();
                 }
-                co_await _io.fullySend("--BOUNDARY_STRING--\r\n"sv);
+                co_await _io.fullySend(kBoundaryEnd);
             }
         } else {
             // 普通的传输文件
@@ -843,6 +822,13 @@ private:
         }
     }
 
+    /**
+     * @brief [仅服务端] 生成 Content-Range 的值
+     */
+    static std::string _makeContentRange(uint64_t begin, uint64_t end, std::string const& fileSize) {
+        return "bytes " + std::to_string(begin) + "-" + std::to_string(end) + "/" + fileSize;
+    }
+
     /**
      * @brief [仅服务端] 生成完整的响应字符串, 用于写入
      * @warning 本方法子适用于`Content-Length`的短消息, 无法使用分块编码
-- 
2.43.0


From 83ee9e746b63df9cfe9a283f5bf6fdba6efa51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 39/77] fix: the boundary of multipart range responses does not
 occur in the file

---
 include/HXLibs/net/protocol/http/Response.hpp | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 6c72c81..682e2d2 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -23,6 +23,8 @@
 #include <vector>
 #include <unordered_map>
 #include <optional>
+#include <format>
+#include <random>
 
 #include <HXLibs/net/protocol/http/Http.hpp>
 #include <HXLibs/net/protocol/http/Status.hpp>
@@ -548,19 +550,21 @@ public:
                     --BOUNDARY_STRING--\r\n
                 */
                 // 先组装好每一段的头, 以得知整个响应体的大小
-                constexpr auto kBoundaryEnd = "--BOUNDARY_STRING--\r\n"sv;
+                // 边界不能出现在文件内容中, 故随机生成
+                auto const boundary = _makeBoundary();
+                auto const boundaryEnd = "--" + boundary + "--\r\n";
                 std::vector<std::string> partHeads;
-                uint64_t bodySize = kBoundaryEnd.size();
+                uint64_t bodySize = boundaryEnd.size();
                 for (auto [beginPos, endPos] : ranges) {
                     uint64_t partSize = endPos - beginPos + 1;
-                    auto& head = partHeads.emplace_back("--BOUNDARY_STRING\r\nContent-Range: ");
+                    auto& head = partHeads.emplace_back("--" + boundary + "\r\nContent-Range: ");
                     head += _makeContentRange(beginPos, endPos, fileSizeStr);
                     head += "\r\nContent-Length: ";
                     head += std::to_string(partSize);
                     head += "\r\nContent-Type: application/octet-stream\r\n\r\n";
                     bodySize += head.size() + partSize + CRLF.size();
                 }
-                addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
+                addHeader("Content-Type", "multipart/byteranges; boundary=" + boundary);
                 addHeader("Content-Length", std::to_string(bodySize));
                 _buildResponseLineAndHeaders();
                 co_await _io.fullySend(_sendBuf); // 先发一个头
@@ -596,7 +600,7 @@ public:
                     }
                     co_await file.close();
                 }
-                co_await _io.fullySend(kBoundaryEnd);
+                co_await _io.fullySend(boundaryEnd);
             }
         } else {
             // 普通的传输文件
@@ -829,6 +833,16 @@ private:
         return "bytes " + std::to_string(begin) + "-" + std::to_string(end) + "/" + fileSize;
     }
 
+    /**
+     * @brief [仅服务端] 随机生成 multipart 的边界
+     */
+    static std::string _makeBoundary() {
+        thread_local std::mt19937_64 rng{
+            (static_cast<uint64_t>(std::random_device{}()) << 32) | std::random_device{}()
+        };
+        return std::format("HXLibs_{:016x}{:016x}", rng(), rng());
+    }
+
     /**
      * @brief [仅服务端] 生成完整的响应字符串, 用于写入
      * @warning 本方法子适用于`Content-Length`的短消息, 无法使用分块编码
-- 
2.43.0


From b5ca2b699dfcb9c8876f74f7599a93bbdead7f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 40/77] fix: server-sent events are read and written exactly:
 empty values, leading blanks, long lines, blank lines, CRLF, events received
 with the head

---
 include/HXLibs/net/protocol/http/Response.hpp | 64 +++++++++++--------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 682e2d2..6dc776d 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -50,10 +50,7 @@ class HttpResponse;
 namespace internal {
 
 inline void fromSse(std::string& v, std::string_view sv) {
-    if (v.size()) {
-        v += '\n';
-    }
-    v += sv;
+    v = sv;
 }
 
 inline void fromSse(std::optional<std::string>& v, std::string_view sv) {
@@ -83,13 +80,13 @@ public:
         using namespace std::string_view_literals;
         auto& io = _res.getIO();
         if (event.event.size()) {
-            co_await sendStr("event:"sv, event.event);
+            co_await sendStr("event: "sv, event.event);
         }
         if (event.data.size()) {
-            co_await sendStr("data:"sv, event.data);
+            co_await sendStr("data: "sv, event.data);
         }
         if (event.id) {
-            co_await sendStr("id:"sv, *event.id);
+            co_await sendStr("id: "sv, *event.id);
         }
         if (event.retry) {
             co_await io.fullySend("retry:"sv);
@@ -262,6 +259,11 @@ public:
         // 进行 SSE 解析, 只有 TCP close 才是 SSE 结束, 因为它默认不会结束. 需用户协议好 [done] data
         SseEvent event;
         for (;;) {
+            // 可能已经和响应头一起读取到了事件, 故先解析
+            while (_parserSseStrem(event)) {
+                co_yield std::move(event);
+                event = {};
+            }
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + _recvBuf.max_size()}
@@ -278,10 +280,6 @@ public:
                 throw std::runtime_error{"parseBody: Connection is Broken"};
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
-            while (_parserSseStrem(event)) {
-                co_yield std::move(event);
-                new (&event)SseEvent;
-            }
         }
         co_return std::move(event);
     }
@@ -1017,15 +1015,33 @@ private:
             pos != std::string_view::npos;
             pos = buf.find('\n')
         ) {
-            // now line is: [0, pos)
-            auto skPos = buf.find(':');
-            if (skPos >= pos) {
-                // 说明本行是 \n
-                _recvBuf.moveToHead(buf.substr(1)); // 跳过 \n
-                return sse;
+            // _body 是本行之前读取到的部分
+            _body.append(buf.substr(0, pos));
+            buf = buf.substr(pos + 1); // 跳过 \n
+            std::string_view line = _body;
+            if (line.ends_with('\r')) {
+                line.remove_suffix(1);
             }
-            auto key = buf.substr(0, skPos);
-            if (key.size()) { // 仅 \n
+            if (line.empty()) { // 空行, 事件结束
+                _body.clear();
+                if (sse) {
+                    if (sse.data.size()) {
+                        sse.data.pop_back(); // 去掉最后一行末尾的 \n
+                    }
+                    _recvBuf.moveToHead(buf);
+                    return true;
+                }
+                continue;
+            }
+            auto key = line.substr(0, line.find(':'));
+            auto val = line.substr(std::min(key.size() + 1, line.size()));
+            if (val.starts_with(' ')) {
+                val.remove_prefix(1);
+            }
+            if (key == "data"sv) { // 可以有多行
+                sse.data += val;
+                sse.data += '\n';
+            } else if (key.size()) { // 仅 \n
                 static const auto mp = reflection::makeNameToIdxVariantHashMap<SseEvent>();
                 if (auto it = mp.find(key); it != mp.end()) {
                     std::visit([&](auto&& idx) constexpr {
@@ -1033,17 +1049,15 @@ private:
                         auto ptr = reinterpret_cast<PtrType>(
                             reinterpret_cast<char*>(&sse) + idx.offset
                         );
-                        auto val = buf.substr(skPos + 1, pos - skPos - 1);
-                        if (val.front() == ' ') {
-                            val = val.substr(1);
-                        }
                         internal::fromSse(*ptr, val);
                     }, it->second);
                 }
             }
-            buf = buf.substr(pos + 1); // 跳过 \n
+            _body.clear();
         }
-        _recvBuf.moveToHead(buf);
+        // 本行没有读取完全
+        _body.append(buf);
+        _recvBuf.clear();
         return false;
     }
 
-- 
2.43.0


From f28dc91ebcf21d8112d84ec7a86aac1625942031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 41/77] fix: fullyRecv reports a broken connection instead of
 looping forever at end of stream

---
 include/HXLibs/net/socket/IO.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 244d8cd..8ca703c 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -90,6 +90,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"Connection is Broken"}; // 对方已经关闭
+            }
             buf = buf.subspan(sent);
         }
     }
@@ -337,6 +340,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"Connection is Broken"}; // 对方已经关闭
+            }
             buf = buf.subspan(sent);
         }
     }
-- 
2.43.0


From 4531f05d051ca772ef1e91d4fc4ecf3b803f617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 42/77] fix: WebSocket reception follows RFC 6455 (fragments,
 control frames, close, damaged frames) and the handshake checks its fields
 and keeps early frames

---
 .../net/protocol/websocket/WebSocket.hpp      | 300 +++++++++---------
 1 file changed, 143 insertions(+), 157 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f77fcbc..b30467b 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -189,7 +189,7 @@ public:
         , _recvBuf{std::move(recvBuf)}
     {}
 
-    IO& getIO() noexcept {
+    IOType& getIO() noexcept {
         return _io;
     }
 
@@ -250,32 +250,33 @@ public:
     template <bool TimeoutIsError = false, typename Timeout = DefaultPPTimeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<WebSocketPacket> recv(OpCode recvType, OpCode alternative = OpCode::Unknown) {
+        // 是否已经因为超时而发送了 ping
+        bool isPinged = false;
         for (;;) {
             auto res = co_await recvPacket<Timeout>();
             if (!res) [[unlikely]] {
-                if constexpr (TimeoutIsError) {
-                    // 读取超时
+                // 读取超时
+                if (TimeoutIsError || isPinged) {
                     throw std::runtime_error{"Read Timeout"};
-                } else {
-                    // 第一次超时就 ping, 然后尝试读取 pong
-                    co_await ping();
-                    // 如果 pong 超时, 就是异常了!
-                    auto res = co_await recv<true>(OpCode::Pong, recvType);
-                    if (res.opCode == recvType) [[unlikely]] {
-                        // 特别的: 如果此时 之前 recv 的数据到了, 那么继续把这次的 OpCode::Pong 接收
-                        co_await recv<true>(OpCode::Pong);
-                        co_return res;
-                    }
-                    // 没有超时就继续等待数据然后读取
-                    continue;
                 }
+                // 第一次超时就 ping, 如果还是没有收到任何内容, 就是异常了!
+                co_await ping();
+                isPinged = true;
+                continue;
             } else if ((*res).opCode == OpCode::Ping) {
                 co_await pong(std::move(*res).content);
+                isPinged = false;
                 continue;
             } else if ((*res).opCode == OpCode::Close) [[unlikely]] {
                 co_await resClose(std::move(*res).content);
                 // 对方主动关闭连接: 安全关闭
                 throw std::runtime_error{"Connection Closed OK: 1000"};
+            } else if ((*res).opCode == OpCode::Pong
+                && recvType != OpCode::Pong && alternative != OpCode::Pong
+            ) {
+                // 对 ping 的响应, 或者对方主动的心跳
+                isPinged = false;
+                continue;
             } else if ((*res).opCode != recvType && (*res).opCode != alternative) [[unlikely]] {
                 // 读取的不是期望的类型
                 throw std::runtime_error{"The type read is not the expected type"};
@@ -353,15 +354,19 @@ public:
         co_await send(OpCode::Close);
 
         // 等待
-        auto res = co_await recvPacket<DefaultPPTimeout>();
+        try {
+            auto res = co_await recvPacket<DefaultPPTimeout>();
 
-        if (!res || res->opCode != OpCode::Close) [[unlikely]] {
-            // 超时 或者 协议非期望
-            co_return ; // 那我假设已经完成了
-        }
+            if (!res || res->opCode != OpCode::Close) [[unlikely]] {
+                // 超时 或者 协议非期望
+                co_return ; // 那我假设已经完成了
+            }
 
-        // 再次发送, 确定断线
-        co_await send(OpCode::Close);
+            // 再次发送, 确定断线
+            co_await send(OpCode::Close);
+        } catch (...) {
+            ; // 对方已经断开连接, 同样视为完成
+        }
     }
 
     /**
@@ -391,86 +396,69 @@ private:
     // 缓存之前多读取的内容, 特别的, 原本头部的数据是在尾部! 应该使用 back() + pop_back() 进行遍历
     std::vector<char> _recvBuf;
 
+    // 尚未接收完的分片消息 (分片之间可能夹杂控制帧)
+    std::optional<WebSocketPacket> _fragment{};
+
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
-     * @brief 读取
-     * @tparam Timeout 超时时间
-     * @tparam Res
-     * > 
+     * @brief 完全读取
+     * @tparam Timeout 每次读取的超时时间
+     * @param buf 
+     * @return coroutine::Task<bool> false: 超时, 并且没有读取到任何内容
+     * @throw 出错, 对方断开连接, 或者读取到一半时超时
      */
-    template <typename Timeout, typename Res = 
-#if defined(__linux__)
-    coroutine::WhenAnyReturnType<
-        coroutine::AioTask,
-        decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))
-    >
-#elif defined(_WIN32)
-    container::UninitializedNonVoidVariant<int, void> // 只能固定返回值
-#else
-    // 暂时不支持该操作系统
-    #error "Unsupported operating system"
-#endif // !defined(__linux__)
-    >
+    template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<Res> recvLinkTimeout(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
+    coroutine::Task<bool> fullyRecv(std::span<char> buf) {
+        std::size_t n = 0;
+        while (n < buf.size() && !_recvBuf.empty()) {
+            buf[n++] = _recvBuf.back();
+            _recvBuf.pop_back();
+        }
+        while (n < buf.size()) {
+            auto res = co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(n));
+            if (res.index() == 1) [[unlikely]] {
+                if (n == 0) {
+                    co_return false;
+                }
+                throw std::runtime_error{"Read Timeout"};
             }
-            if (size >= buf.size()) {
-                Res res;
-                res.template emplace<0>(static_cast<
-                    coroutine::AwaiterReturnType<coroutine::AioTask>
-                >(buf.size()));
-                co_return res;
+            auto len = static_cast<std::size_t>(HXLIBS_CHECK_EVENT_LOOP(
+                (res.template get<0, exception::ExceptionMode::Nothrow>())
+            ));
+            if (len == 0) [[unlikely]] {
+                throw std::runtime_error{"Connection is Broken"};
             }
-            // @todo 此处偷懒了, 因为也没有使用到 get<0>() 的实际的值, 所以没有影响
-            // 但是不保证日后!
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(size));
-        } else {
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf);
+            n += len;
+        }
+        co_return true;
+    }
+
+    /**
+     * @brief 完全读取, 超时则抛异常
+     */
+    template <typename Timeout>
+        requires(utils::HasTimeNTTP<Timeout>)
+    coroutine::Task<> mustRecv(std::span<char> buf) {
+        if (!co_await fullyRecv<Timeout>(buf)) [[unlikely]] {
+            throw std::runtime_error{"Read Timeout"};
         }
     }
 
     /**
      * @brief 直接将二进制写入到类型T中, 注意需要区分大小端
      * @warning 默认是网络序(大端), 如果需要使用, 注意转换
-     * @tparam T 
-     * @return coroutine::Task<T> 
      */
-    template <typename T>
+    template <typename T, typename Timeout>
+        requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<T> recvStruct() {
         T res;
-        co_await fullyRecv(std::span<char>{
+        co_await mustRecv<Timeout>(std::span<char>{
             reinterpret_cast<char*>(&res), sizeof(T)
         });
         co_return res;
     }
-    
-
-    /**
-     * @brief 完全读取
-     * @param buf 
-     * @return coroutine::Task<> 
-     */
-    coroutine::Task<> fullyRecv(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                co_return;
-            }
-            co_await _io.fullyRecv(buf.subspan(size));
-        } else {
-            co_await _io.fullyRecv(buf);
-        }
-    }
 
     // 响应 pong (无需暴露, 库内部使用即可)
     template <typename Timeout = DefaultPPTimeout>
@@ -532,25 +520,23 @@ private:
   以及, 如果分片 (fin = false), 那么它的第一个包是 (Test / Binary), 之后的只能是 Cont
   注意, 分片的数据只能是 Test / Binary
 */
-        // 记录是否为最后一个分片
-        bool fin;
-
-        // 记录第一帧数据内容
-        OpCode firstOpCode{OpCode::Unknown};
-        do {
-            auto res = co_await recvLinkTimeout<Timeout>(
-                std::span<char>{reinterpret_cast<char*>(head), 2});
-            if (res.index() == 1 
-             || res.template get<0, exception::ExceptionMode::Nothrow>() <= 0
+        for (;;) {
+            if (!co_await fullyRecv<Timeout>(
+                std::span<char>{reinterpret_cast<char*>(head), 2})
             ) [[unlikely]] {
-                // 超时 或者 出错
+                // 超时
                 co_return std::nullopt;
             }
             uint8_t head0 = head[0];
             uint8_t head1 = head[1];
 
+            // 没有协商扩展, 保留位必须为 0
+            if (head0 & 0x70) [[unlikely]] {
+                throw std::runtime_error{"Protocol Error: RSV"};
+            }
+
             // 解析 FIN, 为 0 标识当前为最后一个包
-            fin = (head0 >> 7);
+            bool fin = (head0 >> 7);
 
             // 解析 OpCode
             packet.opCode = static_cast<OpCode>(head0 & 0x0F);
@@ -564,13 +550,9 @@ private:
 
             uint8_t payloadLen8 = head1 & 0x7F;
             if (static_cast<uint8_t>(packet.opCode) <= 2) {
-                // 合法的数据帧
-                if (firstOpCode == OpCode::Unknown) [[likely]] {
-                    // 第一包必然是这里
-                    firstOpCode = packet.opCode;
-                } else if (packet.opCode != OpCode::Cont) [[unlikely]] {
-                    // 分片情况下
-                    throw std::runtime_error{"Fragmentation Error: OpCode != Cont"};
+                // 合法的数据帧: 消息由 Text / Binary 开始, 之后的分片只能是 Cont
+                if ((packet.opCode == OpCode::Cont) != _fragment.has_value()) [[unlikely]] {
+                    throw std::runtime_error{"Fragmentation Error"};
                 }
             } else if (static_cast<uint8_t>(packet.opCode) >= 8 
                     && static_cast<uint8_t>(packet.opCode) <= 10
@@ -584,7 +566,6 @@ private:
                     throw std::runtime_error{
                         "Control frame too big"};
                 }
-                firstOpCode = packet.opCode;
             } else [[unlikely]] {
                 // 其他保留值, 非法
                 throw std::runtime_error{"Unknown OpCode"};
@@ -593,52 +574,62 @@ private:
             // 解析包的长度
             std::size_t payloadLen;
             if (payloadLen8 == 0x7E) {
-                uint16_t payloadLen16 = co_await recvStruct<uint16_t>();
+                uint16_t payloadLen16 = co_await recvStruct<uint16_t, Timeout>();
                 payloadLen16 = utils::ByteUtils::byteswapIfLittle(payloadLen16);
                 payloadLen = static_cast<std::size_t>(payloadLen16);
             } else if (payloadLen8 == 0x7F) {
-                uint64_t payloadLen64 = co_await recvStruct<uint64_t>();
+                uint64_t payloadLen64 = co_await recvStruct<uint64_t, Timeout>();
                 payloadLen64 = utils::ByteUtils::byteswapIfLittle(payloadLen64);
-                if constexpr (sizeof(uint64_t) > sizeof(std::size_t)) {
-                    if (payloadLen64 > std::numeric_limits<std::size_t>::max()) {
-                        throw std::runtime_error{
-                            "payloadLen64 > std::numeric_limits<size_t>::max()"};
-                    }
+                // 协议规定最高位必须为 0
+                if (payloadLen64 >> 63
+                 || payloadLen64 > std::numeric_limits<std::size_t>::max()
+                ) [[unlikely]] {
+                    throw std::runtime_error{"Payload length out of range"};
                 }
                 payloadLen = static_cast<std::size_t>(payloadLen64);
             } else {
                 payloadLen = static_cast<std::size_t>(payloadLen8);
             }
 
+            // 获取掩码
+            uint8_t maskKeyArr[4]{};
             if constexpr (IsServer) {
-                // 获取掩码
-                uint8_t maskKeyArr[4];
-                co_await fullyRecv(std::span<char>{
+                co_await mustRecv<Timeout>(std::span<char>{
                     reinterpret_cast<char*>(maskKeyArr),
                     4
                 });
-    
-                // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
-    
-                const std::size_t len = tmp.size();
-                auto* p = reinterpret_cast<uint8_t*>(tmp.data());
-                for (std::size_t i = 0; i != len; ++i) {
+            }
+
+            // 解析数据 (分批读取, 不提前分配对方声称的长度)
+            constexpr std::size_t MaxStep = 1 << 17;
+            packet.content.clear();
+            for (std::size_t now = 0; now < payloadLen; now = packet.content.size()) {
+                packet.content.resize(now + std::min(MaxStep, payloadLen - now));
+                co_await mustRecv<Timeout>(std::span<char>{packet.content}.subspan(now));
+            }
+            if constexpr (IsServer) {
+                auto* p = reinterpret_cast<uint8_t*>(packet.content.data());
+                for (std::size_t i = 0; i != payloadLen; ++i) {
                     p[i] ^= maskKeyArr[i % 4];
                 }
-                packet.content += std::move(tmp);
+            }
+
+            if (static_cast<uint8_t>(packet.opCode) >= 8) {
+                // 控制帧可以夹杂在分片之间
+                co_return packet;
+            }
+            if (_fragment) {
+                _fragment->content += packet.content;
+            } else if (fin) [[likely]] {
+                co_return packet;
             } else {
-                // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
-                packet.content += std::move(tmp);
+                _fragment = std::move(packet);
+                packet = {};
+            }
+            if (fin) {
+                co_return *std::exchange(_fragment, std::nullopt);
             }
-        } while (!fin);
-        packet.opCode = firstOpCode;
-        co_return packet;
+        }
     }
 
     /**
@@ -769,7 +760,7 @@ public:
             throw std::runtime_error{"The client is missing the origin field"};
         }
         if (auto it = headMap.find("upgrade");
-            it == headMap.end() || it->second != "websocket"
+            it == headMap.end() || !internal::hasToken(it->second, "websocket")
         ) [[unlikely]] {
             // 创建 WebSocket 连接失败
             co_await _res.setResLine(Status::CODE_400)
@@ -778,7 +769,7 @@ public:
         }
         if (auto it = headMap.find("connection");
             // 可能是 "keep-alive, Upgrade" 这种情况
-            it == headMap.end() || it->second.find("Upgrade") == std::string::npos
+            it == headMap.end() || !internal::hasToken(it->second, "upgrade")
         ) [[unlikely]] {
             co_await _res.setResLine(Status::CODE_416)
                         .sendRes();
@@ -787,6 +778,8 @@ public:
         auto wsKey = headMap.find("sec-websocket-key");
         if (wsKey == headMap.end()) [[unlikely]] {
             // 在标头中找不到 sec-websocket-key
+            co_await _res.setResLine(Status::CODE_400)
+                        .sendRes();
             throw std::runtime_error{"Not Find sec-websocket-key in headers"};
         }
 
@@ -797,17 +790,7 @@ public:
                                internal::webSocketSecretHash(wsKey->second))
                     .sendRes();
 
-        co_return {_res._io, [&]{
-            // 缓存迁移
-            std::vector<char> buf;
-            std::size_t n = _res._recvBuf.size();
-            buf.resize(n);
-            auto* data = _res._recvBuf.data();
-            for (std::size_t i = 0, j = n - 1; i < n; ++i, --j) {
-                buf[i] = data[j];
-            }
-            return buf;
-        }()};
+        co_return {_res._io, takeRecvBuf(_req._recvBuf)};
     }
 
     /**
@@ -831,7 +814,8 @@ public:
            .addHeaders("Upgrade", "websocket")
            .addHeaders("Sec-WebSocket-Key", key)
            .addHeaders("Sec-WebSocket-Version", "13")
-           .addHeaders(headers);
+           .addHeaders(headers)
+           .tryAddHeaders("Host", UrlParse::extractHostPort(url));
         co_await req.template sendHttpReq<Timeout>();
         // 解析响应
         Response res{io};
@@ -850,13 +834,13 @@ public:
         auto const& headMap = res.getHeaders();
         if (auto it = headMap.find("connection");
             // 仅要求包含 Upgrade 即可
-            it == headMap.end() || it->second.find("Upgrade") == std::string::npos
+            it == headMap.end() || !internal::hasToken(it->second, "upgrade")
         ) [[unlikely]] {
             throw std::runtime_error{
                 "Failed to create a websocket connection (Connection header invalid)"};
         }
         if (auto it = headMap.find("upgrade");
-            it == headMap.end() || it->second != "websocket"
+            it == headMap.end() || !internal::hasToken(it->second, "websocket")
         ) [[unlikely]] {
             throw std::runtime_error{
                 "Failed to create a websocket connection (Upgrade header invalid)"};
@@ -868,17 +852,19 @@ public:
                 "Failed to create a websocket connection (Accept hash mismatch)"};
         }
         // ws连接 成功
-        co_return {io, [&]{
-            // 缓存迁移
-            std::vector<char> buf;
-            std::size_t n = res._recvBuf.size();
-            buf.resize(n);
-            auto* data = res._recvBuf.data();
-            for (std::size_t i = 0, j = n - 1; i < n; ++i, --j) {
-                buf[i] = data[j];
-            }
-            return buf;
-        }(), std::random_device{}()};
+        co_return {io, takeRecvBuf(res._recvBuf), std::random_device{}()};
+    }
+
+private:
+    /**
+     * @brief 缓存迁移: 取走已经读取, 但是不属于握手报文的内容 (倒序)
+     */
+    template <typename Buf>
+    static std::vector<char> takeRecvBuf(Buf& recvBuf) {
+        std::string_view data{recvBuf.data(), recvBuf.size()};
+        std::vector<char> buf(data.rbegin(), data.rend());
+        recvBuf.clear();
+        return buf;
     }
 };
 
-- 
2.43.0


From dac058c9cbf3a6170f0e25ef90be939db6462421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 43/77] fix: timers and yields of one round do not starve each
 other or pending I/O

---
 include/HXLibs/coroutine/loop/TimerLoop.hpp | 38 ++++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/TimerLoop.hpp b/include/HXLibs/coroutine/loop/TimerLoop.hpp
index 853c058..c0f7df1 100644
--- a/include/HXLibs/coroutine/loop/TimerLoop.hpp
+++ b/include/HXLibs/coroutine/loop/TimerLoop.hpp
@@ -18,10 +18,12 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <chrono>
 #include <map>
 #include <list>
 #include <coroutine>
+#include <optional>
 
 namespace HX::coroutine {
 
@@ -34,20 +36,38 @@ struct TimerLoop {
 
     TimerLoop& operator=(TimerLoop&&) = delete;
 
+    /**
+     * @brief 恢复所有到期的定时器, 以及此前让出执行权的协程 (各一轮)
+     * @return 距离下一次需要 run 的时间; 如果没有任何等待者, 则为 std::nullopt
+     */
     std::optional<std::chrono::system_clock::duration> run() {
+        // 只处理此刻已经到期的, 防止期间新增的定时器饿死其他等待者
+        auto const nowTime = std::chrono::system_clock::now();
         while (_timerTree.size()) {
-            auto nowTime = std::chrono::system_clock::now();
             auto it = _timerTree.begin();
-            if (it->first <= nowTime) {
-                it->second.resume();
-                _timerTree.erase(it);
-            } else {
-                return it->first - nowTime;
+            if (it->first > nowTime) {
+                break;
             }
+            it->second.resume();
+            _timerTree.erase(it);
+        }
+        // 只处理此前的让出者, 再次让出的留给下一轮
+        if (_yieldQueue.size()) {
+            auto const mark = _yieldQueue.insert(_yieldQueue.end(), nullptr);
+            while (_yieldQueue.begin() != mark) {
+                _yieldQueue.front().resume();
+                _yieldQueue.pop_front();
+            }
+            _yieldQueue.erase(mark);
+        }
+        if (_yieldQueue.size()) {
+            return std::chrono::system_clock::duration::zero();
         }
-        while (_yieldQueue.size()) {
-            _yieldQueue.front().resume();
-            _yieldQueue.pop_front();
+        if (_timerTree.size()) {
+            return std::max(
+                _timerTree.begin()->first - std::chrono::system_clock::now(),
+                std::chrono::system_clock::duration::zero()
+            );
         }
         return {};
     }
-- 
2.43.0


From 8534e275efc60288b392c31b0bad98d4c99e8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 44/77] fix: a throwing section does not stop a serial
 executor, and the executor may be destroyed by the last submitter

---
 .../coroutine/executor/SerialExecutor.hpp     | 86 +++++++++++++------
 1 file changed, 60 insertions(+), 26 deletions(-)

diff --git a/include/HXLibs/coroutine/executor/SerialExecutor.hpp b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
index eefe5af..183e69d 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutor.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
@@ -21,6 +21,9 @@
 #include <queue>
 #include <list>
 #include <memory>
+#include <exception>
+#include <tuple>
+#include <utility>
 
 #include <HXLibs/coroutine/task/Task.hpp>
 
@@ -65,9 +68,13 @@ class SerialExecutor {
     struct State {
         bool isRun{};
         // 传递引用, 防止其因为析构引发的 段错误
-        std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>>> q;
+        // 异常指针指向排队者的 awaiter, 用于把任务的异常传递给它; 为空则由 start() 的调用者接收
+        std::queue<std::tuple<
+            coroutine::Task<> const&, std::coroutine_handle<>, std::exception_ptr*>> q;
         // SerialTask 运行队列
         std::list<SerialTask::HandleType> runList;
+        // 正在恢复排队者; 此时 runList 中的协程都在调用栈上, 不能销毁
+        bool isResuming{};
     };
 
     struct SerialAwaiter {
@@ -76,35 +83,67 @@ class SerialExecutor {
             , _task{task}
         {}
         constexpr bool await_ready() const noexcept { return false; }
-        bool await_suspend(std::coroutine_handle<> co) const noexcept {
-            [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
-            if (!isRun) {
-                q.push({_task, std::noop_coroutine()});
+        bool await_suspend(std::coroutine_handle<> co) noexcept {
+            auto& q = _mtx._runList->q;
+            if (!_mtx._runList->isRun) {
+                q.push({_task, std::noop_coroutine(), nullptr});
                 return false;
             }
-            q.push({_task, co});
+            q.push({_task, co, &_exception});
             return true;
         }
-        constexpr void await_resume() const noexcept {}
+        void await_resume() const {
+            if (_exception) [[unlikely]] {
+                std::rethrow_exception(_exception);
+            }
+        }
     private:
         SerialExecutor& _mtx;
         coroutine::Task<> const& _task;
+        std::exception_ptr _exception{};
     };
 
-    coroutine::Task<> start() {
-        auto runListPtr = _runList;
-        auto& [isRun, q, runList] = *runListPtr;
-        auto [task, co] = std::move(q.front());
+    // 执行器可能在 co.resume() 中被析构, 因此只能访问 state
+    static coroutine::Task<> start(std::shared_ptr<State> state) {
+        auto& [isRun, q, runList, isResuming] = *state;
+        auto [task, co, waiter] = std::move(q.front());
         q.pop();
-        co_await task;
+        std::exception_ptr exception{};
+        try {
+            co_await task;
+        } catch (...) {
+            exception = std::current_exception();
+        }
+        if (waiter && exception) {
+            *waiter = std::exchange(exception, {});
+        }
+        isResuming = true;
         co.resume();
+        isResuming = false;
         if (!isRun || q.empty()) {
             isRun = false;
-            co_return;
+        } else {
+            runNext(state).via(runList).detach();
+        }
+        if (exception) [[unlikely]] {
+            // 任务抛出异常, 不能影响后面排队的任务
+            std::rethrow_exception(exception);
+        }
+    }
+
+    static SerialTask runNext(std::shared_ptr<State> state) {
+        co_await start(state);
+    }
+
+    static void clear(State& state) noexcept {
+        auto& [isRun, q, runList, isResuming] = state;
+        q = {};
+        isRun = false;
+        if (!isResuming) {
+            for (auto& co : runList)
+                co.destroy();
+            runList.clear();
         }
-        [this]() -> SerialTask {
-            co_await start();
-        }().via(runList).detach();
     }
 public:
     /**
@@ -116,7 +155,7 @@ public:
         co_await SerialAwaiter{*this, t};
         if (auto& isRun = _runList->isRun; !isRun) {
             isRun = true;
-            co_await start();
+            co_await start(_runList);
         }
     }
 
@@ -124,21 +163,16 @@ public:
      * @brief 清空所有正在等待的串行任务
      */
     void clear() {
-        auto& [isRun, q, runList] = *_runList;
-        q = {};
-        isRun = false;
-        for (auto& co : runList)
-            co.destroy();
-        runList.clear();
+        // 旧的任务 (如果还在调用栈上) 只会访问旧的 State
+        clear(*std::exchange(_runList, std::make_shared<State>()));
     }
 
     ~SerialExecutor() noexcept {
-        clear();
+        clear(*_runList);
     }
 private:
     // @todo 需要一个协程的共享智能指针
-    const std::shared_ptr<State> _runList = std::make_shared<State>(
-        State{false, {}, {}});
+    std::shared_ptr<State> _runList = std::make_shared<State>();
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From 895f67e01086b1700b3982ae4439523020e11de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 45/77] fix: a raw I/O operation abandoned with its coroutine
 is cancelled instead of resuming a destroyed frame

---
 include/HXLibs/coroutine/loop/EventLoop.hpp | 60 +++++++++++++++++----
 include/HXLibs/coroutine/task/AioTask.hpp   | 57 ++++++++++++++++++--
 2 files changed, 102 insertions(+), 15 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index b524979..d6e3673 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -20,6 +20,9 @@
 
 #include <thread>
 #include <chrono>
+#include <memory>
+#include <utility>
+#include <vector>
 #include <coroutine>
 
 #if defined (_WIN32)
@@ -107,7 +110,14 @@ struct IoUring {
         );
     }
 
+    IoUring& operator=(IoUring&&) noexcept = delete;
+
     ~IoUring() noexcept {
+        for (auto& op : _ops) {
+            if (op->_task) {
+                op->_task->_op = nullptr;
+            }
+        }
         ::io_uring_queue_exit(&_ring);
     }
 
@@ -115,7 +125,7 @@ struct IoUring {
         // mandatory copy elision 场景
         // 编译器强制使用 RVO (返回值优化)
         // https://en.cppreference.com/w/cpp/language/copy_elision.html
-        return AioTask{getSqe()};
+        return AioTask{makeAioOp()};
     }
 
     /**
@@ -164,27 +174,53 @@ struct IoUring {
         unsigned head, numGot = 0;
         io_uring_for_each_cqe(&_ring, head, cqe) {
             ++numGot;
-            if (cqe->res == -ECANCELED) { // 操作已取消 (比如超时了)
-                continue;
-            }
-            auto* task = reinterpret_cast<AioTask*>(cqe->user_data);
-            if (!task) [[unlikely]] {
+            auto* op = reinterpret_cast<AioOp*>(cqe->user_data);
+            if (!op) [[unlikely]] {
                 continue; // 仅 prepNop
             }
-            task->_res = cqe->res;
-            tasks.push_back(task->_previous);
+            op->_isDone = true;
+            op->_res = cqe->res;
+            tasks.push_back(op);
         }
 
         // 手动前进完成队列的头部 (相当于批量io_uring_cqe_seen)
         ::io_uring_cq_advance(&_ring, numGot);
         _numSqesPending -= static_cast<std::size_t>(numGot);
-        for (const auto& it : tasks) {
-            it.resume();
+        for (auto* op : tasks) {
+            // 之前恢复的协程可能析构了该任务, 此时无人等待
+            auto* task = std::exchange(op->_task, nullptr);
+            auto res = op->_res;
+            _freeOps.push_back(op);
+            if (!task) {
+                continue;
+            }
+            task->_op = nullptr;
+            if (res == -ECANCELED) { // 操作已取消 (比如超时了)
+                continue;
+            }
+            task->_res = res;
+            task->_previous.resume();
         }
         tasks.clear();
     }
 
 private:
+    AioOp* makeAioOp() {
+        auto* sqe = getSqe();
+        if (_freeOps.empty()) {
+            _ops.push_back(std::make_unique<AioOp>(_ring));
+            _freeOps.reserve(_ops.size());
+            _freeOps.push_back(_ops.back().get());
+        }
+        auto* op = _freeOps.back();
+        _freeOps.pop_back();
+        op->_sqe = sqe;
+        op->_seq = _ring.sq.sqe_tail - 1;
+        op->_isLinkTimeout = false;
+        op->_isDone = false;
+        return op;
+    }
+
     ::io_uring_sqe* getSqe() {
         // 获取一个任务
         ::io_uring_sqe* sqe = ::io_uring_get_sqe(&_ring);
@@ -214,8 +250,10 @@ private:
 
     ::io_uring _ring;
     std::size_t _numSqesPending; // 未完成的任务数
-    std::vector<std::coroutine_handle<>> tasks; // 协程任务队列
+    std::vector<AioOp*> tasks;                  // 已完成的操作队列
                                                 // 提取为成员, 避免频繁构造临时变量导致频繁扩容
+    std::vector<std::unique_ptr<AioOp>> _ops;   // 所有登记
+    std::vector<AioOp*> _freeOps;               // 空闲的登记
 };
 
 #elif defined(_WIN32)
diff --git a/include/HXLibs/coroutine/task/AioTask.hpp b/include/HXLibs/coroutine/task/AioTask.hpp
index 9d9ea2e..078ad81 100644
--- a/include/HXLibs/coroutine/task/AioTask.hpp
+++ b/include/HXLibs/coroutine/task/AioTask.hpp
@@ -19,6 +19,7 @@
  */
 
 #include <span>
+#include <cstdint>
 
 #include <HXLibs/platform/EventLoopApi.hpp>
 #include <HXLibs/platform/LocalFdApi.hpp>
@@ -34,11 +35,53 @@ struct IoUring;
 
 } // namespace internal
 
+struct AioTask;
+
+namespace internal {
+
+/**
+ * @brief 一次异步操作的登记 (user_data), 归 IoUring 所有, 直到收取其 CQE 才会被复用
+ * @note AioTask 可能先于操作完成而析构 (如 whenAny 的败者), 故内核不能直接持有 AioTask 的地址
+ */
+struct AioOp {
+    ::io_uring& _ring;
+    AioTask* _task{nullptr};        // nullptr 表示已经没有人等待该操作
+    ::io_uring_sqe* _sqe{nullptr};
+    unsigned _seq{};                // _sqe 在提交队列中的序号
+    int _res{};
+    bool _isLinkTimeout{false};
+    bool _isDone{false};            // 已经收取 CQE
+
+    /**
+     * @brief AioTask 析构, 撤销操作: 返回后内核不再读写操作的缓冲区
+     */
+    void abandon() noexcept {
+        _task = nullptr;
+        if (_isDone) {
+            return;
+        }
+        if (static_cast<int>(_ring.sq.sqe_head - _seq) <= 0) { // 尚未提交
+            ::io_uring_prep_nop(_sqe);
+        } else if (!_isLinkTimeout) { // 超时会随其链接的操作一同结束
+            ::io_uring_sync_cancel_reg reg{};
+            reg.addr = reinterpret_cast<std::uintptr_t>(this);
+            reg.fd = -1;
+            reg.timeout.tv_sec = -1;
+            reg.timeout.tv_nsec = -1;
+            ::io_uring_register_sync_cancel(&_ring, &reg);
+        }
+    }
+};
+
+} // namespace internal
+
 struct AioTask {
-    AioTask(::io_uring_sqe* sqe) noexcept
-        : _sqe{sqe}
+    AioTask(internal::AioOp* op) noexcept
+        : _sqe{op->_sqe}
+        , _op{op}
     {
-        ::io_uring_sqe_set_data(_sqe, this);
+        _op->_task = this;
+        ::io_uring_sqe_set_data(_sqe, _op);
     }
 
 #if 0 // 注意: 不能存在`移动`, 否则 IoUring::makeAioTask 返回就是 构造的新对象; 屏蔽了移动, 反而是编译器优化!
@@ -74,6 +117,7 @@ private:
         int _res;
         ::io_uring_sqe* _sqe;
     };
+    internal::AioOp* _op;       // nullptr 表示操作已经结束
     std::coroutine_handle<> _previous;
 
 public:
@@ -263,6 +307,7 @@ public:
         struct __kernel_timespec* ts,
         unsigned int flags
     ) && {
+        _op->_isLinkTimeout = true;
         ::io_uring_prep_link_timeout(_sqe, ts, flags);
         return std::move(*this);
     }
@@ -280,7 +325,11 @@ public:
         return whenAny(std::move(task), std::move(timeoutTask));
     }
 
-    ~AioTask() noexcept = default;
+    ~AioTask() noexcept {
+        if (_op) {
+            _op->abandon();
+        }
+    }
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From 283dc32410bfe35a0d5777e53d77544f223adf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 46/77] fix: a linked I/O and timeout pair is never split over
 two submissions

---
 include/HXLibs/coroutine/loop/EventLoop.hpp | 49 ++++++++++++++-------
 include/HXLibs/net/socket/IO.hpp            |  2 +
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index d6e3673..9fc673b 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -128,6 +128,15 @@ struct IoUring {
         return AioTask{makeAioOp()};
     }
 
+    /**
+     * @brief 保证接下来的 n 个任务在同一次提交中 (链接的任务不能被分开提交)
+     */
+    void reserve(unsigned int n) {
+        if (::io_uring_sq_space_left(&_ring) < n) [[unlikely]] {
+            submit();
+        }
+    }
+
     /**
      * @brief 投递一个空任务
      */
@@ -221,28 +230,27 @@ private:
         return op;
     }
 
+    void submit() {
+        // 提交任务队列给内核 (为什么不是sqe, 因为sqe是从ring中get出来的, 故其本身就包含了sqe)
+        int res;
+        do {
+            res = ::io_uring_submit(&_ring);
+        } while (res == -EINTR);
+        if (res < 0) [[unlikely]] {
+            throw std::system_error(-res, std::system_category());
+        }
+    }
+
     ::io_uring_sqe* getSqe() {
         // 获取一个任务
         ::io_uring_sqe* sqe = ::io_uring_get_sqe(&_ring);
-        while (!sqe) {
-#if 0
-            // 提交任务队列给内核 (为什么不是sqe, 因为sqe是从ring中get出来的, 故其本身就包含了sqe)
-            int res = ::io_uring_submit(&_ring);
-            if (res < 0) [[unlikely]] {
-                if (res == -EINTR) {
-                    continue;
-                }
-                throw std::system_error(-res, std::system_category());
-            }
-            // 提交了, 应该有空位, 那可以
-            sqe = ::io_uring_get_sqe(&_ring);
-#else
-            ::io_uring_submit_and_wait(&_ring, 1); // 直接挂起等待操作系统完成了再说
+        if (!sqe) {
+            // 不能挂起等待: 已提交的任务可能都在等待本线程 (如定时器) 才能完成
+            submit();
             sqe = ::io_uring_get_sqe(&_ring);
             if (!sqe) {
-                throw std::runtime_error("Still failed to get sqe after wait");
+                throw std::runtime_error("Still failed to get sqe after submit");
             }
-#endif
         }
         ++_numSqesPending;
         return sqe;
@@ -528,6 +536,15 @@ struct EventLoop {
         return _eventDrive.makeAioTask();
     }
 
+    /**
+     * @brief 保证接下来的 n 个异步IO任务一同提交 (用于 AioTask::linkTimeout)
+     */
+    void reserveAioTask([[maybe_unused]] unsigned int n) {
+#if defined(__linux__)
+        _eventDrive.reserve(n);
+#endif
+    }
+
     /**
      * @brief 创建异步线程任务 (仅控制权)
      * @return decltype(auto) 
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 8ca703c..43c3eff 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -119,6 +119,7 @@ public:
         coroutine::AioTask,
         decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))
     >> recvLinkTimeout(std::span<char> buf) {
+        _eventLoop.reserveAioTask(2);
         co_return co_await coroutine::AioTask::linkTimeout(
             _eventLoop.makeAioTask().prepRecv(_fd, buf, 0),
             _eventLoop.makeAioTask().prepLinkTimeout(
@@ -181,6 +182,7 @@ public:
 #if defined(__linux__)
         // io_uring 也不保证其可以完全一次性写入...
         while (!buf.empty()) {
+            _eventLoop.reserveAioTask(2);
             auto res = co_await coroutine::AioTask::linkTimeout(
                 _eventLoop.makeAioTask().prepSend(_fd, buf, 0),
                 _eventLoop.makeAioTask().prepLinkTimeout(
-- 
2.43.0


From 100088fe88b97ebbedab6e179407f04269865d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 47/77] fix: AsyncFile::open works with unterminated and
 dirfd-relative paths and starts at offset 0

---
 include/HXLibs/utils/FileUtils.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 061eff4..2918020 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -24,6 +24,10 @@
 #include <filesystem>
 #include <span>
 
+#if defined(__linux__)
+#include <sys/stat.h>
+#endif
+
 #include <HXLibs/platform/LocalFdApi.hpp>
 
 #include <HXLibs/coroutine/task/Task.hpp>
@@ -129,11 +133,18 @@ public:
         ModeType mode = 0644
     ) {
 #if defined(__linux__)
+        std::string const pathStr{path}; // path 不一定以 '\0' 结尾
         _fd = HXLIBS_CHECK_EVENT_LOOP(
             co_await _eventLoop.makeAioTask().prepOpenat(
-                dirfd, path.data(), static_cast<int>(flags), mode
+                dirfd, pathStr.c_str(), static_cast<int>(flags), mode
             )
         );
+        _offset = 0;
+        // path 可能相对于 dirfd, 也可能是目录, 故从 fd 获取大小
+        struct ::stat st{};
+        _fileSize = ::fstat(_fd, &st) == 0 && S_ISREG(st.st_mode)
+            ? static_cast<std::uintmax_t>(st.st_size)
+            : 0;
 #elif defined(_WIN32)
         auto params =
             platform::Win32FileParamsBuilder(flags).enableIocp(true)
@@ -162,7 +173,6 @@ public:
 #else
         #error "Unsupported platform"
 #endif
-        _fileSize = FileUtils::getFileSize(path);
     }
 
     /**
-- 
2.43.0


From d81612fb8804982b62339af4cf94fe7afee55b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 48/77] fix: TLS connections report the end of the stream, send
 large buffers whole and do not see errors of others

---
 include/HXLibs/net/protocol/https/Https.hpp |  6 ++
 include/HXLibs/net/socket/IO.hpp            | 72 +++++++++++++--------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index 5deb3d5..19a69c7 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -130,6 +130,9 @@ private:
 
 class SslBio {
 public:
+    // 单次写入 明文/密文 的最大字节数 (小于 BIO 缓冲区的容量, 留有加密后变长的余地)
+    inline static constexpr std::size_t kMaxOnceSize = utils::FileUtils::kBufMaxSize / 2;
+
     SslBio(SslContext::SslType type)
         : _ssl{
             SSL_new(type == SslContext::SslType::Server 
@@ -200,6 +203,7 @@ public:
      * @return int 读取的明文的字节数
      */
     int readPlaintext(std::span<char> buf) {
+        ERR_clear_error(); // 错误队列是线程共享的, 其他连接的错误不应影响 SSL_get_error
         int n = SSL_read(_ssl, buf.data(), static_cast<int>(buf.size()));
         if (n > 0) [[likely]] {
             return n;
@@ -222,6 +226,7 @@ public:
         if (!isInitFinished()) [[unlikely]] {
             throw std::runtime_error("Cannot write plaintext before handshake finished");
         }
+        ERR_clear_error();
         int res = SSL_write(_ssl, buf.data(), static_cast<int>(buf.size()));
         if (res <= 0) [[unlikely]] {
             int err = SSL_get_error(_ssl, res);
@@ -250,6 +255,7 @@ public:
 
     // 驱动握手状态机, true 为握手成功
     bool driveHandshake() {
+        ERR_clear_error();
         int res = SSL_do_handshake(_ssl);
         if (res == 1) [[likely]] {
             return true;
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 43c3eff..a857725 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -18,6 +18,9 @@
  * limitations under the License.
  */
 
+#include <algorithm>
+#include <span>
+
 #include <HXLibs/coroutine/task/Task.hpp>
 #include <HXLibs/coroutine/loop/EventLoop.hpp>
 #include <HXLibs/container/ArrayBuf.hpp>
@@ -306,24 +309,23 @@ public:
     }
 
     coroutine::Task<int> recv(std::span<char> buf) {
-        int res = 0;
         for (;;) {
-            if (res > 0) {
-                // 解密
-                _ssl.get().writeCiphertext({
-                    buf.data(),
-                    static_cast<std::size_t>(res)
-                });
-            }
             // 获取明文
-            res = _ssl.get().readPlaintext(buf);
+            int res = _ssl.get().readPlaintext(buf);
             if (res >= 0) {
                 co_return res;
             }
             // 继续尝试读取密文
-            res = co_await Base::recv(buf);
+            res = co_await Base::recv(limitBuf(buf));
+            if (res <= 0) [[unlikely]] {
+                co_return res; // 对方断开 或者 出错, 不会再有密文了
+            }
+            // 解密
+            _ssl.get().writeCiphertext({
+                buf.data(),
+                static_cast<std::size_t>(res)
+            });
         }
-        [[unlikely]] co_return res;
     }
 
     coroutine::Task<int> recv(std::span<char> buf, std::size_t n) {
@@ -370,8 +372,12 @@ public:
      * @return coroutine::Task<> 
      */
     coroutine::Task<> fullySend(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::fullySend(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto part = limitBuf(buf);
+            _ssl.get().writePlaintext(part);
+            co_await Base::fullySend(_ssl.get().readCiphertext());
+            buf = buf.subspan(part.size());
+        }
     }
 
     /**
@@ -408,24 +414,28 @@ public:
     #error "Unsupported operating system"
 #endif // !defined(__linux__)
         res.template emplace<0>(0);
-        while (res.index() == 0) [[likely]] {
-            auto& ans = get<0, exception::ExceptionMode::Nothrow>(res);
-            if (ans > 0) {
-                // 解密
-                _ssl.get().writeCiphertext({
-                    buf.data(),
-                    static_cast<std::size_t>(ans)
-                });
-            }
+        for (;;) {
             // 获取明文
+            auto& ans = get<0, exception::ExceptionMode::Nothrow>(res);
             ans = _ssl.get().readPlaintext(buf);
             if (ans >= 0) {
                 co_return res;
             }
             // 继续尝试读取密文
-            res = co_await Base::recvLinkTimeout<Timeout>(buf);
+            res = co_await Base::recvLinkTimeout<Timeout>(limitBuf(buf));
+            if (res.index() != 0) [[unlikely]] {
+                co_return res; // 超时
+            }
+            auto size = get<0, exception::ExceptionMode::Nothrow>(res);
+            if (size <= 0) [[unlikely]] {
+                co_return res; // 对方断开 或者 出错, 不会再有密文了
+            }
+            // 解密
+            _ssl.get().writeCiphertext({
+                buf.data(),
+                static_cast<std::size_t>(size)
+            });
         }
-        co_return res;
     }
 
     /**
@@ -435,8 +445,12 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> sendLinkTimeout(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto part = limitBuf(buf);
+            _ssl.get().writePlaintext(part);
+            co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+            buf = buf.subspan(part.size());
+        }
     }
 
     template <typename Timeout>
@@ -481,6 +495,12 @@ public:
         }
     }
 private:
+    // SslBio 的缓冲区是有限的, 单次读写不能超过它的容量
+    template <typename T>
+    static std::span<T> limitBuf(std::span<T> buf) noexcept {
+        return buf.first(std::min(buf.size(), SslBio::kMaxOnceSize));
+    }
+
     container::Uninitialized<SslBio> _ssl;
 };
 
-- 
2.43.0


From 8b94737a82a56e3c851f812135a4a2581a83302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 49/77] fix: proxy handshakes follow SOCKS5 and HTTP CONNECT
 and read exactly the proxy's replies

---
 .../HXLibs/net/protocol/proxy/HttpProxy.hpp   | 47 ++++++++++++-------
 .../HXLibs/net/protocol/proxy/Socks5Proxy.hpp | 47 ++++++++++++++++---
 2 files changed, 71 insertions(+), 23 deletions(-)

diff --git a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
index ebc3d24..950eac8 100644
--- a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
@@ -20,7 +20,7 @@
 
 #include <HXLibs/net/protocol/proxy/Proxy.hpp>
 #include <HXLibs/net/protocol/http/Request.hpp>
-#include <HXLibs/net/protocol/http/Response.hpp>
+#include <HXLibs/net/protocol/codec/Base64.hpp>
 #include <HXLibs/net/protocol/url/UrlParse.hpp>
 
 namespace HX::net {
@@ -31,31 +31,46 @@ public:
     using ProxyBase::ProxyBase;
 
     coroutine::Task<> connect(std::string_view url, std::string_view targetUrl) {
+        // 无论目标是否为 https, 都建立隧道; 之后的字节都是与目标服务器的
         UrlInfoExtractor parser(targetUrl);
         HttpRequest<HttpIO> req{_io};
-        
-        if (parser.getService() == "https") {
-            req.setReqLine<HttpMethod::CONNECT>(
-                std::string{parser.getHostname()}
-                + ":"
-                + std::to_string(UrlParse::getProtocolPort(parser.getService()))
-            );
-        } else {
-            req.setReqLine<HttpMethod::GET>(url);
+        auto target = std::string{parser.getHostname()}
+                    + ":"
+                    + std::to_string(UrlParse::getProtocolPort(parser.getService()));
+        req.setReqLine<HttpMethod::CONNECT>(target);
+        req.tryAddHeaders("Host", target);
+        if (auto user = UrlParse::extractUser(url)) {
+            std::string account{user->account};
+            account += ':';
+            account += user->password;
+            req.tryAddHeaders("Proxy-Authorization", "Basic " + base64Encode({
+                reinterpret_cast<uint8_t*>(account.data()), account.size()
+            }));
         }
-
-        req.tryAddHeaders("Host", UrlParse::extractDomainName(std::string{url}));
         req.tryAddHeaders("Connection", "keep-alive");
         req.tryAddHeaders("User-Agent", "HXLibs/1.0");
 
         using namespace HX::utils;
         co_await req.sendHttpReq<decltype(3_s)>();
 
-        HttpResponse<HttpIO> res{_io};
-        if (!co_await res.parserResHead<decltype(3_s)>()) {
-            throw std::runtime_error{"Response parser error"};
+        // 逐字节读取响应头, 因为其后的字节属于隧道, 不可以多读
+        std::string head;
+        while (!head.ends_with("\r\n\r\n")) {
+            char ch[1];
+            auto res = co_await _io.recvLinkTimeout<decltype(3_s)>(ch);
+            if (res.index() == 1) [[unlikely]] {
+                throw std::runtime_error{"HTTP Proxy recv timeout"};
+            }
+            auto size = HXLIBS_CHECK_EVENT_LOOP((
+                res.template get<0, exception::ExceptionMode::Nothrow>()
+            ));
+            if (size == 0 || head.size() >= HttpIO::kBufMaxSize) [[unlikely]] {
+                throw std::runtime_error{"Response parser error"};
+            }
+            head += ch[0];
         }
-        if (res.getStatusCode() != "200") {
+        // HTTP/1.1 200 Connection established
+        if (head.size() < 12 || !head.starts_with("HTTP/1.") || head[8] != ' ' || head[9] != '2') {
             throw std::runtime_error("HTTP Proxy connect failed");
         }
     }
diff --git a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
index 036a998..5016f69 100644
--- a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
@@ -47,6 +47,10 @@ private:
         std::string_view username, 
         std::string_view password
     ) {
+        // 长度字段只有一个字节
+        if (username.size() > 255 || password.size() > 255) [[unlikely]] {
+            throw std::invalid_argument("sub-negotiation: username or password is too long");
+        }
         // 发送用户名密码进行验证
         std::string authRequest;
         authRequest += static_cast<char>(0x01);
@@ -57,7 +61,7 @@ private:
         co_await _io.fullySend(authRequest);
 
         char authResponse[2];
-        co_await _io.fullySend(authResponse);
+        co_await _io.fullyRecv(authResponse);
         if (authResponse[1] != 0x00) {
             throw std::invalid_argument("sub-negotiation: REP is " + std::to_string(authResponse[1]));
         }
@@ -134,14 +138,19 @@ private:
          *      - 域名 (unsigned char []) (可变长度)
          */
         UrlInfoExtractor parser(targetUrl);
+        if (parser.getHostname().size() > 255) [[unlikely]] {
+            throw std::invalid_argument("Connect Request: hostname is too long");
+        }
         connectRequest += static_cast<char>(parser.getHostname().size());
         connectRequest += parser.getHostname();
-        connectRequest.resize(connectRequest.size() + 2);
-        *(reinterpret_cast<uint16_t*>(&connectRequest[connectRequest.size() - 2])) = 
-            ::htons(UrlParse::getProtocolPort(parser.getService()));
+        auto port = UrlParse::getProtocolPort(parser.getService());
+        connectRequest += static_cast<char>(port >> 8);  // 网络序
+        connectRequest += static_cast<char>(port & 0xFF);
 
         co_await _io.fullySend(connectRequest);
-        co_await _io.fullyRecv(connectRequest);
+
+        char connectResponse[4]; // VER REP RSV ATYP
+        co_await _io.fullyRecv(connectResponse);
 
         /**
          * @brief 
@@ -156,7 +165,10 @@ private:
          *                                                16 (IPv6)	
          * BND.PORT	    绑定端口	    unsigned short	2
          */
-        if (connectRequest[1] != 0x00) [[unlikely]] { // 失败
+        if (connectResponse[0] != 0x05) [[unlikely]] {
+            throw std::invalid_argument("Connect Request: VER is " + std::to_string(connectResponse[0]));
+        }
+        if (connectResponse[1] != 0x00) [[unlikely]] { // 失败
             /**
              * @brief 服务器响应消息中的 REP 字段如果不为 0x00, 则表示请求失. 不同值的具体含义如下:
              * 0x00 成功
@@ -169,8 +181,29 @@ private:
              * 0x07 不支持的命令
              * 0x08 不支持的地址类型
              */
-            throw std::invalid_argument("Connect Request: REP is " + std::to_string(connectRequest[1]));
+            throw std::invalid_argument("Connect Request: REP is " + std::to_string(connectResponse[1]));
+        }
+
+        // 应答的长度取决于服务端绑定的地址, 而与请求的长度无关
+        std::size_t addrSize = 0;
+        switch (connectResponse[3]) {
+        case 0x01: // IPv4
+            addrSize = 4;
+            break;
+        case 0x03: { // 域名
+            char domainSize[1];
+            co_await _io.fullyRecv(domainSize);
+            addrSize = static_cast<unsigned char>(domainSize[0]);
+            break;
+        }
+        case 0x04: // IPv6
+            addrSize = 16;
+            break;
+        default:
+            throw std::invalid_argument("Connect Request: ATYP is " + std::to_string(connectResponse[3]));
         }
+        std::string bindAddr(addrSize + 2, '\0'); // BND.ADDR + BND.PORT
+        co_await _io.fullyRecv(bindAddr);
     }
 };
 
-- 
2.43.0


From f5bf165fa62f4cfcf4bb95ce8f0d5df221f8a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 50/77] fix: a server can be stopped right after its start and
 by syncStop

---
 include/HXLibs/net/server/HttpServer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index 386c200..cb207d6 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -142,6 +142,7 @@ public:
         }
         init();
         for (std::size_t i = 0; i < threadNum; ++i) {
+            ++_runNum; // 在启动线程之前就计数, 使得马上关闭服务器也会等待它
             _threads.emplace_back([this] {
                 _sync<Timeout>();
             });
@@ -193,6 +194,7 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
+        _isRun.store(false, std::memory_order_release);
         while (_runNum) {
             try {
                 // ! Win 上面, 0.0.0.0 无法被路由, 只能 127.0.0.1 访问!
@@ -235,7 +237,6 @@ private:
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
             Acceptor<HttpIO> acceptor{_router, _eventLoop, entry};
             auto mainTask = acceptor.start<Timeout>(_isRun);
             _eventLoop.start(mainTask);
@@ -263,6 +264,7 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
+        _isRun.store(false, std::memory_order_release);
         while (_runNum) {
             try {
                 HttpsClient cli{HttpClientOptions{}};
@@ -307,7 +309,6 @@ private:
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
             Acceptor<HttpsIO> acceptor{_router, _eventLoop, entry};
             auto mainTask = acceptor.start<Timeout>(_isRun);
             _eventLoop.start(mainTask);
-- 
2.43.0


From 10b5ace2779ff473c505f7704ef6117482019a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 51/77] fix: HttpClientPool requests compile, resize to the
 size asked for and close every client

---
 include/HXLibs/net/client/HttpClientPool.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClientPool.hpp b/include/HXLibs/net/client/HttpClientPool.hpp
index b51dc6d..edebe2c 100644
--- a/include/HXLibs/net/client/HttpClientPool.hpp
+++ b/include/HXLibs/net/client/HttpClientPool.hpp
@@ -50,7 +50,7 @@ public:
         if (newSize <= _cliPool.size()) {
             _cliPool.resize(newSize);
         } else {
-            for (std::size_t i = _cliPool.size(); i <= newSize; ++i) {
+            for (std::size_t i = _cliPool.size(); i < newSize; ++i) {
                 _cliPool.emplace_back(std::make_unique<HttpClientType>(options));
             }
         }
@@ -117,14 +117,14 @@ public:
         typename Timeout = decltype(30_s),
         meta::StringType Str = std::string
     >
-    container::FutureResult<container::Try<ResponseData>> requst(
+    container::FutureResult<container::Try<ResponseData>> request(
         std::string url,
         HeaderHashMap headers = {},
         Str&& body = {},
         HttpContentType contentType = HttpContentType::None,
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template requst<Method, Timeout>(
+        return _cliPool.at(getIdxAndNext())->template request<Method, Timeout>(
             std::move(url),
             std::move(headers),
             std::forward<Str>(body),
@@ -181,16 +181,18 @@ public:
     }
 
     /**
-     * @brief 断开连接
-     * @return container::FutureResult<> 
+     * @brief 断开所有连接
      */
-    container::FutureResult<> close() {
-        return _cliPool.at(getIdxAndNext())->close();
+    void close() {
+        std::unique_lock _{_mtx};
+        for (auto& cli : _cliPool) {
+            cli->close();
+        }
     }
 private:
     std::vector<std::unique_ptr<HttpClientType>> _cliPool;
     std::mutex _mtx;
-    std::uint64_t _index;
+    std::uint64_t _index{};
 };
 
 template <typename Proxy>
-- 
2.43.0


From 80b38b5f4a138f9fa2238eba27bbd85a54c376d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 52/77] fix: HttpClient reports failed connections, follows the
 url's host and sends each request once

---
 include/HXLibs/net/client/HttpClient.hpp | 266 ++++++++++++-----------
 1 file changed, 141 insertions(+), 125 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index be7f313..72f1bee 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -18,6 +18,8 @@
  * limitations under the License.
  */
 
+#include <optional>
+
 #include <HXLibs/net/client/HttpClientOptions.hpp>
 #include <HXLibs/net/protocol/http/Request.hpp>
 #include <HXLibs/net/protocol/http/Response.hpp>
@@ -65,6 +67,8 @@ public:
         , _cliFd{kInvalidSocket}
         , _pool{}
         , _host{}
+        , _url{}
+        , _server{}
         , _isAutoReconnect{true}
         , _isUniqueEventLoop{loop == nullptr}
     {
@@ -153,43 +157,14 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
-                co_await makeSocket(url);
-            }
-            container::Try<> err{};
+            co_await prepareSocket(url);
             Request req{_io.get()};
             req.template setReqLine<Method>(UrlParse::extractPath(url));
             preprocessHeaders(url, contentType, req);
             req.addHeaders(std::move(headers));
-            try {
-                co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
-                }
-                co_await res.template parseBody<Timeout>();
-                co_return res.makeResponseData();
-            } catch (...) {
-                ;
-            }
-            // 二次尝试
-            try {
-                co_await makeSocket(url);
-                // 再次发送
-                co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
-                }
-                co_return res.makeResponseData();
-            } catch (...) {
-                err.setException(std::current_exception());
-            }
-            // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
-            err.rethrow();
-            co_return {};
+            co_return co_await exchange<Method, Timeout>(url, req, [&] {
+                return req.template sendChunkedReq<Timeout>(path);
+            });
         };
         if (_isUniqueEventLoop) {
             co_return _eventLoop->trySync(task());
@@ -346,9 +321,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
-                co_await makeSocket(url);
-            }
+            co_await prepareSocket(url);
             co_return co_await sendReq<Method>(
                 std::move(url),
                 std::move(body),
@@ -373,9 +346,6 @@ public:
      */
     coroutine::Task<container::Try<>> coConnect(std::string_view url) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await coClose();
-            }
             co_await makeSocket(url);
         };
         if (_isUniqueEventLoop) {
@@ -416,7 +386,9 @@ public:
             throw std::runtime_error{"Please call coClose() first"};
         }
 #endif // !NDEBUG
-        _io.get().reset();
+        if (_io.isAvailable()) {
+            _io.get().reset();
+        }
     }
 
     /**
@@ -426,7 +398,9 @@ public:
      */
     coroutine::Task<> coClose() noexcept {
         if (_cliFd == kInvalidSocket) {
-            _io.get().reset();
+            if (_io.isAvailable()) {
+                _io.get().reset();
+            }
             co_return;
         }
         co_await _io.get().close();
@@ -494,11 +468,9 @@ public:
     ) {
         container::Try<Res> res;
         auto taskObj = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await makeSocket(url);
-            }
             container::Uninitialized<WebSocketClient<IOType>> ws;
             try {
+                co_await prepareSocket(url);
                 ws.set(co_await WebSocketFactory<IOType>::template connect<Timeout>(
                     url, _io.get(), headers
                 ));
@@ -508,9 +480,9 @@ public:
             if (!ws.isAvailable()) [[unlikely]] {
                 // 之前的连接断开了, 再次尝试连接
                 if (_isAutoReconnect) [[likely]] {
-                    // 重新建立连接
-                    co_await makeSocket(url);
                     try {
+                        // 重新建立连接
+                        co_await makeSocket(url);
                         ws.set(co_await WebSocketFactory<IOType>::template connect<Timeout>(url, _io.get(), headers));
                         res.reset();
                     } catch(...) {
@@ -532,8 +504,7 @@ public:
                 }
             }
             // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
         };
         auto taskMain = taskObj();
         if (_isUniqueEventLoop) {
@@ -561,9 +532,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await makeSocket(url);
-            }
+            co_await prepareSocket(url);
             Request req{_io.get()};
             req.template setReqLine<Method>(UrlParse::extractPath(url));
             req.tryAddHeaders("Accept", "text/event-stream");
@@ -583,11 +552,11 @@ public:
                     // e: 大概率是 断开的管道, 直接重连
                     isOkFd = false;
                 }
-                Response res{_io.get()};
+                std::optional<Response> res{std::in_place, _io.get()};
                 do {
                     try {
                         // 可能会抛异常...
-                        if (isOkFd && co_await res.template parserResHead<Timeout>()) {
+                        if (isOkFd && co_await res->template parserResHead<Timeout>()) {
                             break;
                         }
                     } catch (...) {
@@ -599,14 +568,15 @@ public:
                         co_await makeSocket(url);
                         // 重新发送一次请求
                         co_await req.template sendHttpReq<Timeout>();
-                        // 再次解析请求
-                        if (co_await res.template parserResHead<Timeout>()) [[likely]] {
+                        // 再次解析响应 (不保留断开的连接的内容)
+                        res.emplace(_io.get());
+                        if (co_await res->template parserResHead<Timeout>()) [[likely]] {
                             break;
                         }
                     }
                     [[unlikely]] throw std::runtime_error{"Send Timed Out"};
                 } while (false);
-                for (auto seeLoop = res.template parserSseStrem<Timeout>(); ;) {
+                for (auto seeLoop = res->template parserSseStrem<Timeout>(); ;) {
                     co_await std::forward<Func>(func)(co_await seeLoop);
                 }
             } catch (...) {
@@ -615,8 +585,7 @@ public:
 
             log::hxLog.error("超时断开 SSE"); // debug
 
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
             std::rethrow_exception(exceptionPtr);
         };
         if (_isUniqueEventLoop) {
@@ -638,14 +607,48 @@ public:
 #endif // !NDEBUG
 private:
     /**
-     * @brief 建立 TCP 连接
+     * @brief 确保已经连接到 url 对应的服务器
+     * @param url url 或者 path (已经连接的情况下)
+     * @return coroutine::Task<>
+     */
+    coroutine::Task<> prepareSocket(std::string_view url) {
+        if (needConnect() || (!url.starts_with('/') && _server != getServer(url))) {
+            co_await makeSocket(url);
+        }
+    }
+
+    /**
+     * @brief 获取 url 对应的服务器
+     * @param url
+     * @return std::string 主机名:服务名
+     */
+    static std::string getServer(std::string_view url) {
+        UrlInfoExtractor parser{url};
+        std::string res{parser.getHostname()};
+        res += ':';
+        res += parser.getService();
+        return res;
+    }
+
+    /**
+     * @brief 建立 TCP 连接, 之前的连接会被断开
      * @param url
      * @return coroutine::Task<>
+     * @throw 连接失败
      */
     coroutine::Task<> makeSocket(std::string_view url) {
+        co_await coClose();
+        if (url.starts_with('/') && !_url.empty()) {
+            url = _url; // 仅有 path, 则连接到上一次的服务器
+        } else {
+            _url = url;
+            url = _url;
+            _server = getServer(url);
+        }
         AddressResolver resolver;
         UrlInfoExtractor parser{_options.proxy.get().size() ? _options.proxy.get() : url};
         auto entry = resolver.resolve(parser.getHostname(), parser.getService());
+        std::exception_ptr exceptionPtr{};
         try {
             _cliFd = HXLIBS_CHECK_EVENT_LOOP((
                 co_await _eventLoop->makeAioTask().prepSocket(
@@ -655,19 +658,20 @@ private:
                     0
                 )
             ));
+            if (!_io.isAvailable()) {
+                _io.set(_cliFd, *_eventLoop);
+            } else {
+                co_await _io.get().bindNewFd(_cliFd);
+            }
             try {
                 auto sockaddr = entry.getAddress();
-                co_await _eventLoop->makeAioTask().prepConnect(
-                    _cliFd,
-                    sockaddr._addr,
-                    sockaddr._addrlen
-                );
-                auto isInit = _io.isAvailable();
-                if (!isInit) {
-                    _io.set(_cliFd, *_eventLoop);
-                } else {
-                    co_await _io.get().bindNewFd(_cliFd);
-                }
+                HXLIBS_CHECK_EVENT_LOOP((
+                    co_await _eventLoop->makeAioTask().prepConnect(
+                        _cliFd,
+                        sockaddr._addr,
+                        sockaddr._addrlen
+                    )
+                ));
                 if constexpr (!std::is_same_v<Proxy, NoneProxy>) {
                     // 初始化代理
                     if (_options.proxy.get().size()) {
@@ -677,11 +681,8 @@ private:
                 }
 #ifdef HXLIBS_ENABLE_SSL
                 if constexpr (std::is_same_v<IOType, HttpsIO>) {
-                    if (!isInit) {
-                        _io.get().initSslBio(SslContext::SslType::Client);
-                    } else {
-                        _io.get().resetSslBio();
-                    }
+                    // 新的连接, 需要新的会话
+                    _io.get().initSslBio(SslContext::SslType::Client);
                     // 初始化连接 (Https 握手)
                     co_await _io.get().template initSsl<decltype(10_s)>(false);
                 }
@@ -689,13 +690,69 @@ private:
                 co_return;
             } catch (...) {
                 log::hxLog.error("连接失败");
+                exceptionPtr = std::current_exception();
             }
         } catch (std::exception const& e) {
             log::hxLog.error("创建套接字失败:", e.what());
+            exceptionPtr = std::current_exception();
         }
         // 总之得关闭
-        co_await _eventLoop->makeAioTask().prepClose(_cliFd);
-        _cliFd = kInvalidSocket;
+        co_await coClose();
+        std::rethrow_exception(exceptionPtr);
+    }
+
+    /**
+     * @brief 发送请求并且接收响应; 如果失败, 则重新建立连接后再次尝试一次
+     * @tparam Method 请求类型
+     * @tparam Timeout 超时时间
+     * @param url 请求 url
+     * @param req 请求
+     * @param send 发送请求, 声明为 []() -> coroutine::Task<>
+     * @return coroutine::Task<ResponseData>
+     */
+    template <HttpMethod Method, typename Timeout, typename Send>
+    coroutine::Task<ResponseData> exchange(std::string_view url, Request& req, Send send) {
+        std::exception_ptr exceptionPtr{};
+        try {
+            for (bool isRetry = false; ; isRetry = true) {
+                if (isRetry) {
+                    // 重新建立连接
+                    co_await makeSocket(url);
+                }
+                try {
+                    co_await send();
+                    Response res{_io.get()};
+                    bool isOk = false;
+                    if constexpr (Method == HttpMethod::HEAD) {
+                        // HEAD 的响应没有响应体
+                        isOk = co_await res.template parserResHead<Timeout>();
+                    } else {
+                        isOk = co_await res.template parserRes<Timeout>();
+                    }
+                    if (!isOk) [[unlikely]] {
+                        throw std::runtime_error{"Send Timed Out"};
+                    }
+                    if (auto it = req.getHeaders().find("Connection");
+                        it != req.getHeaders().end() && it->second == "close"
+                    ) {
+                        co_await coClose();
+                    }
+                    co_return res.makeResponseData();
+                } catch (...) {
+                    // 大概率是 断开的管道, 或者读取超时
+                    if (isRetry || !_isAutoReconnect) {
+                        throw;
+                    }
+                }
+            }
+        } catch (...) {
+            exceptionPtr = std::current_exception();
+        }
+
+        log::hxLog.error("解析出错"); // debug
+
+        co_await coClose();
+        std::rethrow_exception(exceptionPtr);
     }
 
     /**
@@ -728,54 +785,9 @@ private:
             // @todo 请求体还需要支持一些格式!
             req.setBody(std::forward<Str>(body));
         }
-        std::exception_ptr exceptionPtr{};
-        try {
-            bool isOkFd = true;
-            try {
-                co_await req.template sendHttpReq<Timeout>();
-            } catch (...) {
-                // e: 大概率是 断开的管道, 直接重连
-                isOkFd = false;
-            }
-            Response res{_io.get()};
-            do {
-                try {
-                    // 可能会抛异常...
-                    if (isOkFd && co_await res.template parserRes<Timeout>()) {
-                        break;
-                    }
-                } catch (...) {
-                    ;
-                }
-                // 读取超时
-                if (_isAutoReconnect) [[likely]] {
-                    // 重新建立连接
-                    co_await makeSocket(url);
-                    // 重新发送一次请求
-                    co_await req.template sendHttpReq<Timeout>();
-                    // 再次解析请求
-                    if (co_await res.template parserRes<Timeout>()) [[likely]] {
-                        break;
-                    }
-                }
-                [[unlikely]] throw std::runtime_error{"Send Timed Out"};
-            } while (false);
-            if (auto it = req.getHeaders().find("Connection");
-                it != req.getHeaders().end() && it->second == "close"
-            ) {
-                co_await _io.get().close();
-                _cliFd = kInvalidSocket;
-            }
-            co_return res.makeResponseData();
-        } catch (...) {
-            exceptionPtr = std::current_exception();
-        }
-
-        log::hxLog.error("解析出错"); // debug
-
-        co_await _io.get().close();
-        _cliFd = kInvalidSocket;
-        std::rethrow_exception(exceptionPtr);
+        co_return co_await exchange<Method, Timeout>(url, req, [&] {
+            return req.template sendHttpReq<Timeout>();
+        });
     }
 
     /**
@@ -809,6 +821,10 @@ private:
     // 上一次解析的 Host
     std::string _host;
 
+    // 当前连接的 url 与 服务器 (主机名:服务名)
+    std::string _url;
+    std::string _server;
+
     // 是否自动重连
     bool _isAutoReconnect;
 
-- 
2.43.0


From 938b92a3dfcb40750b50028abd8b9224992dddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 53/77] fix: ThreadPool delivers void outcomes after the task,
 loses no wakeup, keeps its bounds and can always be destroyed

---
 include/HXLibs/container/ThreadPool.hpp | 67 ++++++++++++++-----------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index efd8c50..05bc058 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -50,7 +50,7 @@ struct ThreadPoolData {
 inline auto ThreadPoolDefaultStrategy = [](ThreadPoolData const& data) -> int {
     if (data.taskNum <= data.minThreadNum) {
         if (data.sleepThreadNum > data.runThreadNum) {
-            return -static_cast<int>(std::max<std::size_t>(
+            return -static_cast<int>(std::min<std::size_t>(
                 static_cast<std::size_t>(data.sleepThreadNum * 0.25),
                 data.nowThreadNum - data.minThreadNum
             ));
@@ -133,8 +133,8 @@ struct ThreadPool {
         ]() mutable {
             try {
                 if constexpr (std::is_void_v<Res>) {
-                    ans->setData(NonVoidType<>{});
                     moveApply(std::move(func), std::move(argWap));
+                    ans->setData(NonVoidType<>{});
                 } else {
                     ans->setData(moveApply(std::move(func), std::move(argWap)));
                 }
@@ -142,7 +142,11 @@ struct ThreadPool {
                 ans->unhandledException();
             }
         };
-        _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        {
+            // 修改等待条件需要持锁, 否则可能丢失唤醒
+            std::lock_guard _{_mtx};
+            _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        }
         _cv.notify_one();
         return res;
     }
@@ -177,16 +181,17 @@ struct ThreadPool {
     ThreadPool& operator=(ThreadPool&&) = delete;
 
     ~ThreadPool() noexcept {
-        _isRun = false;
+        {
+            // 修改等待条件需要持锁, 否则可能丢失唤醒
+            std::lock_guard _{_mtx};
+            _isRun = false;
+        }
         if (_opThread.joinable()) {
             _opThread.join();
         }
         _cv.notify_all();
         for (const auto& [_, t] : _workers) {
-            t->join();
-        }
-        if (!_delIdQueue.empty()) {
-            clearDelIdQueue();
+            t->join(); // 包括待删除队列中的线程
         }
     }
 private:
@@ -201,30 +206,34 @@ private:
             makeWorker(_minThreadNum - _workers.size());
         }
         while (_isRun) [[likely]] {
-            auto taskSize = static_cast<uint32_t>(_taskQueue.size());
-            auto runCnt = _runCnt.load();
-            auto workerSize = static_cast<uint32_t>(_workers.size());
-            if (int add = strategy(ThreadPoolData{
-                _minThreadNum,
-                _maxThreadNum,
-                taskSize,
-                workerSize,
-                runCnt,
-                workerSize - runCnt
-            })) {
-                if (add > 0) {
-                    makeWorker(static_cast<std::size_t>(add));
-                } else {
-                    add = -add;
-                    _delCnt = static_cast<uint32_t>(add);
-                    for (int i = 0; i < add; ++i) {
-                        _cv.notify_one();
-                    }
-                }
-            }
             if (_delIdQueue.size()) {
                 clearDelIdQueue();
             }
+            int add = 0;
+            {
+                // 持锁期间不会有线程退出, 故线程数是准确的
+                std::lock_guard _{_mtx};
+                auto taskSize = static_cast<uint32_t>(_taskQueue.size());
+                auto runCnt = _runCnt.load();
+                auto workerSize = static_cast<uint32_t>(_workers.size() - _delIdQueue.size());
+                add = strategy(ThreadPoolData{
+                    _minThreadNum,
+                    _maxThreadNum,
+                    taskSize,
+                    workerSize,
+                    runCnt,
+                    workerSize - runCnt
+                });
+                // 之前没有退出的线程, 不再退出
+                _delCnt = add < 0 ? static_cast<uint32_t>(-add) : 0;
+            }
+            if (add > 0) {
+                makeWorker(static_cast<std::size_t>(add));
+            } else {
+                for (int i = 0; i < -add; ++i) {
+                    _cv.notify_one();
+                }
+            }
             std::this_thread::sleep_for(checkTimer);
         }
     }
-- 
2.43.0


From 7f5c50e1725633e27aa7a5b4de7c6fc0cfdcf4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 54/77] fix: a continuation that returns a Try with an
 exception passes that exception on

---
 include/HXLibs/container/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 05bc058..72f9e0f 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -408,7 +408,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            funcRes.get().rethrow();
                         }
                     } else {            
                         // func 返回值是任意类型
@@ -427,7 +427,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            funcRes.get().rethrow();
                         }
                     } else {
                         // func 返回值是任意类型
-- 
2.43.0


From 921dfe3a876723a11d60d3fd9605575b39e39913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 55/77] fix: awaiting a future resumes the coroutine on its
 event loop's thread

---
 include/HXLibs/container/FutureResult.hpp    | 25 +++----
 include/HXLibs/coroutine/loop/EventLoop.hpp  | 79 ++++++++++++++++++--
 include/HXLibs/coroutine/loop/ThreadLoop.hpp | 70 ++++++++++-------
 3 files changed, 128 insertions(+), 46 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 4d1413c..ac8a84f 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -107,23 +107,20 @@ private:
 
     struct _hx_Await {
         _hx_Await(FutureResult&& self)
-            : _res{}
-            , _coroutine{}
-        {
-            auto* loop = self._coEventLoop.get();
-            std::move(self).thenTry([this, raii = loop->makeTheradTask(), _loop = loop](auto t) mutable {
-                _res.set(std::move(t));
-                _coroutine.resume(); // 执行完毕后, self 已经被销毁了.
-                raii.notify();
-                _loop->makeNopAioTask();
-            });
-        }
+            : _self{std::move(self)}
+            , _res{}
+        {}
 
         _hx_Await& operator=(_hx_Await&&) noexcept = delete;
 
         constexpr bool await_ready() const noexcept { return false; }
-        constexpr void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
-            _coroutine = coroutine;
+        void await_suspend(std::coroutine_handle<> coroutine) {
+            auto* loop = _self._coEventLoop.get();
+            // 任务完成后, 由事件循环所在的线程恢复协程
+            std::move(_self).thenTry([this, task = loop->makeTheradTask(), coroutine](auto t) mutable {
+                _res.set(std::move(t));
+                task.resume(coroutine);
+            });
         }
         constexpr auto await_resume() const {
             auto t = _res.move();
@@ -133,8 +130,8 @@ private:
             return t.move();
         }
     private:
+        FutureResult _self;
         mutable container::Uninitialized<FutureResult<T>::ArgTryType> _res;
-        mutable std::coroutine_handle<> _coroutine;
     };
 public:
     using FutureResultType = _hx_Result;
diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index 9fc673b..52e2e0e 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -27,6 +27,11 @@
 
 #if defined (_WIN32)
 #include <array>
+#elif defined(__linux__)
+#include <cerrno>
+#include <cstdint>
+#include <sys/eventfd.h>
+#include <unistd.h>
 #endif
 
 #include <HXLibs/platform/EventLoopApi.hpp>
@@ -103,6 +108,9 @@ struct IoUring {
     explicit IoUring(unsigned int size = 1024U)
         : _ring{}
         , _numSqesPending{}
+        , _wakeFd{-1}
+        , _wakeVal{}
+        , _isWaitWake{false}
     {
         unsigned int flags = 0;
         exception::IoUringErrorHandlingTools::check(
@@ -119,6 +127,9 @@ struct IoUring {
             }
         }
         ::io_uring_queue_exit(&_ring);
+        if (_wakeFd != -1) {
+            ::close(_wakeFd);
+        }
     }
 
     AioTask makeAioTask() {
@@ -154,6 +165,33 @@ struct IoUring {
         return _numSqesPending;
     }
 
+    /**
+     * @brief 保证可以被其他线程的 wake 唤醒 (由事件循环所在的线程调用)
+     */
+    void prepWake() {
+        if (_wakeFd == -1) {
+            _wakeFd = exception::LinuxErrorHandlingTools::convertError<int>(
+                ::eventfd(0, EFD_CLOEXEC)
+            ).expect("eventfd");
+        }
+        if (!std::exchange(_isWaitWake, true)) {
+            auto* sqe = getSqe();
+            --_numSqesPending; // 不作为任务
+            ::io_uring_prep_read(sqe, _wakeFd, &_wakeVal, sizeof(_wakeVal), 0);
+            sqe->user_data = reinterpret_cast<::__u64>(&_wakeVal);
+        }
+    }
+
+    /**
+     * @brief 唤醒正在等待的事件循环 (线程安全)
+     */
+    void wake() noexcept {
+        std::uint64_t val = 1;
+        while (::write(_wakeFd, &val, sizeof(val)) < 0 && errno == EINTR) {
+            ;
+        }
+    }
+
     void run(std::optional<std::chrono::system_clock::duration> timeout) {
         ::io_uring_cqe* cqe = nullptr;
 
@@ -180,9 +218,14 @@ struct IoUring {
             throw std::system_error(-res, std::system_category());
         }
 
-        unsigned head, numGot = 0;
+        unsigned head, numGot = 0, numWake = 0;
         io_uring_for_each_cqe(&_ring, head, cqe) {
             ++numGot;
+            if (cqe->user_data == reinterpret_cast<::__u64>(&_wakeVal)) [[unlikely]] {
+                ++numWake;
+                _isWaitWake = false;
+                continue;
+            }
             auto* op = reinterpret_cast<AioOp*>(cqe->user_data);
             if (!op) [[unlikely]] {
                 continue; // 仅 prepNop
@@ -194,7 +237,7 @@ struct IoUring {
 
         // 手动前进完成队列的头部 (相当于批量io_uring_cqe_seen)
         ::io_uring_cq_advance(&_ring, numGot);
-        _numSqesPending -= static_cast<std::size_t>(numGot);
+        _numSqesPending -= static_cast<std::size_t>(numGot - numWake);
         for (auto* op : tasks) {
             // 之前恢复的协程可能析构了该任务, 此时无人等待
             auto* task = std::exchange(op->_task, nullptr);
@@ -262,6 +305,9 @@ private:
                                                 // 提取为成员, 避免频繁构造临时变量导致频繁扩容
     std::vector<std::unique_ptr<AioOp>> _ops;   // 所有登记
     std::vector<AioOp*> _freeOps;               // 空闲的登记
+    int _wakeFd;            // 用于被其他线程唤醒的 eventfd
+    std::uint64_t _wakeVal;
+    bool _isWaitWake;       // 是否正在等待唤醒
 };
 
 #elif defined(_WIN32)
@@ -318,7 +364,7 @@ BOOL GetQueuedCompletionStatusEx(
 );
 */
         std::array<::OVERLAPPED_ENTRY, 64> arr;
-        ::ULONG n = 0;
+        ::ULONG n = 0, numWake = 0;
         decltype(toDwMilliseconds(*timeout)) dw = INFINITE;
         if (timeout) {
             dw = toDwMilliseconds(*timeout);
@@ -338,6 +384,10 @@ BOOL GetQueuedCompletionStatusEx(
 
         for (::ULONG i = 0; i < n; ++i) {
             auto ptr = arr[i];
+            if (!ptr.lpOverlapped) {
+                ++numWake;
+                continue; // 仅唤醒
+            }
             auto task = std::unique_ptr<AioTask::_AioIocpData>{
                 reinterpret_cast<AioTask::_AioIocpData*>(ptr.lpOverlapped)
             };
@@ -356,10 +406,20 @@ BOOL GetQueuedCompletionStatusEx(
             t.resume();
         }
         
-        _taskCnt._numSqesPending -= static_cast<std::size_t>(n);
+        _taskCnt._numSqesPending -= static_cast<std::size_t>(n - numWake);
         _tasks.clear();
     }
 
+    void prepWake() const noexcept {}
+
+    /**
+     * @brief 唤醒正在等待的事件循环 (线程安全)
+     */
+    void wake() noexcept {
+        // 空的 OVERLAPPED, 不作为任务
+        ::PostQueuedCompletionStatus(_iocpHandle, 0, 0, nullptr);
+    }
+
     void prepNop() {
         AioTask task{_iocpHandle, _taskCnt};
         ++_taskCnt._numSqesPending;
@@ -409,7 +469,7 @@ struct EventLoop {
     EventLoop() 
         : _eventDrive{}
         , _timerLoop{}
-        , _theradLoop{}
+        , _theradLoop{[this] { _eventDrive.wake(); }}
     {}
 
     EventLoop& operator=(EventLoop&&) noexcept = delete;
@@ -509,12 +569,16 @@ struct EventLoop {
      */
     void run() {
         for (;;) {
+            _theradLoop.run();
             auto timeout = _timerLoop.run();
-            if (_eventDrive.isRun()) [[likely]] {
+            if (_theradLoop.isRun()) [[unlikely]] {
+                _eventDrive.prepWake();
+                _eventDrive.run(timeout);
+            } else if (_eventDrive.isRun()) [[likely]] {
                 _eventDrive.run(timeout);
             } else if (timeout) {
                 std::this_thread::sleep_for(*timeout);
-            } else if (!_theradLoop.isRun()) [[unlikely]] {
+            } else {
                 break;
             }
         }
@@ -550,6 +614,7 @@ struct EventLoop {
      * @return decltype(auto) 
      */
     decltype(auto) makeTheradTask() {
+        _eventDrive.prepWake();
         return _theradLoop.makeThreadTask();
     }
 
diff --git a/include/HXLibs/coroutine/loop/ThreadLoop.hpp b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
index c2f1cb9..e34dbf7 100644
--- a/include/HXLibs/coroutine/loop/ThreadLoop.hpp
+++ b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
@@ -18,13 +18,16 @@
  * limitations under the License.
  */
 
+#include <coroutine>
+#include <functional>
 #include <mutex>
-#include <condition_variable>
+#include <utility>
+#include <vector>
 
 namespace HX::coroutine {
 
 /**
- * @brief 线程循环 (实际上仅是控制器)
+ * @brief 线程循环 (其他线程的任务完成后, 由事件循环所在的线程恢复协程)
  */
 struct ThreadLoop {
 private:
@@ -46,32 +49,52 @@ private:
             return *this;
         }
 
-        void notify() noexcept {
+        /**
+         * @brief 任务完成, 通知事件循环恢复协程 (线程安全)
+         */
+        void resume(std::coroutine_handle<> coroutine) {
+            // 全程持锁: 恢复协程后, 事件循环可能马上被析构
             std::unique_lock _{_self._mtx};
-            --_self._threadTaskCnt;
-            _self.notify();
+            _self._readyTasks.push_back(coroutine);
+            _self._wake();
         }
     private:
         ThreadLoop& _self;  
     };
 public:
-    ThreadLoop()
+    /**
+     * @param wake 唤醒事件循环 (线程安全)
+     */
+    ThreadLoop(std::function<void()> wake)
         : _mtx{}
-        , _cv{}
         , _threadTaskCnt{0}
+        , _readyTasks{}
+        , _wake{std::move(wake)}
     {}
 
-    bool isRun() noexcept {
-        std::size_t cnt = 0;
-        std::unique_lock lock{_mtx};
-        if (_threadTaskCnt == 0) {
-            return false;
+    ThreadLoop& operator=(ThreadLoop&&) noexcept = delete;
+
+    /**
+     * @brief 恢复已经完成任务的协程
+     */
+    void run() {
+        std::vector<std::coroutine_handle<>> tasks;
+        {
+            std::unique_lock _{_mtx};
+            tasks.swap(_readyTasks);
+            _threadTaskCnt -= tasks.size();
+        }
+        for (auto const& t : tasks) {
+            t.resume();
         }
-        cnt = _threadTaskCnt;
-        _cv.wait(lock, [&] {
-            return cnt > _threadTaskCnt;
-        });
-        return true;
+    }
+
+    /**
+     * @brief 是否还有任务没有完成
+     */
+    bool isRun() noexcept {
+        std::unique_lock _{_mtx};
+        return _threadTaskCnt;
     }
 
     auto makeThreadTask() noexcept {
@@ -79,13 +102,10 @@ public:
     }
 
 private:
-    void notify() noexcept {
-        _cv.notify_one();
-    }
-
-    mutable std::mutex _mtx;
-    std::condition_variable _cv;
-    std::size_t _threadTaskCnt;
+    std::mutex _mtx;
+    std::size_t _threadTaskCnt;                         // 未完成的任务数
+    std::vector<std::coroutine_handle<>> _readyTasks;   // 已完成的任务
+    std::function<void()> _wake;
 };
 
-} // namespace HX::coroutine
\ No newline at end of file
+} // namespace HX::coroutine
-- 
2.43.0


From 1c3da8750aa0cee2cce51e22a0666a4b68ea5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 56/77] fix: database statements are reset after every
 execution, so templates can run again and RETURNING inserts complete

---
 include/HXLibs/db/sql/Dml.hpp            | 37 +++++++++++++++++++-----
 include/HXLibs/db/sql/Stmt.hpp           |  2 +-
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 11 ++++---
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 1913db3..f44b3f0 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -81,10 +81,21 @@ struct DataBaseSqlBuildView {
         return _db->_stmt.getLastChanges();
     }
 
-    void reset() {
+    void reset() noexcept {
         _db->_stmt.reset();
     }
 
+    /**
+     * @brief 离开作用域时重置 stmt (包括抛出异常), 使其可以再次绑定与执行, 并且结束其事务
+     */
+    auto resetGuard() noexcept {
+        struct Guard {
+            DataBaseSqlBuildView& view;
+            ~Guard() noexcept { view.reset(); }
+        };
+        return Guard{*this};
+    }
+
     template <auto... Vs>
     void selectForEach(std::vector<ColumnResult<meta::ValueWrap<Vs...>>>& resArr) {
         _db->_stmt.selectForEach(resArr);
@@ -468,6 +479,7 @@ struct SelectSqlBuild {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.prepareSql();
         }
+        [[maybe_unused]] auto const guard = this->_dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!this->_dbRef.bind(Idx + 1, std::forward<Ts>(std::get<Idx>(ts)))) [[unlikely]] {
@@ -477,7 +489,6 @@ struct SelectSqlBuild {
         }(std::make_index_sequence<sizeof...(Ts)>{});
         std::vector<ColumnResType> res{};
         this->_dbRef.selectForEach(res);
-        this->_dbRef.reset();
         return res;
     }
 
@@ -922,6 +933,7 @@ struct InsertSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        [[maybe_unused]] auto const guard = _dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -929,12 +941,19 @@ struct InsertSqlBuild {
                 }
             }(), ...);
         }(std::make_index_sequence<sizeof...(Us)>{});
-        if (!_dbRef.exec()) [[unlikely]] {
-            // 执行失败
-            throw std::runtime_error{"SQL execution failed"};
-        }
-        if constexpr (!std::is_same_v<ColumnResType, void>) {
-            return _dbRef.template returning<Cs...>();
+        if constexpr (std::is_same_v<ColumnResType, void>) {
+            if (!_dbRef.exec()) [[unlikely]] {
+                // 执行失败
+                throw std::runtime_error{"SQL execution failed"};
+            }
+        } else {
+            // 执行至结束, 以确保插入已经完成
+            std::vector<ColumnResType> res;
+            _dbRef.template returningForEach<Cs...>(res);
+            if (res.empty()) [[unlikely]] {
+                throw std::runtime_error{"SQL execution failed"};
+            }
+            return std::move(res.front());
         }
     }
 
@@ -1039,6 +1058,7 @@ struct MutationSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        [[maybe_unused]] auto const guard = _dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -1109,6 +1129,7 @@ struct MutationReturningSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        [[maybe_unused]] auto const guard = _dbRef.resetGuard();
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
diff --git a/include/HXLibs/db/sql/Stmt.hpp b/include/HXLibs/db/sql/Stmt.hpp
index cea0e89..8d312b5 100644
--- a/include/HXLibs/db/sql/Stmt.hpp
+++ b/include/HXLibs/db/sql/Stmt.hpp
@@ -42,7 +42,7 @@ struct Stmt {
     /**
      * @brief 重置 Smtm 状态
      */
-    void reset() {
+    void reset() noexcept {
         HX_DB_STMT_IMPL->reset();
     }
 
diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 045035c..b822b8d 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -116,7 +116,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
@@ -128,7 +128,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
@@ -148,10 +148,9 @@ public:
     /**
      * @brief 重置 stmt
      */
-    HX_DB_STMT_IMPL void reset() {
-        if (::sqlite3_reset(_stmt) != SQLITE_OK) [[unlikely]] {
-            throw std::runtime_error{"reset: " + getErrMsg()};
-        }
+    HX_DB_STMT_IMPL void reset() noexcept {
+        // 返回值仅会重复上一次 step 的错误 (已经被处理了)
+        ::sqlite3_reset(_stmt);
     }
 
     template <typename T>
-- 
2.43.0


From 31659bca73c906169a108a702eb4b757adb15a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 57/77] fix: bound parameters survive every clause of a
 select/update/delete chain

---
 include/HXLibs/db/sql/Dml.hpp | 127 +++++++++++++---------------------
 1 file changed, 50 insertions(+), 77 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index f44b3f0..99b3b19 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -555,7 +555,7 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -569,7 +569,7 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         internal::addLimitVal<Offset>(this->_dbRef.sql());
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -577,16 +577,11 @@ struct LimitBuild : public SelectSqlBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct OrderByBuild : public LimitBuild<Db> {
-    using Base = LimitBuild<Db>;
+struct OrderByBuild : public LimitBuild<Db, Ts...> {
+    using Base = LimitBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
-    inline static constexpr auto N = sizeof...(Ts);
-
-    constexpr OrderByBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
+    using Base::_tp; // 已经绑定的参数, 由基类统一保存
+    using Base::N;
 
     template <OrderType... Orders>
         requires (sizeof...(Orders) > 0)
@@ -602,7 +597,7 @@ struct OrderByBuild : public LimitBuild<Db> {
             this->_dbRef.sql().back() = ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return LimitBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return LimitBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -610,16 +605,11 @@ struct OrderByBuild : public LimitBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct HavingBuild : public OrderByBuild<Db> {
-    using Base = OrderByBuild<Db>;
+struct HavingBuild : public OrderByBuild<Db, Ts...> {
+    using Base = OrderByBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
-    inline static constexpr auto N = sizeof...(Ts);
-
-    constexpr HavingBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
+    using Base::_tp; // 已经绑定的参数, 由基类统一保存
+    using Base::N;
 
     template <Expression Expr, typename... Us>
     OrderByBuild<Db, Ts&&..., Us&&...> having(Us&&... us) && {
@@ -642,7 +632,7 @@ struct HavingBuild : public OrderByBuild<Db> {
             ) constexpr {
                 return OrderByBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::get<I>(std::move(_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -655,7 +645,7 @@ struct HavingBuild : public OrderByBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return OrderByBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
@@ -664,16 +654,11 @@ struct HavingBuild : public OrderByBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct GroupByBuild : public HavingBuild<Db> {
-    using Base = HavingBuild<Db>;
+struct GroupByBuild : public HavingBuild<Db, Ts...> {
+    using Base = HavingBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
-    inline static constexpr auto N = sizeof...(Ts);
-
-    constexpr GroupByBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
+    using Base::_tp; // 已经绑定的参数, 由基类统一保存
+    using Base::N;
 
     template <auto... Ptrs>
         requires (sizeof...(Ptrs) > 0 && (meta::IsMemberPtrVal<decltype(Ptrs)> && ...))
@@ -688,7 +673,7 @@ struct GroupByBuild : public HavingBuild<Db> {
         ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
         this->_dbRef.sql().back() = ' ';
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -713,7 +698,7 @@ struct GroupByBuild : public HavingBuild<Db> {
             ) constexpr {
                 return HavingBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::get<I>(std::move(_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -726,7 +711,7 @@ struct GroupByBuild : public HavingBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return HavingBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
@@ -735,16 +720,11 @@ struct GroupByBuild : public HavingBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct WhereBuild : public GroupByBuild<Db> {
-    using Base = GroupByBuild<Db>;
+struct WhereBuild : public GroupByBuild<Db, Ts...> {
+    using Base = GroupByBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
-    inline static constexpr auto N = sizeof...(Ts);
-
-    constexpr WhereBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
+    using Base::_tp; // 已经绑定的参数, 由基类统一保存
+    using Base::N;
 
     template <Expression Expr, typename... Us>
     auto where(Us&&... us) && {
@@ -767,7 +747,7 @@ struct WhereBuild : public GroupByBuild<Db> {
             ) constexpr {
                 return GroupByBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::get<I>(std::move(_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -780,7 +760,7 @@ struct WhereBuild : public GroupByBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return GroupByBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
@@ -792,11 +772,11 @@ template <typename Db, typename... Ts>
 struct JoinOrWhereBuild;
 
 template <typename Db, typename... Ts>
-struct OnBuild : public JoinOrWhereBuild<Db> {
-    using Base = JoinOrWhereBuild<Db>;
+struct OnBuild : public JoinOrWhereBuild<Db, Ts...> {
+    using Base = JoinOrWhereBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
-    inline static constexpr auto N = sizeof...(Ts);
+    using Base::_tp; // 已经绑定的参数, 由基类统一保存
+    using Base::N;
 
     template <Expression Expr, typename... Us>
     JoinOrWhereBuild<Db, Ts&&..., Us&&...> on(Us&&... us) && {
@@ -819,7 +799,7 @@ struct OnBuild : public JoinOrWhereBuild<Db> {
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return JoinOrWhereBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -827,11 +807,11 @@ struct OnBuild : public JoinOrWhereBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct JoinOrWhereBuild : public WhereBuild<Db> {
-    using Base = WhereBuild<Db>;
+struct JoinOrWhereBuild : public WhereBuild<Db, Ts...> {
+    using Base = WhereBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
-    inline static constexpr auto N = sizeof...(Ts);
+    using Base::_tp; // 已经绑定的参数, 由基类统一保存
+    using Base::N;
 
     template <typename Table>
     constexpr OnBuild<Db, Ts&&...> join() && {
@@ -841,31 +821,31 @@ struct JoinOrWhereBuild : public WhereBuild<Db> {
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
     template <typename Table>
-    constexpr OnBuild<Db> leftJoin() && {
+    constexpr OnBuild<Db, Ts&&...> leftJoin() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += "LEFT JOIN ";
             this->_dbRef.sql() += getTableName<Table>();
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
     template <typename Table>
-    constexpr OnBuild<Db> rightJoin() && {
+    constexpr OnBuild<Db, Ts&&...> rightJoin() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += "RIGHT JOIN ";
             this->_dbRef.sql() += getTableName<Table>();
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -1019,7 +999,7 @@ struct ReturningInsertBuild : public InsertSqlBuild<Db> {
 
     template <Col... Cs>
         requires (sizeof...(Cs) > 0)
-    constexpr ReturningInsertImplBuild<Db, meta::ValueWrap<Cs...>, Ts&&...> returning() && {
+    constexpr ReturningInsertImplBuild<Db, meta::ValueWrap<Cs...>, Ts const&...> returning() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += " RETURNING ";
             auto mp = reflection::makeMemberPtrToNameMap<
@@ -1238,7 +1218,7 @@ struct ReturningMutationBuild : public MutationSqlBuild<Db> {
 
     template <Col... Cs>
         requires (sizeof...(Cs) > 0)
-    constexpr ReturningMutationImplBuild<Db, meta::ValueWrap<Cs...>, Ts&&...> returning() && {
+    constexpr ReturningMutationImplBuild<Db, meta::ValueWrap<Cs...>, Ts const&...> returning() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += " RETURNING ";
             auto mp = reflection::makeMemberPtrToNameMap<
@@ -1258,19 +1238,14 @@ struct ReturningMutationBuild : public MutationSqlBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct WhereMutationBuild : public ReturningMutationBuild<Db> {
-    using Base = ReturningMutationBuild<Db>;
-
-    std::tuple<Ts const&...> _tp;
-    inline static constexpr auto N = sizeof...(Ts);
-
-    constexpr WhereMutationBuild(Db db, Ts const&... ts)
-        : Base{db}
-        , _tp{ts...}
-    {}
+struct WhereMutationBuild : public ReturningMutationBuild<Db, Ts...> {
+    using Base = ReturningMutationBuild<Db, Ts...>;
+    using Base::Base;
+    using Base::_tp; // 已经绑定的参数, 由基类统一保存
+    using Base::N;
 
     template <Expression Expr, typename... Us>
-    ReturningMutationBuild<Db, Ts&&..., Us&&...> where(Us&&... us) && {
+    ReturningMutationBuild<Db, Ts..., std::remove_reference_t<Us> const&...> where(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
         constexpr auto ParamCnt = meta::WrapSizeVal<ParamWrap>;
         // 绑定参数个数不正确
@@ -1289,12 +1264,10 @@ struct WhereMutationBuild : public ReturningMutationBuild<Db> {
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return ReturningMutationBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+            return ReturningMutationBuild<Db, Ts..., std::remove_reference_t<Us> const&...>{this->_dbRef,
+                std::get<I>(_tp)..., us...};
         }(std::make_index_sequence<N>{});
     }
-
-    HX_DB_MUTATION_EXEC_IMPL
 };
 
 #undef HX_DB_MUTATION_EXEC_IMPL
-- 
2.43.0


From 456d352d6b1a4904158f2dfddc038023f80a3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 58/77] fix: execNoThrow of insert/update/delete and exec of a
 returning update/delete can be used

---
 include/HXLibs/db/sql/Dml.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 99b3b19..b9ecf22 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -941,9 +941,11 @@ struct InsertSqlBuild {
     container::Try<ColumnResType> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
         container::Try<ColumnResType> res{};
         try {
-            res.setVal(exec(ts));
             if constexpr (std::is_same_v<ColumnResType, void>) {
+                exec(ts);
                 res.setVal(container::NonVoidType<>{});
+            } else {
+                res.setVal(exec(ts));
             }
         } catch (...) {
             res.setException(std::current_exception());
@@ -1056,9 +1058,11 @@ struct MutationSqlBuild {
     container::Try<ColumnResType> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
         container::Try<ColumnResType> res{};
         try {
-            res.setVal(exec(ts));
             if constexpr (std::is_same_v<ColumnResType, void>) {
+                exec(ts);
                 res.setVal(container::NonVoidType<>{});
+            } else {
+                res.setVal(exec(ts));
             }
         } catch (...) {
             res.setException(std::current_exception());
@@ -1097,15 +1101,16 @@ struct MutationRes {
 template <typename Db, Col... Cs>
     requires (sizeof...(Cs) > 0)
 struct MutationReturningSqlBuild {
-    using ColumnResType = ColumnResult<meta::ValueWrap<Cs...>>;
-    using ColumnChangesResType = MutationRes<ColumnResType>;
+    using RowType = ColumnResult<meta::ValueWrap<Cs...>>;
+    using ColumnResType = std::vector<RowType>;
+    using ColumnChangesResType = MutationRes<RowType>;
 
     constexpr MutationReturningSqlBuild(Db db)
         : _dbRef{db}
     {}
 
     template <typename... Us>
-    std::vector<ColumnResType> exec(std::tuple<Us const&...> const& ts) {
+    ColumnResType exec(std::tuple<Us const&...> const& ts) {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
@@ -1117,19 +1122,16 @@ struct MutationReturningSqlBuild {
                 }
             }(), ...);
         }(std::make_index_sequence<sizeof...(Us)>{});
-        std::vector<ColumnResType> res;
+        ColumnResType res;
         _dbRef.template returningForEach<Cs...>(res);
         return res;
     }
 
     template <typename... Us>
-    container::Try<std::vector<ColumnResType>> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
+    container::Try<ColumnResType> execNoThrow(std::tuple<Us const&...> const& ts) noexcept {
         container::Try<ColumnResType> res{};
         try {
             res.setVal(exec(ts));
-            if constexpr (std::is_same_v<ColumnResType, void>) {
-                res.setVal(container::NonVoidType<>{});
-            }
         } catch (...) {
             res.setException(std::current_exception());
         }
-- 
2.43.0


From cf8ece58dc40f1fadc783e1dec215a15a4732788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 59/77] fix: SQL expressions keep the structure, operand order
 and literals of the C++ expression

---
 include/HXLibs/db/sql/Dml.hpp        | 65 +++++++++++++++-------------
 include/HXLibs/db/sql/Expression.hpp | 20 ++++-----
 2 files changed, 46 insertions(+), 39 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index b9ecf22..0f3cec8 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -336,24 +336,34 @@ constexpr void expandExpr(std::string& res) {
     if constexpr (IsParamVal<T>) {
         res += "?";
     } else if constexpr (IsExpressionVal<T>) {
+        // 子表达式需要括号, 以保证求值顺序与 C++ 表达式的结构一致
+        res += '(';
         res += exprToString<Expr>();
+        res += ')';
     } else if constexpr (IsColTypeVal<T>) {
         res += makeColName<Expr>();
     } else if constexpr (meta::IsFixedStringVal<T>) {
         res += '\'';
-        res += Expr;
+        for (char c : std::string_view{Expr}) {
+            if (c == '\'') {
+                res += '\''; // SQL 字符串字面量中, 单引号需要写两次
+            }
+            res += c;
+        }
         res += '\'';
+    } else if constexpr (std::is_floating_point_v<T>) {
+        // 列中存放的是 double, 字面量也应当是 (而不是整数)
+        auto num = log::toString(static_cast<double>(Expr));
+        res += num;
+        if (num.find_first_of(".e") == std::string::npos) {
+            res += ".0";
+        }
     } else if constexpr (IsSqlNumberTypeVal<T>) {
-        res += log::toString(Expr);
+        res += log::toString(static_cast<std::int64_t>(Expr));
     } else if constexpr (meta::IsValueWrapVal<T>) {
         [&] <auto... Vs> (meta::ValueWrap<Vs...>) {
-            if constexpr (sizeof...(Vs) > 1) {
-                res += '(';
-            }
             ((expandExpr<Vs>(res), res += ','), ...);
-            if constexpr (sizeof...(Vs) > 1) {
-                res.back() = ')';
-            } else {
+            if constexpr (sizeof...(Vs) > 0) {
                 res.pop_back();
             }
         } (Expr);
@@ -365,27 +375,28 @@ constexpr std::string exprToString() {
     std::string res{};
     using T = decltype(Expr);
     if constexpr (IsCalculateExprTypeVal<T> || Is3OpExprVal<T>) {
-        using Expr1 = decltype(Expr._expr1);
-        if constexpr (IsExpressionVal<Expr1>) {
-            res += exprToString<Expr._expr1>();
-        } else if constexpr (IsColTypeVal<Expr1>) {
-            res += makeColName<Expr._expr1>();
-        } else {
-            // 非法表达式
-            static_assert(!sizeof(Expr), "illegal expression");
-        }
+        using Op = meta::RemoveCvRefType<decltype(Expr._op)>;
+        expandExpr<Expr._expr1>(res);
         res += ' ';
         res += Expr._op.Sql;
         res += ' ';
-        expandExpr<Expr._expr2>(res);
+        if constexpr (std::is_same_v<Op, meta::RemoveCvRefType<decltype(op::In)>>
+                   || std::is_same_v<Op, meta::RemoveCvRefType<decltype(op::NotIn)>>
+        ) {
+            res += '(';
+            expandExpr<Expr._expr2>(res);
+            res += ')';
+        } else {
+            expandExpr<Expr._expr2>(res);
+        }
     } else if constexpr (IsTailOpExprVal<T>) {
-        res += makeColName<Expr._expr>();
+        expandExpr<Expr._expr>(res);
         res += ' ';
         res += Expr._op.Sql;
     } else if constexpr (Is1OpExprVal<T>) {
         res += Expr._op.Sql;
         res += ' ';
-        res += makeColName<Expr._expr>();
+        expandExpr<Expr._expr>(res);
     } else {
         // 非法表达式
         static_assert(!sizeof(Expr), "illegal expression");
@@ -419,16 +430,12 @@ template <Expression Expr>
 constexpr auto GetExprParamsTypeFunc() noexcept {
     using T = decltype(Expr);
     if constexpr (IsCalculateExprTypeVal<T> || Is3OpExprVal<T>) {
-        if constexpr (IsExpressionVal<decltype(Expr._expr1)>) {
-            return meta::FlattenWrapType<
-                decltype(GetExprParamsTypeFunc<Expr._expr1>()),
-                decltype(expandGetExprParamsTypeFunc<Expr._expr2>())
-            >{};
-        } else {
-            return expandGetExprParamsTypeFunc<Expr._expr2>();
-        }
+        return meta::FlattenWrapType<
+            decltype(expandGetExprParamsTypeFunc<Expr._expr1>()),
+            decltype(expandGetExprParamsTypeFunc<Expr._expr2>())
+        >{};
     } else {
-        return meta::Wrap<>{};
+        return expandGetExprParamsTypeFunc<Expr._expr>();
     }
 }
 
diff --git a/include/HXLibs/db/sql/Expression.hpp b/include/HXLibs/db/sql/Expression.hpp
index d7cb227..2df84d1 100644
--- a/include/HXLibs/db/sql/Expression.hpp
+++ b/include/HXLibs/db/sql/Expression.hpp
@@ -162,8 +162,8 @@ struct Expression<Op, Expr, void> {
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }
 
 HX_DB_3OP_COMP_IMPL(<, op::Lt)
@@ -200,8 +200,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }                                                                          \
     template <ColType C, CalculateExprType CET>                                \
     constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
@@ -209,9 +209,9 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
         return {c, OP_NAME, cet};                                              \
     }                                                                          \
     template <CalculateExprType CET, ColType C>                                \
-    constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
+    constexpr Expression<CET, decltype(OP_NAME), C> operator OP(               \
         CET cet, C c) noexcept {                                               \
-        return {c, OP_NAME, cet};                                              \
+        return {cet, OP_NAME, c};                                              \
     }                                                                          \
     template <CalculateExprType CET>                                           \
     constexpr auto operator OP(CET cet, auto v) noexcept                       \
@@ -224,8 +224,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
     constexpr auto operator OP(auto v, CET cet) noexcept                       \
         requires(IsSqlNumberTypeVal<decltype(v)>)                              \
     {                                                                          \
-        return Expression<CET, decltype(OP_NAME), decltype(v), void>{          \
-            cet, OP_NAME, std::move(v)};                                       \
+        return Expression<decltype(v), decltype(OP_NAME), CET, void>{          \
+            std::move(v), OP_NAME, cet};                                       \
     }
 
 HX_DB_3OP_NUMBER_IMPL(==, op::Eq)
@@ -255,8 +255,8 @@ HX_DB_3OP_NUMBER_IMPL(%, op::Mod)
             meta::StringType<meta::RemoveOptionalWrapType<typename C::Type>>   \
             && meta::IsFixedStringVal<decltype(v)>)                            \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }
 
 HX_DB_3OP_STR_IMPL(==, op::Eq)
-- 
2.43.0


From b33ecd4bdf39242760c3aee15fc5e136ec7d5674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 60/77] fix: a select template builds its SQL text once, also
 after a failed prepare

---
 include/HXLibs/db/sql/Dml.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 0f3cec8..06f6048 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -556,10 +556,12 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> + IsParamVal<decltype(MaxCnt)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
-        this->_dbRef.sql() += ',';
-        internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+            this->_dbRef.sql() += ',';
+            internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
@@ -572,8 +574,10 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(std::move(_tp))..., std::forward<Us>(us)...};
@@ -676,9 +680,11 @@ struct GroupByBuild : public HavingBuild<Db, Ts...> {
     template <Col... Cs>
         requires (sizeof...(Cs) > 0)
     HavingBuild<Db, Ts&&...> groupBy() && {
-        this->_dbRef.sql() += "GROUP BY ";
-        ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
-        this->_dbRef.sql().back() = ' ';
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "GROUP BY ";
+            ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
+            this->_dbRef.sql().back() = ' ';
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(_tp))...};
         }(std::make_index_sequence<N>{});
@@ -886,7 +892,7 @@ struct SelectBuild : public SelectSqlBuild<Db> {
         requires (sizeof...(Cs) > 0)
     constexpr FromBuild<Db> select() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
-            this->_dbRef.sql() += "SELECT ";
+            this->_dbRef.sql() = "SELECT "; // 丢弃之前未能完成的 (如预编译失败)
             ([this] <auto C> (meta::ValueWrap<C>) {
                 using U = decltype(C);
                 if constexpr (IsColTypeVal<U>) {
-- 
2.43.0


From c03b78bd19c11da73ef72c5ac0f2c6e71a41d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 61/77] fix: closing, reopening or moving a database drops its
 cached statements, and paths need not be terminated

---
 include/HXLibs/db/sqlite3/SqliteDB.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteDB.hpp b/include/HXLibs/db/sqlite3/SqliteDB.hpp
index 1401a16..26d2a7f 100644
--- a/include/HXLibs/db/sqlite3/SqliteDB.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteDB.hpp
@@ -41,17 +41,19 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
     }
 
     SqliteDB& operator=(SqliteDB&& that) noexcept {
-        static_cast<DataBaseCrtp<SqliteDB>&>(*this) = std::move(that);
+        // 缓存的 SQL 模板属于各自的对象与连接, 不随之移动
+        Base::clearCache();
+        that.clearCache();
         std::swap(that._db, _db);
         return *this;
     }
 
     void open(std::string_view filePath) {
         close();
-        if (::sqlite3_open(filePath.data(), &_db) != SQLITE_OK) [[unlikely]] {
-            throw std::runtime_error{
-                "Failed to open database: " + std::string{::sqlite3_errmsg(_db)}
-            };
+        if (::sqlite3_open(std::string{filePath}.c_str(), &_db) != SQLITE_OK) [[unlikely]] {
+            std::string err = "Failed to open database: " + std::string{::sqlite3_errmsg(_db)};
+            close();
+            throw std::runtime_error{err};
         }
     }
 
@@ -59,6 +61,8 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         if (!_db) {
             return;
         }
+        // 需要清空缓存, 否则无法释放 sqlite3_close, 并且缓存的 stmt 属于当前连接
+        Base::clearCache();
 #ifndef NDEBUG
         sqlite3_stmt* stmt = nullptr;
         while ((stmt = sqlite3_next_stmt(_db, stmt))) {
@@ -66,17 +70,16 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         }
 #endif
         sqlite3_close(_db);
+        _db = nullptr;
     }
 
     ~SqliteDB() noexcept {
-        // 需要清空缓存, 否则无法释放 sqlite3_close
-        Base::clearCache();
         close();
     }
 
     void exec(std::string_view sql) {
         char* errMsg = nullptr;
-        if (::sqlite3_exec(_db, sql.data(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
+        if (::sqlite3_exec(_db, std::string{sql}.c_str(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
             std::string err = errMsg ? errMsg : "unknown error";
             ::sqlite3_free(errMsg);
             throw std::runtime_error{err};
-- 
2.43.0


From 103007bb3f4605fb0e53bebc6ba3e61729b3baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 62/77] fix: schema statements use the table's own name, valid
 string defaults and can be repeated

---
 include/HXLibs/db/sql/Dml.hpp                 |  9 +-------
 include/HXLibs/db/sql/SqlType.hpp             | 22 +++++++++++++++++++
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 18 +++++++++------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 06f6048..37e230a 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -343,14 +343,7 @@ constexpr void expandExpr(std::string& res) {
     } else if constexpr (IsColTypeVal<T>) {
         res += makeColName<Expr>();
     } else if constexpr (meta::IsFixedStringVal<T>) {
-        res += '\'';
-        for (char c : std::string_view{Expr}) {
-            if (c == '\'') {
-                res += '\''; // SQL 字符串字面量中, 单引号需要写两次
-            }
-            res += c;
-        }
-        res += '\'';
+        res += toSqlStrLiteral(Expr);
     } else if constexpr (std::is_floating_point_v<T>) {
         // 列中存放的是 double, 字面量也应当是 (而不是整数)
         auto num = log::toString(static_cast<double>(Expr));
diff --git a/include/HXLibs/db/sql/SqlType.hpp b/include/HXLibs/db/sql/SqlType.hpp
index 1dbe2b5..cba5b74 100644
--- a/include/HXLibs/db/sql/SqlType.hpp
+++ b/include/HXLibs/db/sql/SqlType.hpp
@@ -19,6 +19,9 @@
  */
 
 #include <chrono>
+#include <string>
+#include <string_view>
+#include <vector>
 
 #include <HXLibs/meta/ContainerConcepts.hpp>
 #include <HXLibs/meta/FixedString.hpp>
@@ -42,4 +45,23 @@ constexpr bool IsSqlTypeVal = IsSqlNumberTypeVal<T>
     || !meta::IsTypeNotInTypesVal<T, db::Date, db::Time>
     || std::is_same_v<T, Blob>;
 
+namespace internal {
+
+/**
+ * @brief 字符串转为 SQL 的字符串字面量
+ */
+constexpr std::string toSqlStrLiteral(std::string_view str) {
+    std::string res{'\''};
+    for (char c : str) {
+        if (c == '\'') {
+            res += '\''; // 字面量中, 单引号需要写两次
+        }
+        res += c;
+    }
+    res += '\'';
+    return res;
+}
+
+} // namespace internal
+
 } // namespace HX::db
\ No newline at end of file
diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index 6d07fb5..9cf7603 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -103,7 +103,11 @@ struct CreateDbSql {
             } else if constexpr (attr::IsDefaultValTypeVal<Constraint>) {
                 [&] <auto Value> (attr::DefaultVal<Value>) {
                     mainSql += "DEFAULT ";
-                    mainSql += log::toString(Value);
+                    if constexpr (meta::IsFixedStringVal<decltype(Value)>) {
+                        mainSql += db::internal::toSqlStrLiteral(Value);
+                    } else {
+                        mainSql += log::toString(Value);
+                    }
                 }(Constraint{});
             } else if constexpr (attr::IsForeignVal<Constraint>) {
                 [&] <auto Key> (attr::Foreign<Key>) {
@@ -115,7 +119,7 @@ struct CreateDbSql {
                     using ForeignTable = meta::GetMemberPtrsClassType<decltype(Key)>;
                     std::string keySql = "FOREIGN KEY(";
                     std::string refSql = " REFERENCES ";
-                    refSql += reflection::getTypeName<ForeignTable>();
+                    refSql += getTableName<ForeignTable>();
                     refSql += '(';
 
                     auto map = reflection::makeMemberPtrToNameMap<ForeignTable>();
@@ -185,7 +189,7 @@ struct CreateDbSql {
                         // 内外键对应的类型应该相同 (ForeignMap 类型默认保证)
                         std::string keySql = "FOREIGN KEY(";
                         std::string refSql = " REFERENCES ";
-                        refSql += reflection::getTypeName<ForeignTable>();
+                        refSql += getTableName<ForeignTable>();
                         refSql += '(';
                         
                         auto selfNameMap = reflection::makeMemberPtrToNameMap<Table>();
@@ -259,9 +263,9 @@ struct CreateDbSql {
         auto sqls = std::vector<std::string>{};
 #if defined(_MSC_VER)
         // https://github.com/HengXin666/HXLibs/issues/17 (MSVC ICE)
-        const auto tableName = reflection::getTypeName<Table>();
+        const auto tableName = getTableName<Table>();
 #else
-        constexpr auto tableName = reflection::getTypeName<Table>();
+        constexpr auto tableName = getTableName<Table>();
 #endif // !defined(_MSC_VER)
         reflection::forEach(t, [&] (auto, auto name, auto&& val) {
             using Type = meta::RemoveCvRefType<decltype(val)>;
@@ -269,7 +273,7 @@ struct CreateDbSql {
                 [&] <typename U, typename... ConstraintTypes> (Constraint<U, ConstraintTypes...>&) {
                     ([&] <typename Constraint> (Constraint) {
                         if constexpr (attr::IsIndexVal<Constraint>) {
-                            std::string sql = "CREATE INDEX idx_";
+                            std::string sql = "CREATE INDEX IF NOT EXISTS idx_";
                             sql += tableName;
                             sql += '_';
                             sql += name;
@@ -302,7 +306,7 @@ struct CreateDbSql {
                         static_assert(!std::is_void_v<meta::GetMemberPtrsClassType<
                             attr::internal::GetIndexOrderKeyType<Keys>...>>,
                             "It is required that all indexes are from the same class");
-                        std::string sql = "CREATE INDEX idx_";
+                        std::string sql = "CREATE INDEX IF NOT EXISTS idx_";
                         std::string idxSql = "(";
                         sql += tableName;
                         ([&] <auto KeyPtr, attr::Order SortOrder> (attr::IndexOrder<KeyPtr, SortOrder>) {
-- 
2.43.0


From c1321f0ae20411fdf2441e308d802d28438d1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 63/77] fix: optional (NULL) and blob columns can be stored and
 read back

---
 include/HXLibs/db/sql/CustomType.hpp          |  5 +++++
 include/HXLibs/db/sql/Stmt.hpp                |  6 +++---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp |  2 +-
 include/HXLibs/db/sqlite3/SqliteStmt.hpp      | 18 +++++++++++++-----
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/db/sql/CustomType.hpp b/include/HXLibs/db/sql/CustomType.hpp
index 06b1df6..39c5da4 100644
--- a/include/HXLibs/db/sql/CustomType.hpp
+++ b/include/HXLibs/db/sql/CustomType.hpp
@@ -55,4 +55,9 @@ constexpr bool IsCustomTypeVal = requires {
     CustomType<T>{};
 };
 
+// optional<U> 不是自定义SQL类型, 其由 U 决定
+template <typename T>
+    requires (meta::IsOptionalVal<T>)
+constexpr bool IsCustomTypeVal<T> = false;
+
 } // namespace HX::db
\ No newline at end of file
diff --git a/include/HXLibs/db/sql/Stmt.hpp b/include/HXLibs/db/sql/Stmt.hpp
index 8d312b5..e485da4 100644
--- a/include/HXLibs/db/sql/Stmt.hpp
+++ b/include/HXLibs/db/sql/Stmt.hpp
@@ -100,10 +100,10 @@ template <
     typename NullFunc,
     typename Type = RemoveConstraintToType<meta::RemoveCvRefType<T>>
 >
-    requires (std::is_invocable_v<AnyFunc, Type&>
+    requires (std::is_invocable_v<AnyFunc, meta::RemoveOptionalWrapType<Type>&>
            && std::is_invocable_v<NullFunc>)
 constexpr bool stmtBind(T&& t, AnyFunc&& anyFunc, NullFunc&& nullFunc) noexcept(
-    noexcept(std::forward<AnyFunc>(anyFunc)(std::declval<Type&>()))
+    noexcept(std::forward<AnyFunc>(anyFunc)(std::declval<meta::RemoveOptionalWrapType<Type>&>()))
  && noexcept(std::forward<NullFunc>(nullFunc)())
 ) {
     auto const& data = static_cast<Type const&>(t);
@@ -112,7 +112,7 @@ constexpr bool stmtBind(T&& t, AnyFunc&& anyFunc, NullFunc&& nullFunc) noexcept(
     } else if constexpr (meta::IsOptionalVal<Type>) {
         if constexpr (IsCustomTypeVal<typename Type::value_type>) {        
             if (data) {
-                return std::forward<AnyFunc>(anyFunc)(data);
+                return std::forward<AnyFunc>(anyFunc)(*data);
             } else {
                 return std::forward<NullFunc>(nullFunc)();
             }
diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index 9cf7603..e397c94 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -64,7 +64,7 @@ struct CreateDbSql {
     }
 
     template <typename T>
-        requires (IsCustomTypeVal<T>)
+        requires (IsCustomTypeVal<meta::RemoveOptionalWrapType<T>>)
     static constexpr std::string_view getSqlTypeStr() noexcept {
         return getSqlTypeStrImpl<T>([] {
             using namespace std::string_view_literals;
diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index b822b8d..bdca7bb 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -78,11 +78,13 @@ public:
                 ::sqlite3_column_text(_stmt, idx)
             );
             auto len = ::sqlite3_column_bytes(_stmt, idx);
-            return Type{str, static_cast<std::size_t>(len)};
+            // NULL 视为空字符串
+            return Type{str ? str : "", static_cast<std::size_t>(len)};
         } else if constexpr (std::is_same_v<Type, Blob>) {
             auto blob = ::sqlite3_column_blob(_stmt, idx);
             auto len = ::sqlite3_column_bytes(_stmt, idx);
-            return Type(blob, static_cast<std::size_t>(len));
+            auto* data = static_cast<char const*>(blob);
+            return Type(data, data + len);
         } else if constexpr (IsCustomTypeVal<Type>) {
             auto* str = reinterpret_cast<const char *>(
                 ::sqlite3_column_text(_stmt, idx)
@@ -103,7 +105,7 @@ public:
                 resArr.emplace_back([&] {
                     using Res = typename decltype(internal::toCol<Vs>())::Type;
                     using Type = meta::RemoveOptionalWrapType<Res>;
-                    if constexpr (meta::IsOptionalVal<Type>) {
+                    if constexpr (meta::IsOptionalVal<Res>) {
                         if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
                             return Res{};
                         }
@@ -165,8 +167,14 @@ public:
             } else if constexpr (std::is_floating_point_v<SqlType>) {
                 return SQLITE_OK == ::sqlite3_bind_double(_stmt, i, data);
             } else if constexpr (meta::StringType<SqlType>) {
-                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, data.data(), static_cast<int>(data.size()), nullptr);
+                // 空指针会被视为 NULL, 而不是空字符串
+                return SQLITE_OK == ::sqlite3_bind_text(
+                    _stmt, i, data.data() ? data.data() : "", static_cast<int>(data.size()), nullptr);
             } else if constexpr (std::is_same_v<SqlType, Blob>) {
+                if (data.empty()) {
+                    // 空指针会被视为 NULL, 而不是空 Blob
+                    return SQLITE_OK == ::sqlite3_bind_zeroblob(_stmt, i, 0);
+                }
                 return SQLITE_OK == ::sqlite3_bind_blob(_stmt, i, data.data(), static_cast<int>(data.size()), nullptr);
             } else if constexpr (IsCustomTypeVal<SqlType>) {
                 auto const& sqlData = CustomType<Type>::toSql(data);
@@ -191,7 +199,7 @@ public:
             return ColumnResult<meta::ValueWrap<Vs...>>([&]() constexpr {
                 using Res = typename decltype(internal::toCol<Vs>())::Type;
                 using Type = meta::RemoveOptionalWrapType<Res>;
-                if constexpr (meta::IsOptionalVal<Type>) {
+                if constexpr (meta::IsOptionalVal<Res>) {
                     if (sqlite3_column_type(_stmt, static_cast<int>(Idx)) == SQLITE_NULL) {
                         return Res{};
                     }
-- 
2.43.0


From 7e1f6358bd130ba40a309b1cb4b31d2e0edaf320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 64/77] fix: custom SQL types can be read, and their text
 outlives the binding

---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index bdca7bb..abb33d3 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -90,7 +90,7 @@ public:
                 ::sqlite3_column_text(_stmt, idx)
             );
             auto len = ::sqlite3_column_bytes(_stmt, idx);
-            return CustomType<Type>::fromSql({str, len});
+            return CustomType<Type>::fromSql({str ? str : "", static_cast<std::size_t>(len)});
         } else {
             // 不支持该类型
             static_assert(!sizeof(Type), "type is not sql type");
@@ -177,8 +177,10 @@ public:
                 }
                 return SQLITE_OK == ::sqlite3_bind_blob(_stmt, i, data.data(), static_cast<int>(data.size()), nullptr);
             } else if constexpr (IsCustomTypeVal<SqlType>) {
+                // toSql 可能返回临时对象, 需要让 sqlite3 拷贝一份
                 auto const& sqlData = CustomType<Type>::toSql(data);
-                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), nullptr);
+                return SQLITE_OK == ::sqlite3_bind_text(
+                    _stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), SQLITE_TRANSIENT);
             } else {
                 // 不支持该类型
                 static_assert(!sizeof(SqlType), "type is not sql type");
-- 
2.43.0


From daa5f73a25bb1c0ea2e7e40e5ad179b6b977cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 65/77] fix: a failed first connection of a request is tried
 once more, as a broken one is

---
 include/HXLibs/net/client/HttpClient.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 72f1bee..b3e672f 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -613,6 +613,15 @@ private:
      */
     coroutine::Task<> prepareSocket(std::string_view url) {
         if (needConnect() || (!url.starts_with('/') && _server != getServer(url))) {
+            try {
+                co_await makeSocket(url);
+                co_return;
+            } catch (...) {
+                // 服务器可能还在启动, 再尝试连接一次
+                if (!_isAutoReconnect) {
+                    throw;
+                }
+            }
             co_await makeSocket(url);
         }
     }
-- 
2.43.0


From 2f604d0d1a97a1c621f6d131c8c7f05c8352b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 66/77] fix: asyncRun returns once the server can be connected
 to

---
 include/HXLibs/net/server/Acceptor.hpp   | 10 ++++++--
 include/HXLibs/net/server/HttpServer.hpp | 29 +++++++++++++++++-------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index 2cab310..07752ff 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -49,10 +49,16 @@ struct Acceptor {
 
     Acceptor& operator=(Acceptor&&) noexcept = delete;
 
-    template <typename Timeout>
+    /**
+     * @brief 开始接受连接
+     * @param isRun 服务器是否运行
+     * @param onListen 已经开始监听时的回调
+     */
+    template <typename Timeout, typename OnListen = decltype([]{})>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<> start(std::atomic_bool const& isRun) {
+    coroutine::Task<> start(std::atomic_bool const& isRun, OnListen onListen = {}) {
         auto serverFd = co_await makeServerFd();
+        onListen();
         for (;;) [[likely]] {
             auto fd = HXLIBS_CHECK_EVENT_LOOP((
                 co_await _eventLoop.makeAioTask().prepAccept(
diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index cb207d6..ad63ef3 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -18,6 +18,8 @@
  * limitations under the License.
  */
 
+#include <latch>
+
 #include <HXLibs/net/router/Router.hpp>
 #include <HXLibs/net/socket/AddressResolver.hpp>
 #include <HXLibs/net/server/Acceptor.hpp>
@@ -141,12 +143,23 @@ public:
             throw std::runtime_error{"The server is already running"};
         }
         init();
+        // 本方法返回时, 服务器已经可以被连接
+        auto ready = std::make_shared<std::latch>(static_cast<std::ptrdiff_t>(threadNum));
         for (std::size_t i = 0; i < threadNum; ++i) {
             ++_runNum; // 在启动线程之前就计数, 使得马上关闭服务器也会等待它
-            _threads.emplace_back([this] {
-                _sync<Timeout>();
+            _threads.emplace_back([this, ready] {
+                bool isReady = false;
+                auto setReady = [&] {
+                    if (!isReady) {
+                        isReady = true;
+                        ready->count_down();
+                    }
+                };
+                _sync<Timeout>(setReady);
+                setReady(); // 启动失败
             });
         }
+        ready->wait();
     }
 
     /**
@@ -170,8 +183,8 @@ public:
 private:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
-        static_cast<Self*>(this)->template _sync<Timeout>();
+    void _sync(auto& onListen) {
+        static_cast<Self*>(this)->template _sync<Timeout>(onListen);
     }
 
     void info() {
@@ -232,13 +245,13 @@ private:
 
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
+    void _sync(auto& onListen) {
         try {
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
             Acceptor<HttpIO> acceptor{_router, _eventLoop, entry};
-            auto mainTask = acceptor.start<Timeout>(_isRun);
+            auto mainTask = acceptor.template start<Timeout>(_isRun, [&] { onListen(); });
             _eventLoop.start(mainTask);
             _eventLoop.run();
         } catch (std::exception const& ec) {
@@ -304,13 +317,13 @@ private:
 
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
+    void _sync(auto& onListen) {
         try {
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
             Acceptor<HttpsIO> acceptor{_router, _eventLoop, entry};
-            auto mainTask = acceptor.start<Timeout>(_isRun);
+            auto mainTask = acceptor.template start<Timeout>(_isRun, [&] { onListen(); });
             _eventLoop.start(mainTask);
             _eventLoop.run();
         } catch (std::exception const& ec) {
-- 
2.43.0


From 8a2cc32a66ced04be2e2433554ddf7f4b9a9bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 67/77] fix: groupBy can take an expression

---
 include/HXLibs/db/sql/Dml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 37e230a..4403d92 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -670,8 +670,8 @@ struct GroupByBuild : public HavingBuild<Db, Ts...> {
         return std::move(*this).template groupBy<Col{Ptrs}...>();
     }
 
-    template <Col... Cs>
-        requires (sizeof...(Cs) > 0)
+    template <auto... Cs>
+        requires (sizeof...(Cs) > 0 && (IsColTypeVal<decltype(Cs)> && ...))
     HavingBuild<Db, Ts&&...> groupBy() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += "GROUP BY ";
-- 
2.43.0


From 5d25920526d96a9ad9a63c72f90a4f31afaf4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 68/77] fix: AddressResolver reads exactly the given name and
 service and frees earlier results

---
 include/HXLibs/net/socket/AddressResolver.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/socket/AddressResolver.hpp b/include/HXLibs/net/socket/AddressResolver.hpp
index 8112076..cc283dd 100644
--- a/include/HXLibs/net/socket/AddressResolver.hpp
+++ b/include/HXLibs/net/socket/AddressResolver.hpp
@@ -146,7 +146,7 @@ public:
      * @brief 解析主机名和服务名为 AddressInfo 链表
      * @param name 主机名或地址字符串(IPv4 的点分十进制表示或 IPv6 的十六进制表示)
      * @param service 服务名可以是十进制的端口号, 也可以是已知的服务名称, 如 ftp、http 等
-     * @return 用于处理 addrinfo 结果 的结构体
+     * @return 用于处理 addrinfo 结果 的结构体 (在下一次成功的 resolve 或者析构之前有效)
      */
     AddressInfo resolve(std::string_view name, std::string_view service) {
         /**
@@ -155,11 +155,18 @@ public:
          * hints: 可以是空指针, 也可以是指向某个 addrinfo 结构体的指针, 包含对所需地址类型的提示
          * result: 该函数通过 result 指针参数返回一个 addrinfo 结构体链表的指针
          */
-        int err = getaddrinfo(name.data(), service.data(), nullptr, &_head);
+        // name / service 不一定以 '\0' 结尾
+        std::string const nameStr{name}, serviceStr{service};
+        struct ::addrinfo* head = nullptr;
+        int err = getaddrinfo(nameStr.c_str(), serviceStr.c_str(), nullptr, &head);
         if (err) {
             auto ec = std::error_code(err, exception::LinuxErrorHandlingTools::gaiCategory());
-            throw std::system_error(ec, name.data() + std::string{":"} + service.data());
+            throw std::system_error(ec, nameStr + ":" + serviceStr);
+        }
+        if (_head) { // 释放上一次解析的结果
+            ::freeaddrinfo(_head);
         }
+        _head = head;
         return {_head};
     }
     
-- 
2.43.0


From 986c1da08c44a1e7916a30f9f81c86be4e71949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 69/77] fix: a listening socket that cannot be bound is closed
 again

---
 include/HXLibs/net/server/Acceptor.hpp        | 20 ++++++++-----
 include/HXLibs/net/socket/AddressResolver.hpp | 29 ++++++++++++-------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index 07752ff..0ef73c1 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -29,6 +29,7 @@
 #if defined(__linux__)
     #include <netinet/in.h>
     #include <netinet/tcp.h> // TCP_NODELAY
+    #include <unistd.h> // close
 #endif
 
 #include <HXLibs/log/Log.hpp>
@@ -101,13 +102,18 @@ private:
         // 造成毫秒级停顿; Linux 上 accept 出的连接会继承监听套接字的该选项
         setsockopt(serverFd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof(on));
 
-        exception::LinuxErrorHandlingTools::convertError<int>(
-            ::bind(serverFd, serAddr._addr, serAddr._addrlen)
-        ).expect("bind");
-
-        exception::LinuxErrorHandlingTools::convertError<int>(
-            ::listen(serverFd, SOMAXCONN)
-        ).expect("listen");
+        try {
+            exception::LinuxErrorHandlingTools::convertError<int>(
+                ::bind(serverFd, serAddr._addr, serAddr._addrlen)
+            ).expect("bind");
+
+            exception::LinuxErrorHandlingTools::convertError<int>(
+                ::listen(serverFd, SOMAXCONN)
+            ).expect("listen");
+        } catch (...) {
+            ::close(serverFd); // 失败时不能泄漏
+            throw;
+        }
 
         co_return serverFd;
 #elif defined(_WIN32)
diff --git a/include/HXLibs/net/socket/AddressResolver.hpp b/include/HXLibs/net/socket/AddressResolver.hpp
index cc283dd..4ea3d80 100644
--- a/include/HXLibs/net/socket/AddressResolver.hpp
+++ b/include/HXLibs/net/socket/AddressResolver.hpp
@@ -18,6 +18,10 @@
  * limitations under the License.
  * */
 
+#if defined(__linux__)
+    #include <unistd.h> // close
+#endif
+
 #include <string>
 #include <system_error>
 
@@ -78,16 +82,21 @@ public:
                                     // 状态下重新绑定到之前使用的地址和端口)
             setsockopt(serverFd, SOL_SOCKET, SO_REUSEPORT, &on,
                        sizeof(on)); // 允许多个套接字绑定到相同的地址和端口
-            exception::LinuxErrorHandlingTools::checkError(
-                "socket error",
-                ::bind(serverFd, serveAddr._addr,
-                       serveAddr._addrlen)); // 将套接字绑定IP和端口用于监听
-            exception::LinuxErrorHandlingTools::checkError(
-                "socket error",
-                ::listen(
-                    serverFd,
-                    SOMAXCONN)); // 设置监听: 设定可同时排队的客户端最大连接个数
-                                 // 其中`SOMAXCONN`: Linux可监听的最大数量
+            try {
+                exception::LinuxErrorHandlingTools::checkError(
+                    "socket error",
+                    ::bind(serverFd, serveAddr._addr,
+                           serveAddr._addrlen)); // 将套接字绑定IP和端口用于监听
+                exception::LinuxErrorHandlingTools::checkError(
+                    "socket error",
+                    ::listen(
+                        serverFd,
+                        SOMAXCONN)); // 设置监听: 设定可同时排队的客户端最大连接个数
+                                     // 其中`SOMAXCONN`: Linux可监听的最大数量
+            } catch (...) {
+                ::close(serverFd); // 失败时不能泄漏
+                throw;
+            }
             return serverFd;
         }
 
-- 
2.43.0


From c4249bbd09d6fcd1e208a353d2dd47810deb2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 70/77] fix: ArrayBuf moves whole elements to its head

---
 include/HXLibs/container/ArrayBuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/container/ArrayBuf.hpp b/include/HXLibs/container/ArrayBuf.hpp
index 0f6d8a7..2cf6a1c 100644
--- a/include/HXLibs/container/ArrayBuf.hpp
+++ b/include/HXLibs/container/ArrayBuf.hpp
@@ -37,7 +37,7 @@ struct ArrayBuf {
      */
     void moveToHead(std::span<T const> s) noexcept {
         _nowSize = s.size();
-        std::memmove(_arr, s.data(), s.size());
+        std::memmove(_arr, s.data(), s.size_bytes());
     }
 
     /**
-- 
2.43.0


From 89562d0c7dd11fbd85d7c83dc1bbf48377ab3b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 71/77] fix: reading JSON replaces what the target held before

---
 include/HXLibs/reflection/json/JsonRead.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 4ab3890..4f7df5a 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -345,6 +345,7 @@ struct FromJson {
                 && (*(it + 3) & Mask) == 'L'
         ) {
             it += 4;
+            t = T{}; // 目标可能原本就有值 (如: 默认成员初始化)
             return;
         }
         if constexpr (meta::IsOptionalVal<T>) {
@@ -362,6 +363,7 @@ struct FromJson {
     template <meta::StringType T, typename It>
     static void fromJson(T& t, It&& it, It&& end) {
         // 解析字符串
+        t.clear(); // 目标可能原本就有值 (如: 默认成员初始化)
         parseString(t, it, end);
     }
 
@@ -371,6 +373,7 @@ struct FromJson {
     static void fromJson(T& t, It&& it, It&& end) {
         skipWhiteSpace(it, end);
         verify<'['>(it, end);
+        t.clear(); // 目标可能原本就有值 (如: 默认成员初始化)
 
         skipWhiteSpace(it, end);
         if (isChar<']'>(it, end)) [[unlikely]] {
@@ -454,6 +457,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         // 解析字典 {}
         verify<'{'>(it, end);
+        t.clear(); // 目标可能原本就有值 (如: 默认成员初始化)
 
         skipWhiteSpace(it, end);
         if (isChar<'}'>(it, end)) [[unlikely]] {
-- 
2.43.0


From 6f0e536c83e3b7d31efcb9425fa326b5b036ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 72/77] fix: a file that changes while it is sent no longer
 corrupts the connection

---
 include/HXLibs/net/protocol/http/Response.hpp | 47 ++++++++++++++-----
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 6dc776d..2505894 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -387,6 +387,7 @@ public:
         
         utils::AsyncFile file{_io};
         co_await file.open(filePath);
+        std::exception_ptr err;
         try {
             std::vector<char> buf(utils::FileUtils::kBufMaxSize);
             // 读取文件
@@ -427,9 +428,13 @@ public:
                 co_await _io.fullySend({buf.data(), size});           // 发送文件
             }
         } catch (...) {
-            ; // _io.template send 会抛异常
+            // 响应没有发送完整, 连接不能再被复用
+            err = std::current_exception();
         }
         co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
+        }
     }
 
 #if defined(__GNUC__) && !defined(__clang__)
@@ -505,6 +510,7 @@ public:
                 
                 utils::AsyncFile file{_io};
                 co_await file.open(filePath);
+                std::exception_ptr err;
                 try {
                     file.setOffset(beginPos);
                     std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
@@ -517,16 +523,20 @@ public:
                                 static_cast<uint32_t>(std::min(remaining, buf.size()))
                             )
                         );
-                        if (!size) [[unlikely]] {
-                            break;
+                        if (!size) [[unlikely]] { // 文件变短了
+                            throw std::runtime_error{"The file became shorter while it was sent"};
                         }
                         co_await _io.fullySend({buf.data(), size});
                         remaining -= size;
                     }
                 } catch (...) {
-                    ;
+                    // 响应没有发送完整, 连接不能再被复用
+                    err = std::current_exception();
                 }
                 co_await file.close();
+                if (err) [[unlikely]] {
+                    std::rethrow_exception(err);
+                }
             } else {
                 /*
                     HTTP/1.1 206 Partial Content\r\n
@@ -573,6 +583,7 @@ public:
 
                     utils::AsyncFile file{_io};
                     co_await file.open(filePath);
+                    std::exception_ptr err;
                     try {
                         file.setOffset(beginPos);
                         std::vector<char> buf(utils::FileUtils::kBufMaxSize);
@@ -585,18 +596,21 @@ public:
                                     static_cast<uint32_t>(std::min(remaining, buf.size()))
                                 )
                             );
-                            if (!size) [[unlikely]] {
-                                break;
+                            if (!size) [[unlikely]] { // 文件变短了
+                                throw std::runtime_error{"The file became shorter while it was sent"};
                             }
                             co_await _io.fullySend({buf.data(), size});
                             remaining -= size;
                         }
                         co_await _io.fullySend(CRLF);
                     } catch (...) {
-                        // _io.template send 会抛异常
-                        ;
+                        // 响应没有发送完整, 连接不能再被复用
+                        err = std::current_exception();
                     }
                     co_await file.close();
+                    if (err) [[unlikely]] {
+                        std::rethrow_exception(err);
+                    }
                 }
                 co_await _io.fullySend(boundaryEnd);
             }
@@ -610,24 +624,31 @@ public:
 
             utils::AsyncFile file{_io};
             co_await file.open(filePath);
+            std::exception_ptr err;
             try {
                 std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
                 uint64_t remaining = fileSize;
                 while (remaining > 0) {
                     std::size_t size = static_cast<std::size_t>(
-                        co_await file.read(buf)
+                        co_await file.read(
+                            buf,
+                            static_cast<uint32_t>(std::min<uint64_t>(remaining, buf.size()))
+                        )
                     );
-                    if (!size) [[unlikely]] {
-                        break;
+                    if (!size) [[unlikely]] { // 文件变短了
+                        throw std::runtime_error{"The file became shorter while it was sent"};
                     }
                     co_await _io.fullySend({buf.data(), size});
                     remaining -= size;
                 }
             } catch (...) {
-                // _io.template send 会抛异常
-                ;
+                // 响应没有发送完整, 连接不能再被复用
+                err = std::current_exception();
             }
             co_await file.close();
+            if (err) [[unlikely]] {
+                std::rethrow_exception(err);
+            }
         }
     }
 
-- 
2.43.0


From d2276c93de4385457351d9b297b9c8eaf5fa36b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 73/77] fix: responses to HEAD requests carry no body

---
 include/HXLibs/net/protocol/http/Response.hpp | 19 ++++++++++++++++++-
 .../HXLibs/net/server/ConnectionHandler.hpp   |  1 +
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 2505894..15ee537 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -348,6 +348,17 @@ public:
 
     // ===== ↓服务端使用の更加人性化API↓ =====
 
+    /**
+     * @brief 设置当前响应是否为 HEAD 请求的响应
+     * @note HEAD 请求的响应仅有响应行和响应头, 不会发送响应体
+     * @param isHeadReq
+     * @return Response& 可链式调用
+     */
+    HttpResponse& setIsHeadReq(bool isHeadReq) noexcept {
+        _isHeadReq = isHeadReq;
+        return *this;
+    }
+
     /**
      * @brief 设置响应码和正文(html)
      * @param status 
@@ -384,6 +395,9 @@ public:
         _buildResponseLineAndHeaders();
         // 先发送一版, 告知我们是分块编码
         co_await _io.fullySend(_sendBuf);
+        if (_isHeadReq) {
+            co_return;
+        }
         
         utils::AsyncFile file{_io};
         co_await file.open(filePath);
@@ -783,6 +797,7 @@ private:
     IOType& _io;
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
+    bool _isHeadReq = false;                        // 是否为 HEAD 请求的响应
 
     template <typename>
     friend class WebSocketFactory;
@@ -876,7 +891,9 @@ private:
         utils::StringUtil::append(_sendBuf, CRLF);
 
         utils::StringUtil::append(_sendBuf, CRLF);
-        utils::StringUtil::append(_sendBuf, std::move(_body));
+        if (!_isHeadReq) {
+            utils::StringUtil::append(_sendBuf, std::move(_body));
+        }
     }
 
     /**
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 4febeea..a421d2b 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -57,6 +57,7 @@ struct ConnectionHandler {
                     if (!co_await req.template parserReqHead<Timeout>()) [[unlikely]] {
                         break;
                     }
+                    res.setIsHeadReq(req.getReqType() == "HEAD"sv);
                     // 路由
                     co_await router.getEndpoint(
                         req.getReqType(), 
-- 
2.43.0


From 1fc70656328133f08306e62328b07a5ea056b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 74/77] fix: clients skip interim answers and expect no body
 after 204 and 304

---
 include/HXLibs/net/protocol/http/Response.hpp | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 15ee537..f7ff73a 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -183,7 +183,14 @@ public:
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserResHead() {
         // 可能已经读取到了下一个响应, 故先解析
-        for (std::size_t n = _parserResHead(); n; n = _parserResHead()) {
+        for (std::size_t n = _parserResHead(); ; n = _parserResHead()) {
+            if (!n) {
+                if (!_isInterim()) [[likely]] {
+                    break;
+                }
+                clear(); // 跳过中间响应, 之后才是最终的响应
+                continue;
+            }
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -210,7 +217,11 @@ public:
     template <typename Timeout = decltype(5_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parseBody() {
+        using namespace std::string_view_literals;
         _markBodyParsed();
+        if (getStatusCode() == "204"sv || getStatusCode() == "304"sv) [[unlikely]] {
+            co_return true; // 这些响应没有响应体, 即便声明了长度
+        }
         for (std::size_t n = _parserReqBody(); n; n = _parserReqBody()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
@@ -983,6 +994,15 @@ private:
         return 0; // 解析完毕
     }
 
+    /**
+     * @brief 是否为中间响应 (1xx), 101 除外, 它是最终响应
+     */
+    bool _isInterim() const noexcept {
+        using namespace std::string_view_literals;
+        auto const& code = _statusLine[ResponseLineDataType::StatusCode];
+        return code.size() == 3 && code.front() == '1' && code != "101"sv;
+    }
+
     /**
      * @brief 解析 Body
      * @return std::size_t 还需要解析的字节数
-- 
2.43.0


From 8f4615c2f85f19ea03b07fb2ad4ce17c15c2d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 75/77] fix: bytes that follow an answer are never taken for
 the next one

---
 include/HXLibs/net/client/HttpClient.hpp      | 23 +++++++++++++++++--
 include/HXLibs/net/protocol/http/Response.hpp |  7 ++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index b3e672f..f88d5b4 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -20,6 +20,10 @@
 
 #include <optional>
 
+#if defined(__linux__)
+    #include <sys/socket.h> // recv
+#endif
+
 #include <HXLibs/net/client/HttpClientOptions.hpp>
 #include <HXLibs/net/protocol/http/Request.hpp>
 #include <HXLibs/net/protocol/http/Response.hpp>
@@ -612,7 +616,7 @@ private:
      * @return coroutine::Task<>
      */
     coroutine::Task<> prepareSocket(std::string_view url) {
-        if (needConnect() || (!url.starts_with('/') && _server != getServer(url))) {
+        if (needConnect() || hasStrayData() || (!url.starts_with('/') && _server != getServer(url))) {
             try {
                 co_await makeSocket(url);
                 co_return;
@@ -626,6 +630,20 @@ private:
         }
     }
 
+    /**
+     * @brief 空闲的连接上是否有数据; 它们不属于任何请求, 不能被当做下一个请求的响应
+     * @note Https 的连接空闲时候也可能有数据 (如会话票据), 故不检查
+     */
+    bool hasStrayData() const noexcept {
+#if defined(__linux__)
+        if constexpr (std::is_same_v<IOType, HttpIO>) {
+            char c;
+            return ::recv(_cliFd, &c, 1, MSG_PEEK | MSG_DONTWAIT) > 0;
+        }
+#endif // !defined(__linux__)
+        return false;
+    }
+
     /**
      * @brief 获取 url 对应的服务器
      * @param url
@@ -742,7 +760,8 @@ private:
                         throw std::runtime_error{"Send Timed Out"};
                     }
                     if (auto it = req.getHeaders().find("Connection");
-                        it != req.getHeaders().end() && it->second == "close"
+                        (it != req.getHeaders().end() && it->second == "close")
+                        || res.hasStrayData()
                     ) {
                         co_await coClose();
                     }
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index f7ff73a..6ce2d1f 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -243,6 +243,13 @@ public:
         co_return true;
     }
 
+    /**
+     * @brief 在响应之后是否还读取到了数据
+     */
+    bool hasStrayData() const noexcept {
+        return _recvBuf.size() != 0;
+    }
+
     /**
      * @brief 解析服务端 SSE 流
      * @tparam Timeout 超时时间
-- 
2.43.0


From 4644cf5f00699a637217a9cc47ccfc55e11c8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 76/77] fix: a log line is written as a whole

---
 include/HXLibs/log/Log.hpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/HXLibs/log/Log.hpp b/include/HXLibs/log/Log.hpp
index 12a8661..a41ca73 100644
--- a/include/HXLibs/log/Log.hpp
+++ b/include/HXLibs/log/Log.hpp
@@ -19,6 +19,8 @@
  */
 
 #include <cstdio>
+#include <string>
+#include <string_view>
 
 #include <HXLibs/log/serialize/FormatString.hpp>
 
@@ -30,9 +32,7 @@ struct Log {
     template <typename... Ts>
     void debug(Ts const&... ts) const {
 #ifndef NDEBUG
-        printf("\033[1;35m[DEBUG]\033[0m \033[38;5;244m"); // 紫色标签 + 灰内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;35m[DEBUG]\033[0m \033[38;5;244m", ts...); // 紫色标签 + 灰内容
 #else
         (static_cast<void>(ts), ...);
 #endif
@@ -40,23 +40,29 @@ struct Log {
 
     template <typename... Ts>
     void info(Ts const&... ts) const {
-        printf("\033[1;32m[INFO]\033[0m \033[32m"); // 亮绿标签 + 正常绿内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;32m[INFO]\033[0m \033[32m", ts...); // 亮绿标签 + 正常绿内容
     }
 
     template <typename... Ts>
     void warning(Ts const&... ts) const {
-        printf("\033[1;33m[WARNING]\033[0m \033[33m"); // 亮黄标签 + 正黄内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;33m[WARNING]\033[0m \033[33m", ts...); // 亮黄标签 + 正黄内容
     }
 
     template <typename... Ts>
     void error(Ts const&... ts) const {
-        printf("\033[1;31m[ERROR]\033[0m \033[31m"); // 亮红标签 + 正红内容
-        ((printf("%s ", formatString(ts).c_str())), ...);
-        printf("\033[0m\n");
+        print("\033[1;31m[ERROR]\033[0m \033[31m", ts...); // 亮红标签 + 正红内容
+    }
+
+private:
+    /**
+     * @brief 一次性写出整行, 使多个线程的日志不会互相穿插, 且内容可以含有'\0'
+     */
+    template <typename... Ts>
+    static void print(std::string_view tag, Ts const&... ts) {
+        std::string line{tag};
+        ((line += formatString(ts), line += ' '), ...);
+        line += "\033[0m\n";
+        std::fwrite(line.data(), 1, line.size(), stdout);
     }
 };
 
-- 
2.43.0


From 78a0afeebd6b61ad5f36281850c4fd2ae3e7c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 77/77] fix: a request body given as an lvalue stays with its
 owner

---
 include/HXLibs/net/client/HttpClient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index f88d5b4..a36b47a 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -294,7 +294,7 @@ public:
         }
 #endif // !NDEBUG
         return _pool.addTask([this, _url = std::move(url),
-                              _body = std::move(body), _headers = std::move(headers),
+                              _body = std::forward<Str>(body), _headers = std::move(headers),
                               contentType] {
             return coRequest<Method>(
                 std::move(_url), std::move(_headers),
-- 
2.43.0

