From 6da69eaa7f1b971914a8d68f75011d5cefa83d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 01/92] fix: base-128 signed integers below -2^55 don't survive
 a round trip

---
 datas/base_128.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..73c897b 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968, those don't fit 8 bytes along with a sign
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From ae9d9172cd707ab71e8931476ebc1194c2332757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 02/92] fix: scalar 4 lane vector operators with scalar operand
 and or-assignment

---
 datas/vectors.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index f4cb016..0e2df4c 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -327,28 +327,28 @@ public:
   }
 
   vector operator+(value_type input) const {
-    return *this = *this + vector(input);
+    return *this + vector(input);
   }
   vector operator-(value_type input) const {
-    return *this = *this - vector(input);
+    return *this - vector(input);
   }
   vector operator*(value_type input) const {
-    return *this = *this * vector(input);
+    return *this * vector(input);
   }
   vector operator/(value_type input) const {
-    return *this = *this / vector(input);
+    return *this / vector(input);
   }
   vector operator&(value_type input) const {
-    return *this = *this & vector(input);
+    return *this & vector(input);
   }
   vector operator|(value_type input) const {
-    return *this = *this | vector(input);
+    return *this | vector(input);
   }
   vector operator>>(shift_value input) const {
-    return *this = *this >> vector(input);
+    return *this >> V4ScalarType<shift_value>(input);
   }
   vector operator<<(shift_value input) const {
-    return *this = *this << vector(input);
+    return *this << V4ScalarType<shift_value>(input);
   }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
@@ -356,7 +356,7 @@ public:
   vec_ref operator*=(vec_cref input) { return *this = *this * input; }
   vec_ref operator/=(vec_cref input) { return *this = *this / input; }
   vec_ref operator&=(vec_cref input) { return *this = *this & input; }
-  vec_ref operator|=(vec_cref input) { return *this = *this & input; }
+  vec_ref operator|=(vec_cref input) { return *this = *this | input; }
   vec_ref operator>>=(shift_vec input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_vec input) { return *this = *this << input; }
 
@@ -365,7 +365,7 @@ public:
   vec_ref operator*=(value_type input) { return *this = *this * input; }
   vec_ref operator/=(value_type input) { return *this = *this / input; }
   vec_ref operator&=(value_type input) { return *this = *this & input; }
-  vec_ref operator|=(value_type input) { return *this = *this & input; }
+  vec_ref operator|=(value_type input) { return *this = *this | input; }
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-- 
2.43.0


From fe17f406e42fbcf3f34a365144f56f9bbea1b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 03/92] fix: SIMD vector symmetry test ignores the last lane

---
 datas/vectors_simd.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 7b2e079..84db255 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -170,9 +170,7 @@ public:
 
   // Check if X == Y == Z == W
   bool IsSymetrical() const {
-    const store_type temp =
-        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2));
-    return Compare(_mm_hsub_ps(_data, _data), _mm_hsub_ps(temp, temp));
+    return Compare(_data, _mm_shuffle_ps(_data, _data, 0));
   }
 
   // Return -1 if [X | Y | Z | W] < 0
-- 
2.43.0


From 035547256d30bb3119f4e384b61f3f164bd49b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 04/92] fix: whitespace trimming reads outside of empty views

---
 datas/supercore.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..326b52a 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,8 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input[0] == ' ' || input[0] == '\t' ||
+                            (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +104,8 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input.back() == ' ' || input.back() == '\t' ||
+                            (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From 65c75d3ecd4ad4cc9e92f1e7813fde450a27ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 05/92] fix: writing fixed arrays in swapped endian

---
 datas/binwritter_ref.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datas/binwritter_ref.hpp b/datas/binwritter_ref.hpp
index 529b532..c2c31a1 100644
--- a/datas/binwritter_ref.hpp
+++ b/datas/binwritter_ref.hpp
@@ -115,6 +115,18 @@ private:
     }
   }
 
+  template <class C, class T, size_t _size>
+  void _WriteSingle(const T (&value)[_size], ...) const {
+    if (this->swapEndian && sizeof(T) > 1) {
+      for (auto outCopy : value) {
+        FByteswapper(outCopy, true);
+        WriteBuffer(reinterpret_cast<const char *>(&outCopy), sizeof(T));
+      }
+    } else {
+      WriteBuffer(reinterpret_cast<const char *>(value), sizeof(value));
+    }
+  }
+
   template <class C, class D>
   auto _WriteElements(const D *input, size_t numElements, int) const
       -> decltype(std::declval<C>().Write(*this), void()) {
-- 
2.43.0


From 9ee65ec3027cef1e51cf9cf3ac49b16287351f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 06/92] fix: moved binary file reader and writer keep using the
 old stream

---
 datas/binreader.hpp  | 7 ++++++-
 datas/binwritter.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/datas/binreader.hpp b/datas/binreader.hpp
index 3ef4984..37203e8 100644
--- a/datas/binreader.hpp
+++ b/datas/binreader.hpp
@@ -37,7 +37,12 @@ public:
   }
   BinReader(const char *filePath) { OpenFile(filePath); }
   BinReader(const BinReader &) = delete;
-  BinReader(BinReader &&) = default;
+  BinReader(BinReader &&other)
+      : BinReaderRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinReader &operator=(const BinReader &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
diff --git a/datas/binwritter.hpp b/datas/binwritter.hpp
index 155b74b..aae04ac 100644
--- a/datas/binwritter.hpp
+++ b/datas/binwritter.hpp
@@ -38,7 +38,12 @@ public:
   BinWritter(const char *filePath) { OpenFile(filePath); }
 
   BinWritter(const BinWritter &rd) = delete;
-  BinWritter(BinWritter &&) = default;
+  BinWritter(BinWritter &&other)
+      : BinWritterRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinWritter &operator=(const BinWritter &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
-- 
2.43.0


From 98803f6dc57e4db7ee872eaacc82e3bfaf8afdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 07/92] fix: string view find and rfind miss or misplace
 matches

---
 datas/internal/string_view.inl | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1322ba7..2cafaa5 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -294,21 +294,17 @@ namespace es {
   inline typename basic_string_view<CharT, Traits>::size_type
   basic_string_view<CharT, Traits>::find(basic_string_view v,
                                          size_type pos) const {
-    if (v.empty() || v.size() > m_size)
+    if (v.size() > m_size)
       return npos;
 
     const size_type max_index = m_size - v.size();
 
-    for (size_type i = pos; i < max_index; ++i) {
-      size_type j = v.size() - 1;
+    for (size_type i = pos; i <= max_index; ++i) {
+      size_type j = 0;
 
-      if (!j) {
-        j = m_str[i] == v[j] ? 0 : 1;
-      } else {
-        for (;j && v[j] == m_str[i + j]; j--);
-      }
+      for (; j < v.size() && v[j] == m_str[i + j]; ++j);
 
-      if (!j)
+      if (j == v.size())
         return i;
     }
 
@@ -350,12 +346,14 @@ namespace es {
                                             size_type pos )
     const
   {
+    if( v.size() > m_size ) return npos;
+
     const size_type max_index = m_size - v.size();
 
-    for( size_type i = std::min(max_index-1,pos); i != npos; --i ) {
+    for( size_type i = std::min(max_index,pos); i != npos; --i ) {
       size_type j = 0;
       for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i-j] ) {
+        if( v[j] != m_str[i+j] ) {
           break;
         }
       }
-- 
2.43.0


From 5082e88127d2967e141e5f3b608ae60fbb7984a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 08/92] fix: string view searches by character set

---
 datas/internal/string_view.inl | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 2cafaa5..8d84b33 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -442,7 +442,9 @@ namespace es {
                                                    size_type pos )
     const
   {
-    for( size_type i = std::min(m_size-1,pos); i >= 0 && i != npos; --i ) {
+    if( empty() ) return npos;
+
+    for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           return i;
@@ -489,12 +491,13 @@ namespace es {
     const
   {
     for( size_type i = pos; i < m_size; ++i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
@@ -534,13 +537,16 @@ namespace es {
                                                        size_type pos )
     const
   {
+    if( empty() ) return npos;
+
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
-- 
2.43.0


From b581592ba0bc419450c1369c8993cd536f1bf0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 09/92] fix: string view copy count and substring at the end of
 a view

---
 datas/internal/string_view.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 8d84b33..1bf58df 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -212,9 +212,9 @@ namespace es {
                                            size_type pos )
     const
   {
-    if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
+    if(pos > m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
-    const size_type rcount = std::min(m_size - pos,count+1);
+    const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
     return rcount;
   }
@@ -227,7 +227,7 @@ namespace es {
   {
     const size_type max_length = pos > m_size ? 0 : m_size - pos;
 
-    return pos < m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
+    return pos <= m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
   }
 
   //--------------------------------------------------------------------------
-- 
2.43.0


From 6df3183684fd4c7325497e93644ec83791cd9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 10/92] fix: file info offsets of empty paths are uninitialized

---
 datas/fileinfo.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9525952..5731473 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -30,8 +30,8 @@ public:
 
 private:
   string_type fullPath;
-  size_t endFolder;
-  size_t lastDot;
+  size_t endFolder = 0;
+  size_t lastDot = 0;
 
 public:
   FileInfo(stringref_type input) { Load(input); }
@@ -39,6 +39,8 @@ public:
 
   void Load(stringref_type input) {
     fullPath = input;
+    endFolder = 0;
+    lastDot = 0;
 
     if (!fullPath.size())
       return;
@@ -72,9 +74,9 @@ public:
 
   explode_type Explode() const {
     explode_type resVal;
-    const char *lastOffset = fullPath.data();
+    const T *lastOffset = fullPath.data();
     const size_t fullSize = fullPath.size();
-    const char *pathEnd = std::prev(fullPath.end()).operator->() + 1;
+    const T *pathEnd = lastOffset + fullSize;
 
     if (*lastOffset == '/')
       lastOffset++;
-- 
2.43.0


From fbc1278032bba0d3a874c59f03368d309c95f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 11/92] fix: dot in a folder name taken as a file extension

---
 datas/fileinfo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 5731473..132120b 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -57,7 +57,7 @@ public:
     else
       endFolder = 0;
 
-    if (!lastDot || lastDot == fullPath.npos)
+    if (!lastDot || lastDot == fullPath.npos || lastDot < endFolder)
       lastDot = fullPath.size();
   }
 
-- 
2.43.0


From d952bc06de89a845376a927119e70727c28f84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 12/92] fix: branching of relative paths and at the start of a
 folder

---
 datas/fileinfo.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 132120b..23fb525 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -95,12 +95,14 @@ public:
 
   string_type CatchBranch(const stringref_type &path) const {
     explode_type exVec = Explode();
-    const size_t found = path.find(exVec[0]);
+    const size_t found = exVec.empty() ? path.npos : path.find(exVec[0]);
 
     if (found == path.npos)
       return string_type(path).append(GetFilenameExt());
     else
-      return string_type(path.begin(), found - 1).append(GetFullPath());
+      return string_type(path.begin(), found && fullPath[0] == '/' ? found - 1
+                                                                   : found)
+          .append(GetFullPath());
   }
 };
 
-- 
2.43.0


From fc8b48868bc94f6799fe3de77476336ff278a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 13/92] fix: lookup3 hash ignores the last 12 bytes of keys
 divisible by 12

---
 datas/jenkinshash3.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/jenkinshash3.hpp b/datas/jenkinshash3.hpp
index 9cfd7c0..fccf963 100644
--- a/datas/jenkinshash3.hpp
+++ b/datas/jenkinshash3.hpp
@@ -110,7 +110,12 @@ constexpr uint32 JenkinsHash3_(es::string_view input, uint32 seed = 0) {
     cTrip.Mix();
   }
 
-  size_t lastKeys = input.size() == 12 ? 12 : input.size() % 12;
+  size_t lastKeys = input.size() % 12;
+
+  if (!lastKeys && !input.empty()) {
+    lastKeys = 12;
+  }
+
   JenTriplet_ lastTrip;
 
   if (lastKeys > 8) {
-- 
2.43.0


From a9148bdb6bc10751a260b89d64d695010be93fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 14/92] fix: wide strings made from characters above U+FFFF
 hold UTF-16 surrogates in 32-bit units

---
 datas/unicode.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/unicode.hpp b/datas/unicode.hpp
index c7d6fac..daacbfc 100644
--- a/datas/unicode.hpp
+++ b/datas/unicode.hpp
@@ -68,6 +68,11 @@ template <typename _Ty> struct _utf8cvt<_Ty, 4> {
 
 template <typename _Ty> using utf8cvt = _utf8cvt<_Ty, sizeof(_Ty)>;
 
+// wide strings are UTF-16 or UTF-32, depending on the platform
+using widecvt = std::conditional_t<sizeof(wchar_t) == 2,
+                                   std::codecvt_utf8_utf16<wchar_t>,
+                                   std::codecvt_utf8<wchar_t>>;
+
 } // namespace _es
 
 namespace es {
@@ -80,12 +85,12 @@ template <class C> std::string ToUTF8(const std::basic_string<C> &input) {
 }
 
 inline std::wstring ToUTF1632(const char *input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 
 inline std::wstring ToUTF1632(const std::string &input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 }; // namespace es
-- 
2.43.0


From d37378049c37bf40691479eddb27e1e01c7dfe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 15/92] fix: four character codes from short or non ASCII tags

---
 datas/supercore.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index 326b52a..ecf1f79 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -37,8 +37,8 @@ ES_STATIC_ASSERT(atohLUT[uint8('F')] == 15);
 
 template <size_t n> constexpr uint32 CompileFourCC(const char (&input)[n]) {
   uint32 retVal = 0;
-  for (size_t i = 0; i < sizeof(retVal); i++) {
-    const uint32 tmp = input[i];
+  for (size_t i = 0; i < sizeof(retVal) && i < n; i++) {
+    const uint32 tmp = static_cast<uint8>(input[i]);
     retVal |= tmp << (8 * i);
   }
 
-- 
2.43.0


From aed2329190c0f3c46bbea0b78b6c2951ba94aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 16/92] fix: invalid header message reads behind 8 byte tags

---
 datas/except.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/except.hpp b/datas/except.hpp
index f2d5ce6..dc11ee1 100644
--- a/datas/except.hpp
+++ b/datas/except.hpp
@@ -18,6 +18,7 @@
 
 #pragma once
 #include "string_view.hpp"
+#include <algorithm>
 #include <cinttypes>
 #include <cstring>
 #include <stdexcept>
@@ -46,8 +47,8 @@ class InvalidHeaderError : public std::runtime_error {
 public:
   static std::string DecompileFourCC(size_t magic, size_t size) {
     const char *rMagic = reinterpret_cast<const char *>(&magic);
-    const size_t capSize =
-        std::min(size, es::string_view::traits_type::length(rMagic));
+    const size_t maxSize = std::min(size, sizeof(magic));
+    const size_t capSize = std::find(rMagic, rMagic + maxSize, 0) - rMagic;
     bool isAlNum = true;
 
     for (size_t c = 0; c < capSize; c++) {
-- 
2.43.0


From 8fa3e14c9224fe416d63b14a46f70792afe63174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 17/92] fix: argument count of 87 and 88 macro arguments

---
 datas/macroLoop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/macroLoop.hpp b/datas/macroLoop.hpp
index 22e6b1f..23a5b99 100644
--- a/datas/macroLoop.hpp
+++ b/datas/macroLoop.hpp
@@ -20,7 +20,7 @@
 #pragma once
 #define VA_NARGS_IMPL(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,_32,_33,_34,_35,_36,_37,_38,_39,_40,_41,_42,_43,_44,_45,_46,_47,_48,_49,_50,_51,_52,_53,_54,_55,_56,_57,_58,_59,_60,_61,_62,_63,_64,_65,_66,_67,_68,_69,_70,_71,_72,_73,_74,_75,_76,_77,_78,_79,_80,_81,_82,_83,_84,_85,_86,_87,_88,_89, N, ...) N
 #define VA_NARGS_EVAL(x) x
-#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,87,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
+#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,88,87,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
 
 #define _LOOPER_CAT1(c1,c2) c1##c2
 #define _LOOPER_CAT2(c1,c2) _LOOPER_CAT1(c1, c2)
-- 
2.43.0


From ad022d003903147c3c4cea46f9ec147fc4ecb038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 18/92] fix: unit test checks of compound expressions

---
 datas/unit_testing.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 708f678..3f4975f 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -86,40 +86,40 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_CHECK(val)                                                        \
-  if (!val) {                                                                  \
+  if (!(val)) {                                                                \
     _CHECK_FAILED_TMP(#val);                                                   \
     return 1;                                                                  \
   }
 
 #define TEST_EQUAL(val1, val2)                                                 \
-  if (val1 != val2) {                                                          \
+  if ((val1) != (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " != ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT(val1, val2)                                                    \
-  if (val1 <= val2) {                                                          \
+  if ((val1) <= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " <= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_LT(val1, val2)                                                    \
-  if (val1 >= val2) {                                                          \
+  if ((val1) >= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " >= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT_EQ(val1, val2)                                                 \
-  if (val1 < val2) {                                                           \
+  if ((val1) < (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " < ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
 
 #define TEST_LE_EQ(val1, val2)                                                 \
-  if (val1 > val2) {                                                           \
+  if ((val1) > (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " > ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
@@ -131,7 +131,7 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_NOT_EQUAL(val1, val2)                                             \
-  if (val1 == val2) {                                                          \
+  if ((val1) == (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " == ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
-- 
2.43.0


From c10539a53b0adf08914f1e0246018c76434cecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 19/92] fix: small floats with signed zeros, subnormals or NaN
 decode to wrong values

---
 datas/float.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f617ee5..a52fcd9 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -27,6 +27,10 @@ public:
   static constexpr size_t SIGN_MASK = _sign ? 1 << (TOTAL_SIZE - 1) : 0;
   static constexpr size_t EXP_REF =
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
+  // Single precision bits of the smallest normal value
+  static constexpr size_t MIN_NORMAL = EXP_REF + (1 << 23);
+  // Single precision bits of value, that have same precision as subnormals
+  static constexpr size_t DENORM_REF = MIN_NORMAL + ((23 - _mantissa) << 23);
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -47,8 +51,8 @@ public:
         finResult += IVector4A16(EXP_REF, 0, 0, 0);
       }
     } else {
-      finResult *= IVector4A16(0, 0, 1, 1);
-      finResult += IVector4A16(0x3f000000, 0, 0, 0);
+      finResult *= IVector4A16(0, 0, 0, 1);
+      finResult += IVector4A16(DENORM_REF, 0, 0, 0);
     }
 
     const size_t result = _mm_extract_epi32(
@@ -57,7 +61,13 @@ public:
         0);
     const float resultFl = reinterpret_cast<const float &>(result);
 
-    return exponentI ? resultFl : resultFl - 0.5f;
+    if (exponentI) {
+      return resultFl;
+    }
+
+    const float denormal = resultFl - _to_ps(DENORM_REF).X;
+
+    return (value & SIGN_MASK) ? -denormal : denormal;
   }
 
   static size_t FromFloat(float input) {
@@ -142,14 +152,15 @@ public:
                                mantissa);
 
     const auto imNANNZ = _mm_blendv_ps(_to_ps(nzResult)._data,
-                                       _to_ps(IVector4A16(0x7f800000))._data,
+                                       _to_ps(mantissa | 0x7f800000)._data,
                                        _to_ps(exponentMask)._data);
 
     const IVector4A16 denormMask(
         _mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));
 
-    const IVector4A16 denormResult0((value & MANTISSA_MASK) | 0x3f000000);
-    const Vector4A16 denormResult1(_to_ps(denormResult0) - 0.5f);
+    const IVector4A16 denormResult0((value & MANTISSA_MASK) | DENORM_REF);
+    const Vector4A16 denormResult1(_to_ps(denormResult0) -
+                                   _to_ps(DENORM_REF));
 
     const IVector4A16 finalResult(_to_se(
         _mm_blendv_ps(imNANNZ, denormResult1._data, _to_ps(denormMask)._data)));
-- 
2.43.0


From a76bd9eaaa8d3c65ea54c22a6a20417af594fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 20/92] fix: normal small floats encoded as subnormals

---
 datas/float.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index a52fcd9..8235fcc 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -72,13 +72,13 @@ public:
 
   static size_t FromFloat(float input) {
     const size_t cvted = reinterpret_cast<uint32 &>(input);
-    const float catchDenormal = input + 0.5f;
+    const float catchDenormal = std::abs(input) + _to_ps(DENORM_REF).X;
     const size_t cvtedDenorm = reinterpret_cast<const uint32 &>(catchDenormal);
     const size_t mskExp = cvted & 0x7f800000;
-    const bool isSubNorm = (cvtedDenorm & 0x3f000000) == 0x3f000000;
+    const bool isSubNorm = (cvted & 0x7fffffff) < MIN_NORMAL;
 
-    size_t result =
-        (isSubNorm ? cvtedDenorm : (cvted >> (23 - _mantissa))) & MANTISSA_MASK;
+    size_t result = isSubNorm ? cvtedDenorm - DENORM_REF
+                              : (cvted >> (23 - _mantissa)) & MANTISSA_MASK;
 
     if (_sign && cvted & 0x80000000) {
       result |= SIGN_MASK;
@@ -108,19 +108,18 @@ public:
                               SIGN_MASK);
 
     const IVector4A16 mskExp(cvted & 0x7f800000);
-    const IVector4A16 shtMant(cvted >> (23 - _mantissa));
+    const IVector4A16 shtMant((cvted >> (23 - _mantissa)) & MANTISSA_MASK);
 
-    value += 0.5f;
-    const IVector4A16 cvtedDenorm = _to_se(value);
-    const IVector4A16 mskExpDenorm(cvtedDenorm & 0x7f800000);
+    const IVector4A16 absValue(cvted & 0x7fffffff);
+    const IVector4A16 cvtedDenorm(
+        _to_se(_to_ps(absValue) + _to_ps(DENORM_REF)) - DENORM_REF);
 
     const IVector4A16 denormMask(
-        _mm_cmpeq_epi32(mskExpDenorm._data, IVector4A16(0x3f000000)._data));
+        _mm_cmplt_epi32(absValue._data, IVector4A16(MIN_NORMAL)._data));
 
-    const Vector4A16 blendMant(_mm_blendv_ps(_to_ps(shtMant)._data,
-                                             _to_ps(cvtedDenorm)._data,
-                                             _to_ps(denormMask)._data));
-    const IVector4A16 maskedMant(_to_se(blendMant) & MANTISSA_MASK);
+    const IVector4A16 maskedMant(
+        _to_se(_mm_blendv_ps(_to_ps(shtMant)._data, _to_ps(cvtedDenorm)._data,
+                             _to_ps(denormMask)._data)));
 
     const IVector4A16 nanMask(
         _mm_cmpeq_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
-- 
2.43.0


From 82b0a712811aa4962c1eddb5854783eddb8abed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 21/92] fix: R11G11B10 packed floats use wrong format and blue
 mixes with green

---
 datas/float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index 8235fcc..f8e5592 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -172,12 +172,13 @@ typedef esFloat<10, 5, true> float16;
 
 struct VectorR11G11B10_UFLOAT {
   uint32 data;
-  typedef esFloat<11, 5, false> codec_type;
+  typedef esFloat<6, 5, false> codec_type;
 
   operator Vector4A16() const {
     const IVector4A16 input0(IVector4A16(data) *
                              IVector4A16(1 << 21, 1 << 10, 1, 0));
-    const IVector4A16 input1(input0 >> 21);
+    // Blue misses the last bit of mantissa
+    const IVector4A16 input1((input0 >> 21) & IVector4A16(-1, -1, -2, 0));
 
     return codec_type::ToVector4(input1);
   }
-- 
2.43.0


From 0744bfb92498bce16877eb436a534cefb5681768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 22/92] fix: unpacking 6 byte, 3 byte and short elements reads
 behind them

---
 uni/internal/format_full.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5f3659d..9124119 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -18,6 +18,7 @@
 #include "datas/float.hpp"
 #include "datas/supercore.hpp"
 #include "uni/format.hpp"
+#include <cstring>
 
 namespace _uni_ {
 static constexpr size_t fmtStrides[]{0,  128, 96, 64, 64, 48, 32, 32, 32,
@@ -99,15 +100,15 @@ public:
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32G32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
+    const auto inputRC = *reinterpret_cast<const IVector2 *>(input);
     return IVector4A16(inputRC.X, inputRC.Y, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
-    return IVector4A16(inputRC.X, 0, 0, 0);
+    const auto inputRC = *reinterpret_cast<const int32 *>(input);
+    return IVector4A16(inputRC, 0, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R16G16B16A16> {
@@ -354,8 +355,9 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R16G16B16> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint64 rtVal = reinterpret_cast<const uint64 &>(*input);
-    UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, ZW, XY, ZW
+    uint64 rtVal = 0;
+    memcpy(&rtVal, input, 6);
+    UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, Z0, XY, Z0
     const UIVector4A16 result((vctr * UIVector4A16(1 << 16, 1 << 16, 1, 0)) >>
                               16); // X, Z, Y, W
     return _mm_shuffle_epi32(result._data, _MM_SHUFFLE(3, 1, 2, 0));
@@ -404,7 +406,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R8G8B8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint32 rtVal = reinterpret_cast<const uint32 &>(*input);
+    uint32 rtVal = 0;
+    memcpy(&rtVal, input, 3);
     UIVector4A16 vctr(rtVal);
     return (vctr * UIVector4A16(1 << 24, 1 << 16, 1 << 8, 0)) >> 24;
   }
-- 
2.43.0


From 61958fbdd38c806bab1d812e7e797c470f229deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 23/92] fix: green bit leaks into blue of unpacked R11G11B10
 floats

---
 uni/internal/format_full.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 9124119..08621bd 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -763,7 +763,8 @@ template <> class FormatCodec_t<FormatType::FLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
@@ -775,7 +776,8 @@ template <> class FormatCodec_t<FormatType::UFLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
-- 
2.43.0


From 8b08e4fc6e929ce3139d347fe1180ae4aadd6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 24/92] fix: growing, swapping or copying containers linked to
 a borrowed buffer

---
 datas/allocator_hybrid.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 4ada4c8..2d58fd7 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -34,12 +34,14 @@ struct allocator_hybrid_base {
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start,
                           typename C::pointer end) {
-    input = C(start, end, typename C::allocator_type(start));
+    LinkStorage(input, start, static_cast<size_t>(end - start));
   }
 
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start, size_t count) {
-    input = C(start, start + count, typename C::allocator_type(start));
+    // There is nothing to borrow from an empty range
+    input = C(start, start + count,
+              typename C::allocator_type(count ? start : nullptr));
   }
 };
 
@@ -51,30 +53,37 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef const value_type &const_reference;
   typedef std::true_type propagate_on_container_copy_assignment;
   typedef std::true_type propagate_on_container_move_assignment;
+  typedef std::true_type propagate_on_container_swap;
 
   pointer buffer;
+  bool linked; // buffer has been handed out, any other storage is owned
 
-  allocator_hybrid() noexcept : buffer(nullptr) {}
+  allocator_hybrid() noexcept : buffer(nullptr), linked(false) {}
 
-  allocator_hybrid(pointer iBuff) noexcept : buffer(iBuff){};
+  allocator_hybrid(pointer iBuff) noexcept : buffer(iBuff), linked(false){};
 
   template <class U>
   allocator_hybrid(const allocator_hybrid<U> &) noexcept : allocator_hybrid() {}
 
   allocator_hybrid(const allocator_hybrid<value_type> &input) noexcept {
     buffer = input.buffer;
+    linked = input.linked;
   }
 
+  allocator_hybrid &operator=(const allocator_hybrid &) noexcept = default;
+
   _DECLSPEC_ALLOCATOR pointer allocate(size_t count) {
-    if (!buffer)
+    if (!buffer || linked)
       return static_cast<pointer>(operator new(count * sizeof(value_type)));
-    else
-      return buffer;
+
+    linked = true;
+    return buffer;
   }
 
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
+      linked = false;
       return;
     }
 
-- 
2.43.0


From 8c403d964f99357dd1a9b9e9cc732302d28307a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 25/92] fix: null assignment and const dereference of 32-bit
 pointers

---
 datas/pointer.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index d7e7cff..f7765a7 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -86,7 +86,7 @@ public:
                         reinterpret_cast<const char *>(&varPtr) + varPtr)
                   : nullptr;
   }
-  const C &operator*() const { return *static_cast<C *>(*this); }
+  const C &operator*() const { return *static_cast<const C *>(*this); }
   const C *operator->() const { return *this; }
 
   bool Fixed() const {
@@ -113,8 +113,9 @@ public:
 
   PointerX86 &operator=(C *newDest) {
     uintptr_t _rawDest = reinterpret_cast<uintptr_t>(newDest);
-    varPtr =
-        static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(&varPtr));
+    varPtr = newDest ? static_cast<uint32>(_rawDest -
+                                           reinterpret_cast<uintptr_t>(&varPtr))
+                     : 0;
 
     return *this;
   }
-- 
2.43.0


From 814fed8953eea21eb3abe12be5de37332ced75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 26/92] fix: refused scene interface calls lose their error
 type

---
 uni/internal/exception.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 914921d..96b505f 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -22,9 +22,9 @@ namespace _uni_ {
 
 inline std::exception ThrowVoidCall(bool logical) {
   if (logical) {
-    return std::logic_error("Unhandled call!");
+    throw std::logic_error("Unhandled call!");
   } else {
-    return std::runtime_error("Unsupported call!");
+    throw std::runtime_error("Unsupported call!");
   }
 }
 template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
@@ -33,7 +33,7 @@ template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
 } // namespace _uni_
 
 namespace uni {
-class ModifyError : std::runtime_error {
+class ModifyError : public std::runtime_error {
   using parent = std::runtime_error;
 
 public:
-- 
2.43.0


From b2027fe6cd1af0267c354fe60fdda4d3a198665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 27/92] fix: SIMD BC1 decoding mixes up signs of bright
 channels

---
 formats/BlockDecoderSimd.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index adf52c8..dedaf01 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -22,12 +22,13 @@
 static inline void DecodeRGB565Blocks(const char *data, IVector4A16 &color0,
                                       IVector4A16 &color1) {
   const uint32 rawdata = reinterpret_cast<const uint32 &>(*data);
-  const auto cl00 = IVector4A16(rawdata);
-  const auto cl0 = cl00 * IVector4A16(0x8000000, 0x200000, 0x10000, 0);
-  const auto cl1 = cl00 * IVector4A16(0x800, 0x20, 0x1, 0);
+  const auto cl00 = UIVector4A16(rawdata);
+  const auto cl0 = cl00 * UIVector4A16(0x8000000, 0x200000, 0x10000, 0);
+  const auto cl1 = cl00 * UIVector4A16(0x800, 0x20, 0x1, 0);
 
-  color0 = cl0 >> 24;
-  color1 = cl1 >> 24;
+  // Unsigned shift, upper half of channel range must not turn negative
+  color0 = IVector4A16((cl0 >> 24)._data);
+  color1 = IVector4A16((cl1 >> 24)._data);
 }
 
 inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
-- 
2.43.0


From 138ab33d0ce760ac65aaa6a34379fc6ece11fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 28/92] fix: BC1 three color blocks and alpha of opaque BC1
 blocks

---
 formats/BlockDecoder.inl | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 147246a..3aa504b 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -19,11 +19,14 @@
 #include "BlockDecoder.h"
 
 inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
-                            uint32 width, const uint32 pixeloffset = 3) {
+                            uint32 width, const uint32 pixeloffset = 3,
+                            bool threeColorMode = false) {
   Vector color1, color2;
   DecodeRGB565Block(data, color1);
+  const uint16 &cl1 = reinterpret_cast<const uint16 &>(*data);
   data += 2;
   DecodeRGB565Block(data, color2);
+  const uint16 &cl2 = reinterpret_cast<const uint16 &>(*data);
   data += 2;
   h *= 4;
   w *= 4;
@@ -38,6 +41,11 @@ inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
           .Convert<uint8>(),
   };
 
+  if (threeColorMode && cl1 <= cl2) {
+    colors[2] = ((color1 + color2) * 127.5f).Convert<uint8>();
+    colors[3] = UCVector(0, 0, 0);
+  }
+
   for (int row = 0; row < 4; row++) {
     reinterpret_cast<UCVector &>(
         *(obuffer + ((h + row) * width + w) * pixeloffset)) = colors[*data & 3];
@@ -81,7 +89,7 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         ((((color1 * (1.0f / 3.0f)) + (color2 * (2.0f / 3.0f)))) * 255.f)
             .Convert<uint8>();
   } else {
-    *(colors + 2) = ((color1 + color2) * 127.f).Convert<uint8>();
+    *(colors + 2) = ((color1 + color2) * 127.5f).Convert<uint8>();
     *(colors + 3) = *(colors + 2);
     usealpha = true;
   }
@@ -102,20 +110,18 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) = colors[d4];
     data++;
 
-    if (usealpha) {
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
-          d1 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
-          d2 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
-          d3 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
-          d4 == 3 ? 0 : 0xff;
-    }
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
+        usealpha && d1 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
+        usealpha && d2 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
+        usealpha && d3 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
+        usealpha && d4 == 3 ? 0 : 0xff;
   }
 }
 
@@ -154,7 +160,7 @@ inline void DecodeBC2Block(const char *data, char *obuffer, uint32 w, uint32 h,
 
 inline void DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
                            uint32 width) {
-  _DecodeBC1Block(data, obuffer, w, h, width);
+  _DecodeBC1Block(data, obuffer, w, h, width, 3, true);
 }
 
 inline void _DecodeBC4Block(const char *data, char *obuffer, uint32 w, uint32 h,
-- 
2.43.0


From 5abad9a614631af5c1eef9e723fdafb998679819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 29/92] fix: swizzled addresses of tall textures and of sides
 shorter than 16

---
 formats/addr_ps3.hpp | 52 ++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index a997629..e85d5df 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -22,8 +22,13 @@
 struct MortonSettings {
   size_t width;
   size_t height;
-  size_t xmask[10]{};
-  size_t ymask[10]{};
+  // Coordinate bits below 4 reside at [10] and onwards
+  size_t xmask[14]{};
+  size_t ymask[14]{};
+  // Remaining bits of longer side, they are not interleaved
+  size_t xtail{};
+  size_t ytail{};
+  size_t tailShift;
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
@@ -31,39 +36,38 @@ struct MortonSettings {
     const size_t bitOffsetH = log2(height);
     const size_t minBits = bitOffsetW > bitOffsetH ? bitOffsetH : bitOffsetW;
 
-    for (size_t b = 4; b < minBits; b++) {
-      xmask[b - 4] = size_t(1) << b;
-      ymask[b - 4] = size_t(1) << b;
+    for (size_t b = 0; b < minBits; b++) {
+      const size_t slot = b < 4 ? b + 10 : b - 4;
+      xmask[slot] = size_t(1) << b;
+      ymask[slot] = size_t(1) << b;
     }
 
-    if (bitOffsetW != bitOffsetH) {
-      const size_t maskW = width - 1;
-      const size_t maskH = height - 1;
-      const size_t mask = maskH ^ maskW;
+    tailShift = minBits;
+    const size_t maskW = width - 1;
+    const size_t maskH = height - 1;
 
-      if (bitOffsetW > bitOffsetH) {
-        xmask[bitOffsetH - 4] = mask;
-      } else {
-        ymask[bitOffsetW - 4] = mask;
-      }
+    if (bitOffsetW > bitOffsetH) {
+      xtail = maskH ^ maskW;
+    } else {
+      ytail = maskH ^ maskW;
     }
   }
 };
 
-size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
-  const size_t x0 = x & 1;
-  const size_t x1 = (x & 2) << 1;
-  const size_t x2 = (x & 4) << 2;
-  const size_t x3 = (x & 8) << 3;
+inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
+  const size_t x0 = x & settings.xmask[10];
+  const size_t x1 = (x & settings.xmask[11]) << 1;
+  const size_t x2 = (x & settings.xmask[12]) << 2;
+  const size_t x3 = (x & settings.xmask[13]) << 3;
   const size_t x4 = (x & settings.xmask[0]) << 4;
   const size_t x5 = (x & settings.xmask[1]) << 5;
   const size_t x6 = (x & settings.xmask[2]) << 6;
   const size_t x7 = (x & settings.xmask[3]) << 7;
 
-  const size_t y0 = (y & 1) << 1;
-  const size_t y1 = (y & 2) << 2;
-  const size_t y2 = (y & 4) << 3;
-  const size_t y3 = (y & 8) << 4;
+  const size_t y0 = (y & settings.ymask[10]) << 1;
+  const size_t y1 = (y & settings.ymask[11]) << 2;
+  const size_t y2 = (y & settings.ymask[12]) << 3;
+  const size_t y3 = (y & settings.ymask[13]) << 4;
   const size_t y4 = (y & settings.ymask[0]) << 5;
   const size_t y5 = (y & settings.ymask[1]) << 6;
   const size_t y6 = (y & settings.ymask[2]) << 7;
@@ -72,6 +76,8 @@ size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
   size_t retval = x0 | x1 | x2 | x3 | x4 | x5 | x6 | x7 | y0 | y1 | y2 | y3 |
                   y4 | y5 | y6 | y7;
 
+  retval |= ((x & settings.xtail) | (y & settings.ytail)) << settings.tailShift;
+
   if (settings.xmask[4] || settings.ymask[4]) {
     const size_t x8 = (x & settings.xmask[4]) << 8;
     const size_t x9 = (x & settings.xmask[5]) << 9;
-- 
2.43.0


From dfcb697c9f66dfb0c3e0d76d9169060c16a22eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 30/92] fix: Blowfish keys with bytes above 127 and keys of the
 second variant

---
 datas/encrypt/blowfish.cpp | 6 ++++--
 datas/encrypt/blowfish2.h  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 63fbbf9..247bffa 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -462,7 +462,7 @@ void BlowfishEncoder::SetKey(es::string_view key) {
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
-  auto inKey = key.data();
+  auto inKey = reinterpret_cast<const uint8 *>(key.data());
   auto inSize = key.size();
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
@@ -550,13 +550,15 @@ void BlowfishEncoder2::DecodeBlock(uint64 &block) const {
   val1 = _val0.d;
 }
 
-void BlowfishEncoder2::SetKey(const char *inKey, int inSize) {
+void BlowfishEncoder2::SetKey(es::string_view key) {
   if (mode)
     CreateVector();
 
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
+  auto inKey = reinterpret_cast<const uint8 *>(key.data());
+  auto inSize = key.size();
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
     const uint32 curKey = i * 4;
diff --git a/datas/encrypt/blowfish2.h b/datas/encrypt/blowfish2.h
index 7f2127f..c1f9ce5 100644
--- a/datas/encrypt/blowfish2.h
+++ b/datas/encrypt/blowfish2.h
@@ -22,7 +22,8 @@
 class BlowfishEncoder2 : public BlowfishEncoder
 {
 public:
-	void SetKey(const char *inKey, int inSize);
+	void SetKey(es::string_view key) override;
+	void SetKey(const char *inKey, int inSize) { SetKey(es::string_view(inKey, inSize)); }
 private:
 	void EncodeBlock(uint64 &block) const;
 	void DecodeBlock(uint64 &block) const;
-- 
2.43.0


From 14f546d073ac4a326674210867f9f5f97bb38452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 31/92] fix: XOR encoder without a key divides by zero

---
 datas/encrypt/xorenc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/encrypt/xorenc.hpp b/datas/encrypt/xorenc.hpp
index d778b32..23c103e 100644
--- a/datas/encrypt/xorenc.hpp
+++ b/datas/encrypt/xorenc.hpp
@@ -25,6 +25,9 @@ class XOREncoder : public IEncryptor {
 
 public:
   void Encode(char *buffer, size_t size) const {
+    if (!key.size())
+      return;
+
     for (size_t ii = 0; ii < size; ii++)
       buffer[ii] ^= key[ii % key.size()];
   }
-- 
2.43.0


From 2ae561a418488ce92d6fc459a5743af897ccd8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 32/92] fix: DDS bits per pixel of unknown formats and UYVY

---
 formats/DDS.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 13ef396..2cdf2c1 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -413,7 +413,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     DDS_PixelFormat &tformat = static_cast<DDS_PixelFormat &>(*this);
 
     if (tformat == DDSFormat_DX10) {
-      bpp = _bpps[dxgiFormat];
+      constexpr uint32 numFormats = sizeof(_bpps) / sizeof(_bpps[0]);
+      bpp = dxgiFormat < numFormats ? _bpps[dxgiFormat] : 0;
     } else {
       switch (fourCC) {
       case 36:
@@ -429,6 +430,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       case 114:
       case CompileFourCC("RBGB"):
       case CompileFourCC("GRGB"):
+      case CompileFourCC("UYVY"):
       case CompileFourCC("YUY2"):
         bpp = 32;
         break;
-- 
2.43.0


From a50cb27a05a06d13d8330a68f88118b511e73b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 33/92] fix: DDS level sizes of partial blocks, narrow levels
 and large textures

---
 formats/DDS.hpp | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 2cdf2c1..3636914 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -469,32 +469,17 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       return 0;
 
     uint32 _mipCount = mipMapCount ? mipMapCount : 1;
+
+    if (_mipCount > Mips::maxMips)
+      _mipCount = +Mips::maxMips;
+
     uint32 _width = width;
     uint32 _height = height;
     uint32 fullBuffer = 0;
     bool useBlockCompression = false;
 
     if (dxgiFormat) {
-      switch (dxgiFormat) {
-      case DXGI_FORMAT_BC1_UNORM:
-      case DXGI_FORMAT_BC1_UNORM_SRGB:
-      case DXGI_FORMAT_BC2_UNORM:
-      case DXGI_FORMAT_BC2_UNORM_SRGB:
-      case DXGI_FORMAT_BC3_UNORM:
-      case DXGI_FORMAT_BC3_UNORM_SRGB:
-      case DXGI_FORMAT_BC4_UNORM:
-      case DXGI_FORMAT_BC4_SNORM:
-      case DXGI_FORMAT_BC5_UNORM:
-      case DXGI_FORMAT_BC5_SNORM:
-      case DXGI_FORMAT_BC6H_UF16:
-      case DXGI_FORMAT_BC6H_SF16:
-      case DXGI_FORMAT_BC7_UNORM:
-      case DXGI_FORMAT_BC7_UNORM_SRGB:
-        useBlockCompression = true;
-        break;
-      default:
-        break;
-      }
+      useBlockCompression = IsBC(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
@@ -516,14 +501,16 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     }
 
     for (uint32 m = 0; m < _mipCount; m++) {
-      uint32 __width = _width, __height = _height;
+      uint64 __width = _width ? _width : 1;
+      uint64 __height = _height ? _height : 1;
 
-      if (useBlockCompression && (__width * __height < 16)) {
-        __width = 4;
-        __height = 4;
+      if (useBlockCompression) {
+        __width = (__width + 3) & ~3ull;
+        __height = (__height + 3) & ~3ull;
       }
 
-      dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
+      dOut.sizes[m] =
+          static_cast<uint32>(((__width * __height * bpp) + 7) / 8);
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
       _width /= 2;
-- 
2.43.0


From c42338e68bc19f85fe8c955a887959f00cabfe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 34/92] fix: swapped red and blue channels in legacy DDS pixel
 format conversions

---
 formats/DDS.hpp | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 3636914..ec5f738 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -600,7 +600,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       if (tformat == DDSFormat_A2B10G10R10)
         dxgiFormat = DXGI_FORMAT_R10G10B10A2_UNORM;
       else if (tformat == DDSFormat_A8R8G8B8)
-        dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM;
+        dxgiFormat = DXGI_FORMAT_B8G8R8A8_UNORM;
       else if (tformat == DDSFormat_G16R16)
         dxgiFormat = DXGI_FORMAT_R16G16_UNORM;
       else if (tformat == DDSFormat_A8)
@@ -620,18 +620,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
                                 DDS_PixelFormat::PFFlags_AlphaPixels},
                                32, 0x000000ff, 0x0000ff00, 0x00ff0000,
                                0xff000000))
-        dxgiFormat = DXGI_FORMAT_B8G8R8A8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                               0x00000000))
+        dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM;
+      else if (tformat == DDSFormat_X8R8G8B8)
         dxgiFormat = DXGI_FORMAT_B8G8R8X8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               16, 0x0000000f, 0x000000f0, 0x00000f00,
-                               0x0000f000))
+      else if (tformat == DDSFormat_A4R4G4B4)
         dxgiFormat = DXGI_FORMAT_B4G4R4A4_UNORM;
       else
         result = 1;
@@ -660,7 +652,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       operator=(DDSFormat_A2B10G10R10);
       break;
     case DXGI_FORMAT_R8G8B8A8_UNORM:
-      operator=(DDSFormat_A8R8G8B8);
+      operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
+                                 DDS_PixelFormat::PFFlags_AlphaPixels},
+                                32, 0x000000ff, 0x0000ff00, 0x00ff0000,
+                                0xff000000));
       break;
     case DXGI_FORMAT_R16G16_UNORM:
       operator=(DDSFormat_G16R16);
@@ -737,7 +732,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
 
       switch (dxgiFormat) {
       case DXGI_FORMAT_R8G8B8A8_UNORM_SRGB:
-        operator=(DDSFormat_A8R8G8B8);
+        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
+                                   DDS_PixelFormat::PFFlags_AlphaPixels},
+                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
+                                  0xff000000));
         break;
       case DXGI_FORMAT_R8G8_UNORM:
         operator=(DDSFormat_A8L8);
@@ -760,23 +758,14 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         break;
       case DXGI_FORMAT_B8G8R8A8_UNORM:
       case DXGI_FORMAT_B8G8R8A8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0xff000000));
+        operator=(DDSFormat_A8R8G8B8);
         break;
       case DXGI_FORMAT_B8G8R8X8_UNORM:
       case DXGI_FORMAT_B8G8R8X8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0x00000000));
+        operator=(DDSFormat_X8R8G8B8);
         break;
       case DXGI_FORMAT_B4G4R4A4_UNORM:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  16, 0x0000000f, 0x000000f0, 0x00000f00,
-                                  0x0000f000));
+        operator=(DDSFormat_A4R4G4B4);
         break;
       default:
         result = 1;
-- 
2.43.0


From 23672ca387ef3f81a0711feff40585f11d573fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 35/92] fix: next WAVE chunk is computed without the chunk
 header and padding

---
 formats/WAVE.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 06e1f64..46bc3c7 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -26,7 +26,8 @@ struct WAVEGenericHeader {
 
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
-        reinterpret_cast<char *>(this) + chunkSize);
+        reinterpret_cast<char *>(this) + sizeof(WAVEGenericHeader) + chunkSize +
+        (chunkSize & 1));
   }
 };
 
-- 
2.43.0


From 96eed99908b8286744fc0a68caa5214909831a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 36/92] fix: threaded queue never ends when the core count is
 unknown

---
 datas/multi_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/multi_thread.hpp b/datas/multi_thread.hpp
index b31be1a..17195e1 100644
--- a/datas/multi_thread.hpp
+++ b/datas/multi_thread.hpp
@@ -23,7 +23,8 @@
 #include <thread>
 
 template <class lmBody> void RunThreadedQueue(size_t numTasks, lmBody &&fc) {
-  const size_t numHWThreads = std::thread::hardware_concurrency();
+  const size_t numHWThreads =
+      std::max<size_t>(std::thread::hardware_concurrency(), 1);
   const size_t numThreads = std::min(numHWThreads, numTasks);
   size_t curTask = 0;
   using future_type = std::future<decltype(fc(size_t()))>;
-- 
2.43.0


From 054129c1646e5f79b7a0320f5f03d9b03ab48f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 37/92] fix: registering a printer function while other threads
 print

---
 datas/master_printer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 0a06803..3ae3d93 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -52,6 +52,8 @@ static struct MasterPrinter {
 #endif
 
 void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
+
   for (auto &c : __MasterPrinter.functions)
     if (c.func == func)
       return;
@@ -118,5 +120,6 @@ void MasterPrinterThread::operator>>(int endWay) {
 }
 
 void MasterPrinterThread::PrintThreadID(bool yn) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
   __MasterPrinter.printThreadID = yn;
 }
-- 
2.43.0


From f29af68d52041a19f7c24a3a995b10c518371cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 38/92] fix: moved ZIP file entry reads from its former place

The reader member kept referring to the stream of the moved from object.
---
 datas/zip_vfs.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index f8ebbae..89f598b 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -28,6 +28,16 @@ struct ZIPVFSFile {
   operator BinReaderRef() const { return reader; }
 
   ZIPVFSFile(std::string &&str) : buffer(str), reader(buffer){};
+  ZIPVFSFile(ZIPVFSFile &&other)
+      : buffer(std::move(other.buffer)), reader(buffer) {
+    reader.SwapEndian(other.reader.SwappedEndian());
+  }
+  ZIPVFSFile &operator=(ZIPVFSFile &&other) {
+    buffer = std::move(other.buffer);
+    reader = BinReaderRef(buffer);
+    reader.SwapEndian(other.reader.SwappedEndian());
+    return *this;
+  }
 };
 
 class ZIPVFS : std::map<std::string, std::pair<size_t, size_t>> {
-- 
2.43.0


From f57c42b7e6ca1835dbb4f4de6dc74f489d7314ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 39/92] fix: cut ZIP files are mounted with entries that are
 not there

Blocks and entries reaching past the end of the file were accepted, opening
such entry yields garbage.
---
 datas/zip_vfs.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 89f598b..599fce3 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -72,14 +72,14 @@ private:
   mutable std::mutex rdMutex;
 
   void ReadEntry() {
-    uint32 id;
+    uint32 id = 0;
     rd.Push();
     rd.Read(id);
     rd.Pop();
 
     switch (id) {
     case ZIPLocalFile::ID: {
-      ZIPLocalFile hdr;
+      ZIPLocalFile hdr{};
       rd.Read(hdr);
 
       [&] {
@@ -160,6 +160,11 @@ private:
     const size_t fileSize = rd.GetSize();
     while (rd.Tell() < fileSize) {
       ReadEntry();
+
+      // Also covers failed reads, Tell is then out of any range
+      if (rd.Tell() > fileSize) {
+        throw std::runtime_error("Unexpected end of ZIP file!");
+      }
     }
   }
 };
-- 
2.43.0


From 71bf4bf3a518244563715cdf4297f1f06fd6fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 40/92] fix: data of streamed ZIP entries is taken for further
 entries

Sizes of streamed entries are not in their header, so stored data that
happens to hold an archive was listed instead.
---
 datas/zip_vfs.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 599fce3..1be7c99 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -84,6 +84,10 @@ private:
 
       [&] {
         if (!hdr.compressedSize) {
+          if (hdr.flags[ZIPLocalFlag::DataDescriptor]) {
+            throw std::runtime_error("ZIP cannot have streamed files!");
+          }
+
           rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.uncompressedSize);
           return;
         }
-- 
2.43.0


From d1057b5edd991d159aa1990fa5298c4d7f28546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 41/92] fix: scanned subfolders with names ending by a quote or
 a backslash

The name went through the clean up of user input, so a wrong folder was
scanned, for a folder named by a single quote without an end.
---
 datas/directory_scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 5b41e83..788abdc 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -72,7 +72,7 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile += miniFile;
 
     if (cFile->d_type == DT_DIR) {
-      Scan(subFile);
+      Scan(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
     }
-- 
2.43.0


From 20f38fb29efdd6467f1e4e31c4ab01007546554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 42/92] fix: directory scanner takes folders and devices for
 files

Entries of file systems that do not provide entry types, links to folders,
dangling links, pipes and sockets were all listed as files.
---
 datas/directory_scanner.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 788abdc..b09bd6a 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -20,6 +20,7 @@
 
 #if defined(__GNUC__) || defined(__GNUG__)
 #include <dirent.h>
+#include <sys/stat.h>
 #else
 #include <windows.h>
 #endif
@@ -71,9 +72,22 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile.pop_back();
     subFile += miniFile;
 
-    if (cFile->d_type == DT_DIR) {
+    auto type = cFile->d_type;
+    struct stat info;
+
+    // Not every file system provides entry types
+    if (type == DT_UNKNOWN && !lstat(subFile.data(), &info)) {
+      type = IFTODT(info.st_mode);
+    }
+
+    if (type == DT_LNK && !stat(subFile.data(), &info) &&
+        S_ISREG(info.st_mode)) {
+      type = DT_REG;
+    }
+
+    if (type == DT_DIR) {
       Scan(subFile + '/');
-    } else if (IsFilteredFile(miniFile)) {
+    } else if (type == DT_REG && IsFilteredFile(miniFile)) {
       files.push_back(subFile);
     }
   }
-- 
2.43.0


From 68c12838d570e28b86ecba740c04678d415aaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 43/92] fix: sockets and block devices are reported as
 directories

File type is a value within the mode, not a set of flags.
---
 datas/internal/stat_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/stat_ix.inl b/datas/internal/stat_ix.inl
index d762f3a..870a8be 100644
--- a/datas/internal/stat_ix.inl
+++ b/datas/internal/stat_ix.inl
@@ -20,9 +20,9 @@
 FileType_e FileType(const std::string &path) {
   struct stat s;
   if (!stat(path.data(), &s)) {
-    if (s.st_mode & S_IFDIR) {
+    if (S_ISDIR(s.st_mode)) {
       return FileType_e::Directory;
-    } else if (s.st_mode & S_IFREG) {
+    } else if (S_ISREG(s.st_mode)) {
       return FileType_e::File;
     } else {
       return FileType_e::Invalid;
-- 
2.43.0


From 260f10a330b1d6b886e570c624378513e05f1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 44/92] fix: reflected bit-field members lose sign, clamp
 wrongly and reach past their storage

---
 datas/reflector.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ef44b2..1db7fc7 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -86,6 +86,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 }
 
 template <class T> struct LimitProxy {
+  static const bool isSigned = std::is_signed<T>::value;
   static const size_t numBits = sizeof(T) * 8;
   static const uint64 uMax = std::numeric_limits<T>::max();
   static const int64 iMin = std::numeric_limits<T>::min();
@@ -99,13 +100,14 @@ template <class type> struct BFTag {
 };
 
 template <class type> struct LimitProxy<BFTag<type>> {
+  static const bool isSigned = std::is_signed<type>::value;
   size_t numBits;
   const uint64 uMax;
   const int64 iMax;
   const int64 iMin;
 
   LimitProxy(size_t numBits_)
-      : numBits(numBits_), uMax((1 << numBits) - 1), iMax(uMax >> 1),
+      : numBits(numBits_), uMax(~uint64(0) >> (64 - numBits)), iMax(uMax >> 1),
         iMin(~iMax) {}
 };
 
@@ -117,7 +119,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
   const int base =
       !input.compare(0, 2, "0x") || !input.compare(0, 3, "-0x") ? 16 : 10;
 
-  if (std::is_signed<T>::value) {
+  if (LimitProxy<T>::isSigned) {
     int64 value = 0;
     const int64 iMin = proxy.iMin;
     const int64 iMax = proxy.iMax;
@@ -156,7 +158,8 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
     }
 
     if (input[0] == '-') {
-      value = static_cast<T>(value);
+      if (!OOR)
+        value &= iMax;
       printwarning("[Reflector] Applying "
                    << input
                    << " to an unsigned integer, casting to: " << value);
@@ -454,17 +457,23 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
     }
   }
   case REFType::BitFieldMember: {
-    uint64 &output = *reinterpret_cast<uint64 *>(objAddr);
+    // Access only those bytes, that are occupied by member
+    const size_t numBytes = (reflValue.offset + reflValue.subSize + 7) / 8;
+    uint64 output = 0;
+    memcpy(&output, objAddr, numBytes);
     auto doStuff = [&](auto &&insertVal) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
       auto err = SetNumber(value, insertVal, std::true_type{}, proxy);
+      if (err == Reflector::ErrorType::InvalidFormat)
+        return err;
       BitMember bfMember;
       bfMember.size = reflValue.subSize;
       bfMember.position = reflValue.offset;
       auto mask = bfMember.GetMask<uint64>();
       output &= ~mask;
-      output |= insertVal.value << reflValue.offset;
+      output |= (static_cast<uint64>(insertVal.value) << reflValue.offset) & mask;
+      memcpy(objAddr, &output, numBytes);
       return err;
     };
 
@@ -794,7 +803,8 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     return _tmpBuffer;
   }
   case REFType::BitFieldMember: {
-    uint64 output = *reinterpret_cast<const uint64 *>(objAddr);
+    uint64 output = 0;
+    memcpy(&output, objAddr, (type.offset + type.subSize + 7) / 8);
     BitMember bfMember;
     bfMember.size = type.subSize;
     bfMember.position = type.offset;
-- 
2.43.0


From f3476251b0572dac804428717eabd99a5a719097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 45/92] fix: tiny positive float texts are set as the negative
 minimum

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1db7fc7..b302475 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -74,7 +74,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 
     double fVal = atof(input.c_str());
 
-    if (fVal > 0)
+    if (!std::signbit(fVal))
       output = fVal > 1.0 ? fMax : fMin;
     else
       output = fVal < -1.0 ? -fMax : -fMin;
-- 
2.43.0


From 04547c8b169c2c6d087869f442b8caeaa8c0e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 46/92] fix: sign and base of numbers after a line break are
 not recognised

---
 datas/reflector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index b302475..ed2af2a 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -368,7 +368,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
 
     if (*it == ',' || isEnding) {
       es::string_view cValue(curIter, isEnding ? value.end() : it);
-      cValue = es::SkipStartWhitespace(cValue);
+      cValue = es::SkipStartWhitespace(cValue, true);
 
       if (cValue.empty() && curElement < reflValue.numItems) {
         printerror("[Reflector] Array expected "
@@ -397,7 +397,7 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
   Reflector::ErrorType errType = Reflector::ErrorType::None;
   char startBrace = 0;
   char endBrace = 0;
-  value = es::SkipStartWhitespace(value);
+  value = es::SkipStartWhitespace(value, true);
 
   switch (reflValue.type) {
   case REFType::Array:
-- 
2.43.0


From 4c3f845182e33c02349c1ef3cdbabc75efc4560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 47/92] fix: typed setters cannot set the first element of an
 array

---
 datas/reflector.cpp | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index ed2af2a..e26cff9 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -571,22 +571,22 @@ Reflector::SetReflectedValueInt(reflType reflValue, int64 value, size_t subID) {
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::Integer)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -602,22 +602,22 @@ Reflector::ErrorType Reflector::SetReflectedValueUInt(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::UnsignedInteger)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -633,22 +633,22 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::FloatingPoint)
     return Reflector::ErrorType::InvalidDestination;
 
-- 
2.43.0


From 6532bed094e5711cbf399961c46beee10a26981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 48/92] fix: array elements behind the end of the array can be
 set

---
 datas/reflector.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index e26cff9..a48a42c 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -514,6 +514,12 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
 Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   es::string_view value,
                                                   size_t subID) {
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
@@ -544,6 +550,12 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     return ErrorType::InvalidDestination;
   }
 
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
@@ -552,8 +564,8 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     _DecomposedVectorHash dec = {type.typeHash};
     type.subSize = dec.size;
 
-    if (element >= dec.size) {
-      printerror("[Reflector] Too many vector elements, " << dec.size
+    if (element >= dec.numItems) {
+      printerror("[Reflector] Too many vector elements, " << dec.numItems
                                                           << " expected.");
       return ErrorType::OutOfRange;
     }
-- 
2.43.0


From d12cc33684c9fd789e7f23d98e0b49d14dac3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 49/92] fix: a single flag set by its index is ignored

---
 datas/reflector.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index a48a42c..0bdfd26 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -514,14 +514,37 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
 Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   es::string_view value,
                                                   size_t subID) {
+  auto inst = GetReflectedInstance();
+  char *thisAddr = static_cast<char *>(inst.instance);
+
+  if (type.type == REFType::EnumFlags) {
+    if (subID >= type.subSize * 8U) {
+      printerror("[Reflector] Flag index out of range, got: "
+                 << subID << " for a " << type.subSize * 8 << "bit flags!");
+      return ErrorType::OutOfRange;
+    }
+
+    bool bit = false;
+    const auto errType = SetBoolean(es::SkipStartWhitespace(value, true), bit);
+
+    if (errType != ErrorType::None)
+      return errType;
+
+    uint64 eValue = 0;
+    thisAddr += type.offset;
+    memcpy(&eValue, thisAddr, type.subSize);
+    eValue = bit ? eValue | (1ULL << subID) : eValue & ~(1ULL << subID);
+    memcpy(thisAddr, &eValue, type.subSize);
+
+    return ErrorType::None;
+  }
+
   if (subID >= type.numItems) {
     printerror("[Reflector] Too many array elements, " << type.numItems
                                                        << " expected.");
     return ErrorType::OutOfRange;
   }
 
-  auto inst = GetReflectedInstance();
-  char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
   type.type = type.subType;
 
-- 
2.43.0


From 8d22d21830a9585d337376348f0dfd6513af9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 50/92] fix: flags above 31 read by index repeat the lower ones

---
 datas/reflector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 0bdfd26..97f8be3 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -966,11 +966,11 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID) const {
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue), objAddr, reflValue.subSize);
 
-    return (eValue & (1 << subID)) ? "true" : "false";
+    return (eValue & (1ULL << subID)) ? "true" : "false";
   }
 
   default:
@@ -1014,12 +1014,12 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID,
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue),
            objAddr + reflValue.subSize * subID, reflValue.subSize);
 
-    return (eValue & (1 << element)) ? "true" : "false";
+    return (eValue & (1ULL << element)) ? "true" : "false";
   }
 
   default:
-- 
2.43.0


From ced5190d7ec2020d5427e65a3e0962870d8bbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 51/92] fix: reflected strings lose their leading spaces

---
 datas/reflector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 97f8be3..d46aa65 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -397,7 +397,10 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
   Reflector::ErrorType errType = Reflector::ErrorType::None;
   char startBrace = 0;
   char endBrace = 0;
-  value = es::SkipStartWhitespace(value, true);
+
+  // Text content is kept as is
+  if (reflValue.type != REFType::String)
+    value = es::SkipStartWhitespace(value, true);
 
   switch (reflValue.type) {
   case REFType::Array:
-- 
2.43.0


From b28b0ee73526535fdcad0ae19f9c577e66ad5063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 52/92] fix: setting a member that has no text form reports
 success

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index d46aa65..ed8d150 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -498,7 +498,7 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
   case REFType::ArrayClass:
     return SetReflectedArray(startBrace, endBrace, objAddr, value, reflValue);
   default:
-    break;
+    return Reflector::ErrorType::InvalidDestination;
   }
 
   return errType;
-- 
2.43.0


From 49dd9c23c786a795056070339aafa75897c5401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 53/92] fix: errors of array and vector elements are not
 reported

---
 datas/reflector.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index ed8d150..033935f 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -342,6 +342,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     return Reflector::ErrorType::EmptyInput;
   }
 
+  Reflector::ErrorType errType = Reflector::ErrorType::None;
   size_t curElement = 0;
   auto curIter = value.begin();
   reflType subVal = reflValue;
@@ -382,14 +383,19 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::OutOfRange;
       }
 
-      SetReflectedMember(subVal, cValue,
-                         objAddr + (reflValue.subSize * curElement));
+      auto subErrType = SetReflectedMember(
+          subVal, cValue, objAddr + (reflValue.subSize * curElement));
+      if (subErrType == Reflector::ErrorType::InvalidDestination)
+        return subErrType;
+      else if (subErrType != Reflector::ErrorType::None)
+        errType = subErrType;
+
       curIter = it + 1;
       curElement++;
     }
   }
 
-  return Reflector::ErrorType::None;
+  return errType;
 }
 
 static Reflector::ErrorType
-- 
2.43.0


From b605dd623b453a3815bbdd1ea5650e24234c49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 54/92] fix: short boolean texts are read past their end

---
 datas/reflector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 033935f..abeef16 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -189,9 +189,9 @@ static Reflector::ErrorType SetBoolean(std::string input, bool &output) {
   std::for_each(input.begin(), input.end(),
                 [](char &c) { c = static_cast<char>(std::tolower(c)); });
 
-  output = !memcmp(input.c_str(), "true", 4);
+  output = !input.compare(0, 4, "true");
 
-  if (!output && memcmp(input.c_str(), "false", 5)) {
+  if (!output && input.compare(0, 5, "false")) {
     printwarning("[Reflector] Expected true/false, got: " << input);
     return Reflector::ErrorType::InvalidFormat;
   }
-- 
2.43.0


From 0eab178543d46d7de069c82fc759d3d80d27ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 55/92] fix: empty items behind the last array element are set
 past the array

---
 datas/reflector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index abeef16..0b5dc6e 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -383,6 +383,12 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::OutOfRange;
       }
 
+      // Only surplus separators or blanks are left
+      if (curElement >= reflValue.numItems) {
+        curIter = it + 1;
+        continue;
+      }
+
       auto subErrType = SetReflectedMember(
           subVal, cValue, objAddr + (reflValue.subSize * curElement));
       if (subErrType == Reflector::ErrorType::InvalidDestination)
-- 
2.43.0


From aaeca5341c933566bdc31669dee117e25564bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 56/92] fix: reflected C strings print their pointer

---
 datas/reflector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 0b5dc6e..53dcda3 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -892,8 +892,10 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     break;
   }
 
-  case REFType::CString:
-    return objAddr;
+  case REFType::CString: {
+    const char *cString = *reinterpret_cast<const char *const *>(objAddr);
+    return cString ? cString : "";
+  }
 
   case REFType::String:
     return *reinterpret_cast<const std::string *>(objAddr);
-- 
2.43.0


From 83517a44a5a55bc6f0c38444665eea83d7cd09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 57/92] fix: array text with an unclosed bracket drops items
 without an error

---
 datas/reflector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 53dcda3..9adefab 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -401,6 +401,11 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     }
   }
 
+  if (localScope) {
+    printerror("[Reflector] Unclosed bracket or quote within array.");
+    return Reflector::ErrorType::InvalidFormat;
+  }
+
   return errType;
 }
 
-- 
2.43.0


From 2ec022c2d591a5eb6b2ec26908b73b8a5d82094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 58/92] fix: unnamed flags print as empty items

---
 datas/reflector.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 9adefab..56fbb0b 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -750,7 +750,7 @@ static std::string PrintEnum(const char *objAddr, JenHash hash, uint16 elSize) {
 
 static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
                                   uint16 elSize) {
-  uint64 eValue;
+  uint64 eValue = 0;
   ReflectedEnum *rEnumFallback = nullptr;
   std::string result;
   const size_t numBits = elSize * 8;
@@ -759,11 +759,13 @@ static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
 
   for (size_t t = 0; t < numBits; t++) {
     if (eValue & (1ULL << t)) {
-      if (result.size())
-        result.append(" | ");
-
       try {
-        result.append(PrintEnumValue(hash, t, &rEnumFallback));
+        const std::string flagName = PrintEnumValue(hash, t, &rEnumFallback);
+
+        if (result.size())
+          result.append(" | ");
+
+        result.append(flagName);
       } catch (const std::out_of_range &) {
         printerror("[Reflector] Unregistered enum hash: " << hash.raw());
         break;
-- 
2.43.0


From 018b4da3ec7c0a8238a67d45288f8e40f8822cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 59/92] fix: negative enumerators are not found by their value

---
 datas/internal/reflector_enum_reg.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector_enum_reg.hpp b/datas/internal/reflector_enum_reg.hpp
index eb93e75..1ea10be 100644
--- a/datas/internal/reflector_enum_reg.hpp
+++ b/datas/internal/reflector_enum_reg.hpp
@@ -28,6 +28,8 @@ template <class E> static void _REnumInitializer() {
   const auto rEnumNames = _EnumWrap<E>::GetNames();
   auto rEnumValues = _EnumWrap<E>::GetValues();
 
+  // Values are looked up as they are stored, without sign extension
+  const uint64 valueMask = ~uint64(0) >> (64 - sizeof(E) * 8);
   uint64 lastValue = 0;
 
   for (size_t t = 0; t < rEnumSize; t++) {
@@ -37,7 +39,7 @@ template <class E> static void _REnumInitializer() {
       cName.remove_prefix(1);
 
     if (cName.empty() || (cName[0] == '=' && cName.size() < 2)) {
-      rEnumValues[t] = lastValue++;
+      rEnumValues[t] = lastValue++ & valueMask;
       continue;
     }
 
@@ -48,7 +50,7 @@ template <class E> static void _REnumInitializer() {
 
     uint64 resVal = std::strtoull(cName.data(), nullptr, _base);
     lastValue = resVal + 1;
-    rEnumValues[t] = resVal;
+    rEnumValues[t] = resVal & valueMask;
   }
 }
 
-- 
2.43.0


From febc15e0de6c4b8c42d29581e76e5ed0c34c33d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 60/92] fix: octal and negative hexadecimal enumerator values
 are misread

---
 datas/internal/reflector_enum_reg.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/internal/reflector_enum_reg.hpp b/datas/internal/reflector_enum_reg.hpp
index 1ea10be..b6cbcc5 100644
--- a/datas/internal/reflector_enum_reg.hpp
+++ b/datas/internal/reflector_enum_reg.hpp
@@ -46,9 +46,8 @@ template <class E> static void _REnumInitializer() {
     cName.remove_prefix(1);
     cName = es::SkipStartWhitespace(cName);
 
-    const int _base = !cName.compare(0, 2, "0x") ? 16 : 10;
-
-    uint64 resVal = std::strtoull(cName.data(), nullptr, _base);
+    // Base is deduced from literal's prefix
+    uint64 resVal = std::strtoull(cName.data(), nullptr, 0);
     lastValue = resVal + 1;
     rEnumValues[t] = resVal & valueMask;
   }
-- 
2.43.0


From 6201c7abca13cc12d7919a997e5d2f56a6a073dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 61/92] fix: alias hashes get lost in saved type databases

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d142d75..768a944 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -148,7 +148,7 @@ int ReflectorIO::Load(BinReaderRef rd) {
     }
 
     if (itemIO->aliassesHashesPtr) {
-      itemPtrsBegin[3] = bufferStart + itemIO->aliassesHashesPtr;
+      itemPtrsBegin[4] = bufferStart + itemIO->aliassesHashesPtr;
     } else {
       itemPtrsBegin[4] = 0;
     }
@@ -404,6 +404,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   itemStringsFixups.WriteFixups();
   classnamesFixups.WriteFixups();
   aliasesFixups.WriteFixups();
+  aliasHashesFixups.WriteFixups();
   descsFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
-- 
2.43.0


From 20da7eb6c582a6c902b664e69f355932349dd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 62/92] fix: type database saved behind other data overwrites
 it

---
 datas/reflector_io.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 768a944..fe34a04 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -209,10 +209,14 @@ int ReflectorIO::Load(BinReaderRef rd) {
   return 0;
 }
 
-int ReflectorIO::Save(BinWritterRef wr) {
+int ReflectorIO::Save(BinWritterRef output) {
   ReflectorIOHeader hdr;
   hdr.numClasses = static_cast<uint32>(classes.size());
   hdr.numEnums = static_cast<uint32>(enums.size());
+
+  // Fixups seek within database, so it must not share stream with other data
+  std::stringstream buffer;
+  BinWritterRef wr(buffer);
   wr.Write(hdr);
   wr.SetRelativeOrigin(wr.Tell(), false);
 
@@ -406,7 +410,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   aliasesFixups.WriteFixups();
   aliasHashesFixups.WriteFixups();
   descsFixups.WriteFixups();
-  wr.Seek(0, std::ios_base::end);
+  output.WriteContainer(buffer.str());
 
   return 0;
 }
-- 
2.43.0


From 8546efa404889e661a80cde111d65c1aa494778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 63/92] fix: truncated type database is accepted

---
 datas/reflector_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index fe34a04..a4a8ecd 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -85,6 +85,9 @@ struct ReflectorIOHeader {
 int ReflectorIO::Load(BinReaderRef rd) {
   ReflectorIOHeader hdr;
 
+  if (rd.GetSize() - rd.Tell() < sizeof(hdr))
+    return 1;
+
   rd.Read(hdr);
 
   if (hdr.id != hdr.ID)
@@ -93,6 +96,9 @@ int ReflectorIO::Load(BinReaderRef rd) {
   if (hdr.version > hdr.VERSION)
     return 2;
 
+  if (rd.GetSize() - rd.Tell() < hdr.bufferSize)
+    return 3;
+
   rd.ReadContainer(data, hdr.bufferSize);
 
   const reflectorStatic *classesStart =
-- 
2.43.0


From 0f4ac65fa57d72dc370c3ee500809a019a8349b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 64/92] fix: loading type database breaks already present types

---
 datas/reflector_io.cpp | 12 ++++++++++--
 datas/reflector_io.hpp |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index a4a8ecd..84e4992 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -99,6 +99,11 @@ int ReflectorIO::Load(BinReaderRef rd) {
   if (rd.GetSize() - rd.Tell() < hdr.bufferSize)
     return 3;
 
+  const size_t numOldClasses = classes.size();
+  const size_t numOldEnums = enums.size();
+
+  buffers.emplace_back();
+  std::string &data = buffers.back();
   rd.ReadContainer(data, hdr.bufferSize);
 
   const reflectorStatic *classesStart =
@@ -109,7 +114,8 @@ int ReflectorIO::Load(BinReaderRef rd) {
 
   const esIntPtr bufferStart = reinterpret_cast<esIntPtr>(classesStart);
 
-  for (auto i : classes) {
+  for (size_t c = numOldClasses; c < classes.size(); c++) {
+    const reflectorStatic *i = classes[c];
     reflectorStatic_io *itemIO = reinterpret_cast<reflectorStatic_io *>(
         const_cast<reflectorStatic *>(i));
     esIntPtr *itemPtrsBegin = reinterpret_cast<esIntPtr *>(itemIO->_x64Padding);
@@ -203,7 +209,9 @@ int ReflectorIO::Load(BinReaderRef rd) {
     enumNamesPtrs[s] = bufferStart + enumNamesOffsets[s];
   }
 
-  for (auto &e : enums) {
+  for (size_t c = numOldEnums; c < enums.size(); c++) {
+    auto &e = enums[c];
+
     for (auto &n : e) {
       n = {*enumNamesIter};
       enumNamesIter++;
diff --git a/datas/reflector_io.hpp b/datas/reflector_io.hpp
index d7dacd8..105542e 100644
--- a/datas/reflector_io.hpp
+++ b/datas/reflector_io.hpp
@@ -18,11 +18,12 @@
 #pragma once
 #include "bincore_fwd.hpp"
 #include "reflector.hpp"
+#include <list>
 
 class ReflectorIO {
   typedef std::vector<const reflectorStatic *> classes_type;
   typedef std::vector<ReflectedEnum> enums_type;
-  std::string data;
+  std::list<std::string> buffers;
   classes_type classes;
   enums_type enums;
 
-- 
2.43.0


From a776046590a7058cb6ac7cac07482288b46be980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 65/92] fix: nested reflected classes are saved by members of
 outer class

---
 datas/reflector_io.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 84e4992..71933f5 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -441,8 +441,7 @@ public:
   using Reflector::GetReflectedType;
 };
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr);
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr);
 
 static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
                          const char *objAddr, reflType type) {
@@ -507,18 +506,18 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
-    return SaveClass(ri, sri, wr);
+    return SaveClass(sri, wr);
   }
   default:
     return 1;
   }
 }
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr) {
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
   auto refData = inst.Refl();
   const buint128 numItems = refData->nTypes;
   const char *thisAddr = static_cast<const char *>(inst.Instance());
+  ReflectorPureWrap ri(inst);
   std::stringstream tmpClassBuffer;
 
   BinWritterRef wrTmpClass(tmpClassBuffer);
@@ -554,7 +553,7 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(ri, inst, wr);
+  return SaveClass(inst, wr);
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
-- 
2.43.0


From 71fd0472ff25edf9e8227adfa9a14d8a277f1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 66/92] fix: saving and loading member of unregistered class
 crashes

---
 datas/reflector_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 71933f5..0b99bc7 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -506,6 +506,10 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
+
+    if (!sri.Refl())
+      return 3;
+
     return SaveClass(sri, wr);
   }
   default:
@@ -618,6 +622,10 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
+
+    if (!sri.Refl())
+      return 3;
+
     return LoadClass(sri, rd);
   }
   default:
-- 
2.43.0


From 50423711ccad34775add74c9ad8acb18561f147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 67/92] fix: only error of last loaded member is reported

---
 datas/reflector_io.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 0b99bc7..7df9f2b 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -670,11 +670,15 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
       continue;
     }
 
-    errType = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    const int itemError =
+        LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
 
-    if (errType) {
+    if (itemError) {
       rd.Pop();
       rd.Skip(valueChunkSize);
+
+      if (!errType)
+        errType = itemError;
     }
   }
 
-- 
2.43.0


From e2881ddbb784c390e69c225ad9c5936044d79c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 68/92] fix: loading of damaged or differing object reads
 behind it

---
 datas/reflector_io.cpp | 79 +++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 7df9f2b..526ebe9 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -570,6 +570,10 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
     if (type.subSize > 1) {
       bint128 tvar;
       rd.Read(tvar);
+
+      if (rd.IsEOF())
+        return 4;
+
       memcpy(objAddr, &tvar, type.subSize);
       return 0;
     }
@@ -580,6 +584,10 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
     if (type.subSize > 1) {
       buint128 tvar;
       rd.Read(tvar);
+
+      if (rd.IsEOF())
+        return 4;
+
       memcpy(objAddr, &tvar, type.subSize);
       return 0;
     }
@@ -615,7 +623,13 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
 
   case REFType::String: {
     std::string *rStr = reinterpret_cast<std::string *>(objAddr);
-    rd.ReadContainer(*rStr);
+    uint32 strSize;
+    rd.Read(strSize);
+
+    if (rd.IsEOF() || strSize > rd.GetSize() - rd.Tell())
+      return 4;
+
+    rd.ReadContainer(*rStr, strSize);
     return 0;
   }
 
@@ -633,55 +647,67 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
   }
 }
 
-static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
+// Reads whole chunk, so damaged data cannot reach behind it.
+static bool ReadChunk(BinReaderRef rd, std::string &chunk) {
+  buint128 chunkSize;
+  rd.Read(chunkSize);
+
+  if (rd.IsEOF() || chunkSize > rd.GetSize() - rd.Tell())
+    return false;
+
+  rd.ReadContainer(chunk, chunkSize);
+  return true;
+}
+
+static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef input) {
   auto refData = inst.Refl();
   const uint32 numItems = refData->nTypes;
   char *thisAddr = static_cast<char *>(inst.Instance());
-  buint128 chunkSize;
-  rd.Read(chunkSize);
-  rd.Push();
+  std::string chunk;
 
+  if (!ReadChunk(input, chunk))
+    return 4;
+
+  std::stringstream chunkStream(chunk);
+  BinReaderRef rd(chunkStream);
   buint128 numIOItems;
   rd.Read(numIOItems);
 
-  if (numIOItems != numItems) {
-    rd.Pop();
-    rd.Skip(chunkSize);
+  if (rd.IsEOF() || numIOItems != numItems)
     return 1;
-  }
 
   int errType = 0;
 
   for (uint32 i = 0; i < numItems; i++) {
-    BinReaderRef rf(rd);
     JenHash valueNameHash;
-    buint128 valueChunkSize;
+    std::string valueChunk;
     rd.Read(valueNameHash);
-    rd.Read(valueChunkSize);
-    rd.Push();
+
+    if (rd.IsEOF() || !ReadChunk(rd, valueChunk))
+      return 4;
+
+    std::stringstream valueStream(valueChunk);
+    BinReaderRef rf(valueStream);
 
     ReflectorPureWrap ri(inst);
     auto &&rif = static_cast<ReflectorFriend &>(static_cast<Reflector &>(ri));
     const reflType *cType = rif.GetReflectedType(valueNameHash);
 
-    if (!cType) {
-      rd.Pop();
-      rd.Skip(valueChunkSize);
+    if (!cType)
       continue;
-    }
 
-    const int itemError =
-        LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    int itemError = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
 
-    if (itemError) {
-      rd.Pop();
-      rd.Skip(valueChunkSize);
+    if (!itemError && (rf.IsEOF() || rf.Tell() != valueChunk.size()))
+      itemError = 4;
 
-      if (!errType)
-        errType = itemError;
-    }
+    if (itemError && !errType)
+      errType = itemError;
   }
 
+  if (!errType && rd.Tell() != chunk.size())
+    errType = 4;
+
   return errType;
 }
 
@@ -695,6 +721,9 @@ int ReflectorBinUtil::Load(Reflector &ri, BinReaderRef rd) {
   rd.Push();
   rd.Read(clsHash);
 
+  if (rd.IsEOF())
+    return 4;
+
   if (clsHash != refData->classHash) {
     rd.Pop();
     return 1;
-- 
2.43.0


From 7addad36c28f6c0efad7f9492bc6ba877b52f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 69/92] fix: markup characters in saved texts are parsed as XML

---
 datas/reflector_xml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 2ffaea4..e3b3fb4 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -150,7 +150,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
       }
     } else {
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.text().set(str.c_str());
     }
   }
 
@@ -259,14 +259,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       default: {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         std::string str = ri.GetReflectedValue(t);
-        cNode.append_buffer(str.c_str(), str.size());
+        cNode.text().set(str.c_str());
         break;
       }
       }
     } else {
       pugi::xml_node cNode = thisNode.append_child(varName.c_str());
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.text().set(str.c_str());
     }
   }
 
-- 
2.43.0


From 009139da3e31568a70553e8d2c378742f122c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 70/92] fix: array elements of classes without names lose index
 in XML

---
 datas/reflector_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index e3b3fb4..95b29d4 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -97,7 +97,7 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
   else {
     className.resize(15);
     const auto cHash = stat->classHash.raw();
-    snprintf(&className[0], 15, "h:%X", cHash);
+    className.resize(snprintf(&className[0], 15, "h:%X", cHash));
   }
 
   return node.append_child(className.c_str());
@@ -112,7 +112,7 @@ static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
   } else {
     varName.resize(15);
     const auto cHash = cType.valueNameHash.raw();
-    snprintf(&varName[0], 15, "h:%X", cHash);
+    varName.resize(snprintf(&varName[0], 15, "h:%X", cHash));
   }
 
   return varName;
-- 
2.43.0


From 91bda367cfaf503b7eee0730f8e15547d4d6ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 71/92] fix: unknown nodes crash XML loading

---
 datas/reflector_xml.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 95b29d4..75123e1 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -348,10 +348,18 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
     auto refType = rif.GetReflectedType(node.hash);
 
+    if (!refType) {
+      continue;
+    }
+
     auto DoVector = [&] {
       for (auto t : a.attributes()) {
         size_t element = -1;
 
+        if (!*t.name() || t.name()[1]) {
+          continue;
+        }
+
         switch (*t.name()) {
         case 'x':
           element = 0;
@@ -365,6 +373,8 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
         case 'w':
           element = 3;
           break;
+        default:
+          continue;
         }
 
         if (node.index == nan_) {
-- 
2.43.0


From 9ecd0ac61f29e8b4300573e9f2e05469abfdc4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 72/92] fix: bad indices of XML nodes reach behind arrays

---
 datas/reflector_xml.cpp | 47 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 75123e1..5b9d575 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -273,6 +273,18 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
   return thisNode;
 }
 
+static bool ParseIndex(const char *str, size_t &index) {
+  char *end = nullptr;
+
+  if (*str < '0' || *str > '9') {
+    return false;
+  }
+
+  index = strtoul(str, &end, 10);
+
+  return !*end;
+}
+
 pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
                                         bool lookupClassNode) {
   auto &&rif = static_cast<ReflectorFriend &>(ri);
@@ -284,6 +296,7 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
   struct retval {
     JenHash hash;
     size_t index = nan_;
+    bool valid = true;
   };
 
   auto MakeHash = [](es::string_view name) -> JenHash {
@@ -301,7 +314,8 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
     const size_t found = name.find('-');
 
     if (found != name.npos) {
-      retVal.index = atoll(name.data() + found + 1);
+      retVal.valid = ParseIndex(name.data() + found + 1, retVal.index) &&
+                     retVal.index != nan_;
       name = name.substr(0, found);
     }
 
@@ -320,6 +334,11 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
   for (auto a : thisNode.attributes()) {
     auto node = MakeNode(a);
+
+    if (!node.valid) {
+      continue;
+    }
+
     if (node.index == nan_) {
       ri.SetReflectedValue(node.hash, a.value());
     } else {
@@ -330,14 +349,22 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
   for (auto a : thisNode.children()) {
     auto node = MakeNode(a);
 
+    if (!node.valid) {
+      continue;
+    }
+
     if (ri.IsReflectedSubClass(node.hash)) {
       if (node.index == nan_) {
         node.index = 0;
       }
 
       auto rfInst = ri.GetReflectedSubClass(node.hash, node.index);
-      ReflectorPureWrap subRefl(rfInst);
-      ReflectorXMLUtil::LoadV2(subRefl, a);
+
+      if (static_cast<ReflectedInstanceFriend &>(rfInst).Refl()) {
+        ReflectorPureWrap subRefl(rfInst);
+        ReflectorXMLUtil::LoadV2(subRefl, a);
+      }
+
       continue;
     }
 
@@ -474,8 +501,20 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
     if (ri.IsReflectedSubClass(hash)) {
       if (ri.IsArray(hash)) {
         for (auto sc : a.children()) {
-          auto index = atoll(sc.name() + 2);
+          const char *name = sc.name();
+          size_t index;
+
+          if (name[0] != 'i' || name[1] != ':' ||
+              !ParseIndex(name + 2, index)) {
+            continue;
+          }
+
           auto rfInst = ri.GetReflectedSubClass(hash, index);
+
+          if (!static_cast<ReflectedInstanceFriend &>(rfInst).Refl()) {
+            continue;
+          }
+
           ReflectorPureWrap subRefl(rfInst);
           ReflectorXMLUtil::Load(subRefl, sc);
         }
-- 
2.43.0


From a81bdb1b2f1d5ddb8267dd806e5d1affc9d666ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 73/92] fix: members of unregistered class crash XML saving and
 loading

---
 datas/reflector_xml.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 5b9d575..6d8eeda 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -124,6 +124,11 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
   auto stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return node;
+  }
+
   pugi::xml_node thisNode = asNewNode ? MakeNode(ri, stat, node) : node;
 
   for (size_t t = 0; t < stat->nTypes; t++) {
@@ -170,6 +175,11 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
   auto stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return node;
+  }
+
   pugi::xml_node thisNode =
       opts[Flags_ClassNode] ? MakeNode(ri, stat, node) : node;
 
@@ -291,6 +301,11 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
   const reflectorStatic *stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return {};
+  }
+
   pugi::xml_node thisNode;
   static constexpr size_t nan_ = -1;
   struct retval {
@@ -472,6 +487,11 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
   const reflectorStatic *stat =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance())
           .Refl();
+
+  if (!stat) {
+    return {};
+  }
+
   pugi::xml_node thisNode;
 
   auto MakeHash = [](es::string_view name) -> JenHash {
-- 
2.43.0


From db43c0b448b77faa4b0af95932fe544ef13e7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 74/92] fix: XML of template class cannot be parsed back

---
 datas/reflector_xml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 6d8eeda..a2f8b47 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -19,6 +19,7 @@
 #include "reflector_xml.hpp"
 #include "master_printer.hpp"
 #include "pugiex.hpp"
+#include <cstring>
 
 struct ReflectedInstanceFriend : ReflectedInstance {
   void *Instance() { return instance; }
@@ -92,7 +93,8 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
                                pugi::xml_node node) {
   std::string className;
 
-  if (ri.UseNames())
+  // Template arguments cannot be part of XML name
+  if (ri.UseNames() && !strchr(stat->className, '<'))
     className = stat->className;
   else {
     className.resize(15);
-- 
2.43.0


From 54cea01817d07b955af24d099a4f7b040daae330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:44 +0000
Subject: [PATCH 75/92] fix: reflected classes without flags share one class
 hash

---
 datas/internal/reflector_class.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datas/internal/reflector_class.hpp b/datas/internal/reflector_class.hpp
index 2c6f912..fd1ed3c 100644
--- a/datas/internal/reflector_class.hpp
+++ b/datas/internal/reflector_class.hpp
@@ -167,6 +167,7 @@ constexpr size_t _GetReflDescPart(const char (&value)[n], bool part2 = false) {
   template <> struct ReflectorType<classname> : ReflectorTypeBase {            \
     using value_type = classname;                                              \
     _REFLECTOR_MAIN_BODY(adtype, __VA_ARGS__);                                 \
+    _REFLECTOR_MAIN_CLASSHASH(_REFLECTOR_CNAME, classname)                     \
   };                                                                           \
   _REFLECTOR_INTERFACE(_REFLECTOR_CLASS, classname)
 
-- 
2.43.0


From 21ee43c9b1b16012c53c25d287b8e8429af48934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 76/92] fix: listing members of classes without aliases or
 descriptions crashes

---
 datas/internal/reflector.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index e1ef85e..3c60a6c 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -214,14 +214,15 @@ Reflector::GetReflectedPair(size_t id, const KVPairFormat &settings) const {
   const auto refInt = GetReflectedInstance().rfStatic;
 
   if (UseNames()) {
-    if (settings.aliasName && refInt->typeAliases[id]) {
+    if (settings.aliasName && refInt->typeAliases && refInt->typeAliases[id]) {
       retval.name = refInt->typeAliases[id];
     } else {
       retval.name = refInt->typeNames[id];
     }
   }
 
-  if (settings.formatValue && !refInt->typeDescs[id].part1.empty()) {
+  if (settings.formatValue && refInt->typeDescs &&
+      !refInt->typeDescs[id].part1.empty()) {
     retval.value =
         refInt->typeDescs[id].part1.to_string() + ' ' + GetReflectedValue(id);
 
-- 
2.43.0


From 5a7522f5ce6a236b70a9f53fc4bea7c19c536fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 77/92] fix: empty name leads to member without alias

---
 datas/reflector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 56fbb0b..ee3429c 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -35,7 +35,8 @@ const reflType *Reflector::GetReflectedType(const JenHash hash) const {
     if (inst->types[t].valueNameHash == hash)
       return GetReflectedType(t);
 
-  if (inst->typeAliasHashes)
+  // Members without alias have zero alias hash
+  if (inst->typeAliasHashes && hash != 0)
     for (size_t t = 0; t < _ntypes; t++)
       if (inst->typeAliasHashes[t] == hash)
         return GetReflectedType(t);
-- 
2.43.0


From 972cf4cf7d09457f6831b8dc8f2e5811f12b00fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 78/92] fix: reordered bit-field members are swapped when
 looked up by name

---
 datas/internal/reflector_class.hpp | 4 ++--
 datas/internal/reflector_type.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/datas/internal/reflector_class.hpp b/datas/internal/reflector_class.hpp
index fd1ed3c..0ba5479 100644
--- a/datas/internal/reflector_class.hpp
+++ b/datas/internal/reflector_class.hpp
@@ -224,11 +224,11 @@ constexpr size_t _GetReflDescPart(const char (&value)[n], bool part2 = false) {
   VA_NARGS_EVAL(_REFLECTOR_START_VER3_(_REFLECTOR_ADDN, __VA_ARGS__))
 
 #define _REFLECTOR_ADDB(classname, _id, mvalue)                                \
-  BuildBFReflType<classname, mvalue>(JenHash(#mvalue)),
+  BuildBFReflType<classname, mvalue>(JenHash(#mvalue), _id),
 
 #define _EXT_REFLECTOR_ADDB(classname, _id, value)                             \
   BuildBFReflType<classname, _REFLECTOR_EXTRACT_0 value>(                      \
-      JenHash(_REFLECTOR_EXTRACT_0S value)),
+      JenHash(_REFLECTOR_EXTRACT_0S value), _id),
 
 #define _REFLECTOR_START_VERBITFIELD(classname, numFlags, ...)                 \
   VA_NARGS_EVAL(_REFLECTOR_START_VER##numFlags##_(_REFLECTOR_ADDB, classname,  \
diff --git a/datas/internal/reflector_type.hpp b/datas/internal/reflector_type.hpp
index 64f4ef8..b2bd73e 100644
--- a/datas/internal/reflector_type.hpp
+++ b/datas/internal/reflector_type.hpp
@@ -138,13 +138,13 @@ reflType BuildReflType(JenHash classHash, uint8 index, size_t offset) {
 }
 
 template <class main_class, class declmem>
-reflType BuildBFReflType(JenHash hash) {
+reflType BuildBFReflType(JenHash hash, uint8 index) {
   constexpr auto item = main_class::parent::Get(declmem::index);
 
   return reflType{REFType::BitFieldMember,
                   RefGetType<typename main_class::value_type>(),
                   static_cast<decltype(reflType::subSize)>(item.size),
-                  declmem::index,
+                  index,
                   0,
                   static_cast<decltype(reflType::offset)>(item.position),
                   hash,
-- 
2.43.0


From f794ff5473024a2492f69697427aaef614df3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 79/92] fix: asking for name of unnamed class crashes

---
 datas/internal/reflector.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index 3c60a6c..36c2e6e 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -247,7 +247,8 @@ Reflector::GetReflectedPair(JenHash hash, const KVPairFormat &settings) const {
 }
 
 inline es::string_view Reflector::GetClassName() const {
-  return GetReflectedInstance().rfStatic->className;
+  const auto refInt = GetReflectedInstance().rfStatic;
+  return refInt->className ? refInt->className : es::string_view{};
 }
 
 inline bool Reflector::IsReflectedSubClass(JenHash hash) const {
-- 
2.43.0


From b59ca72c1d5429d7318e4257f7c6d057d23a66a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 80/92] fix: settings help of classes without descriptions or
 unregistered types crashes

---
 datas/settings_manager.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 04442ee..c6bfd9f 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -79,8 +79,9 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
     };
 
     for (size_t i = 0; i < ref->nTypes; i++) {
-      es::string_view elName = ref->typeNames[i];
-      auto elDesc = ref->typeDescs[i];
+      es::string_view elName =
+          ref->typeNames ? ref->typeNames[i] : es::string_view{};
+      auto elDesc = ref->typeDescs ? ref->typeDescs[i] : _ReflDesc{};
       fillIndent() << elName << std::endl;
 
       if (!elDesc.part1.empty()) {
@@ -93,8 +94,11 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
           ((fl.type == REFType::Array || fl.type == REFType::ArrayClass) &&
            (fl.subType == REFType::Class ||
             fl.subType == REFType::BitFieldClass))) {
-        GetHelp(str, REFSubClassStorage.at(fl.typeHash), level + 1);
-      } else if (fl.type == REFType::Enum) {
+        if (REFSubClassStorage.count(fl.typeHash)) {
+          GetHelp(str, REFSubClassStorage.at(fl.typeHash), level + 1);
+        }
+      } else if (fl.type == REFType::Enum &&
+                 REFEnumStorage.count(fl.typeHash)) {
         auto refEnum = REFEnumStorage.at(fl.typeHash);
         fillIndent(1) << "Values: ";
 
@@ -109,7 +113,7 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
   void GetHelp(std::ostream &str) {
     auto ref = GetReflectedClass<Base>();
-    str << ref->className << " settings." << std::endl;
+    str << this->GetClassName() << " settings." << std::endl;
     GetHelp(str, ref);
   }
 };
-- 
2.43.0


From 3d0e2933956e8069f203ebe3e788f7008cd3d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 81/92] fix: second settings log stays empty

---
 datas/settings_manager.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index c6bfd9f..f8cbb6f 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -45,6 +45,8 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
               &timeStruct);
     logName.append(std::to_string(dateBuffer));
     logName.append(".txt");
+    GetLogger().close();
+    GetLogger().clear();
     GetLogger().open(ToTSTRING(logName), std::ios::out);
     printer.AddPrinterFunction(SettingsManager::printf, false);
 
-- 
2.43.0


From cf0324701477a1c8a51bbd2c5daa1da50ecd4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 82/92] fix: place of nodes in XML errors

The offset was computed from the name of the first child of the document,
which an empty document does not have (a crash), and which does not point
into the file when that child is a comment or a document is built by hand.
---
 datas/pugiex.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/datas/pugiex.hpp b/datas/pugiex.hpp
index 0f43f42..a79a82a 100644
--- a/datas/pugiex.hpp
+++ b/datas/pugiex.hpp
@@ -172,11 +172,8 @@ constexpr XMLFormatFlags XMLDefaultFormatFlags(XMLFormatFlag::Indent);
 class XMLBaseException : public std::runtime_error {
   using parent = std::runtime_error;
   static std::string Generate_(pugi::xml_node node) {
-    const size_t approxHeaderSize = 25;
-    auto rootNodeBegin = (*node.root().children().begin()).name();
     return "XML node " + std::string(node.name()) + " at offset " +
-           std::to_string(node.name() - rootNodeBegin + approxHeaderSize) +
-           ": ";
+           std::to_string(node.offset_debug()) + ": ";
   }
 
 public:
-- 
2.43.0


From fc539158096b5e378e17b11f4d94b20199b2ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:39 +0000
Subject: [PATCH 83/92] fix: python type of skeleton lists is declared but
 missing

---
 uni/python/pyskeleton.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 8d09514..436d0b1 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -218,6 +218,8 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
+PyTypeObject *Skeleton::GetListType() { return SkeletonList::GetType(); }
+
 void Skeleton::Dealloc(Skeleton *self) { auto t0 = std::move(self->item); }
 
 PyObject *Skeleton::Name(Skeleton *self) {
-- 
2.43.0


From 08e6b7340de1b0319d8953f25e89ad76fdb8cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:31 +0000
Subject: [PATCH 84/92] fix: python objects of uni are never freed

---
 uni/python/pylist.hpp     |  5 ++++-
 uni/python/pymotion.inl   |  8 ++++++--
 uni/python/pyskeleton.inl | 10 ++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index e757a5a..f4603bc 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -84,7 +84,10 @@ template <class Info> struct List {
     return &typeObject;
   }
 
-  static void Dealloc(List *self) { auto t0 = std::move(self->cList); }
+  static void Dealloc(List *self) {
+    { auto t0 = std::move(self->cList); }
+    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+  }
 
   static size_t Len(List *self) { return self->cList->Size(); }
 
diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 02dc731..4e1edaa 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -150,7 +150,8 @@ static PyTypeObject motionTrackType = {
 PyTypeObject *MotionTrack::GetType() { return &motionTrackType; }
 
 void MotionTrack::Dealloc(MotionTrack *self) {
-  auto t0 = std::move(self->item);
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
 }
 
 PyObject *MotionTrack::TrackType(MotionTrack *self) {
@@ -280,7 +281,10 @@ PyTypeObject *Motion::GetType() { return &motionType; }
 
 PyTypeObject *Motion::GetListType() { return MotionList::GetType(); }
 
-void Motion::Dealloc(Motion *self) { auto t0 = std::move(self->item); }
+void Motion::Dealloc(Motion *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Motion::MotionType(Motion *self) {
   return PyLong_FromSize_t(self->item->MotionType());
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 436d0b1..b355899 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -114,7 +114,10 @@ static PyTypeObject boneType = {
 
 PyTypeObject *Bone::GetType() { return &boneType; }
 
-void Bone::Dealloc(Bone *self) { auto t0 = std::move(self->item); }
+void Bone::Dealloc(Bone *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Bone::GetTMType(Bone *self) {
   return PyLong_FromLong(self->item->TMType());
@@ -220,7 +223,10 @@ PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
 PyTypeObject *Skeleton::GetListType() { return SkeletonList::GetType(); }
 
-void Skeleton::Dealloc(Skeleton *self) { auto t0 = std::move(self->item); }
+void Skeleton::Dealloc(Skeleton *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Skeleton::Name(Skeleton *self) {
   auto skName = self->item->Name();
-- 
2.43.0


From 75f1b59fef2348661969de9f4ac190dc862ffe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:31 +0000
Subject: [PATCH 85/92] fix: python bindings return None without reference

---
 uni/python/pymotion.inl   | 3 ++-
 uni/python/pyskeleton.inl | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 4e1edaa..1e4bc0c 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -216,7 +216,8 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
     break;
   }
   default:
-    return Py_None;
+    Py_DECREF(retList);
+    Py_RETURN_NONE;
   }
 
   return retList;
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index b355899..d600069 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -136,7 +136,7 @@ PyObject *Bone::GetTM(Bone *self) {
     return Py_BuildValue(rts);
   }
   default:
-    return Py_None;
+    Py_RETURN_NONE;
   }
 }
 
@@ -157,7 +157,7 @@ PyObject *Bone::GetParent(Bone *self) {
     rtVal->item = {bne, false};
     return reinterpret_cast<PyObject *>(rtVal);
   } else {
-    return Py_None;
+    Py_RETURN_NONE;
   }
 }
 
-- 
2.43.0


From bd50641255eb09ec82aa42e3c48e65162fe6be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 86/92] fix: index outside of a python list leaves as C++
 exception

---
 uni/python/pylist.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index f4603bc..91439d2 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -93,10 +93,20 @@ template <class Info> struct List {
 
   static PyObject *Subscript(List *self, PyObject *index) {
     const auto id = PyInt_AsSsize_t(index);
+
+    if (id == -1 && PyErr_Occurred()) {
+      return nullptr;
+    }
+
     return self->SubscriptRaw(id);
   }
 
   PyObject *SubscriptRaw(size_t index) {
+    if (index >= Len(this)) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     wrap_type *rtVal = reinterpret_cast<wrap_type *>(
         PyType_GenericAlloc(wrap_type::GetType(), 0));
     rtVal->item = cList->At(index);
-- 
2.43.0


From 6f9363e91cd76654d1a23bea86fd1f8837e056de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 87/92] fix: python list iterators share their position and
 miss a reference

---
 uni/python/pylist.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index 91439d2..1693eab 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -40,6 +40,13 @@ template <class Info> struct List {
         0,
     };
 
+    static PySequenceMethods sequenceMethods = {
+        (lenfunc)List::Len,
+        0,
+        0,
+        (ssizeargfunc)List::Item,
+    };
+
     static PyTypeObject typeObject = {
         PyVarObject_HEAD_INIT(NULL, 0)               /* init macro */
         Info::GetName(),                             /* tp_name */
@@ -52,7 +59,7 @@ template <class Info> struct List {
         0,                                           /* tp_compare */
         0,                                           /* tp_repr */
         0,                                           /* tp_as_number */
-        0,                                           /* tp_as_sequence */
+        &sequenceMethods,                            /* tp_as_sequence */
         &mappingMethods,                             /* tp_as_mapping */
         0,                                           /* tp_hash */
         0,                                           /* tp_call */
@@ -101,6 +108,10 @@ template <class Info> struct List {
     return self->SubscriptRaw(id);
   }
 
+  static PyObject *Item(List *self, Py_ssize_t index) {
+    return self->SubscriptRaw(index);
+  }
+
   PyObject *SubscriptRaw(size_t index) {
     if (index >= Len(this)) {
       PyErr_SetString(PyExc_IndexError, "index out of range");
@@ -114,8 +125,7 @@ template <class Info> struct List {
   }
 
   static PyObject *Iter(List *self) {
-    self->iterPos = 0;
-    return reinterpret_cast<PyObject *>(self);
+    return PySeqIter_New(reinterpret_cast<PyObject *>(self));
   }
 
   static PyObject *IterNext(List *self) {
-- 
2.43.0


From e7e7ceb95e2a62ca79fe76a46d5bdfbdad16fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:01 +0000
Subject: [PATCH 88/92] fix: python get_values samples times that are not
 numbers

---
 uni/python/pymotion.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 1e4bc0c..0dcb91c 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -174,6 +174,10 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
 
   for (auto &t : times) {
     t = static_cast<float>(PyFloat_AsDouble(*cObj++));
+
+    if (PyErr_Occurred()) {
+      return nullptr;
+    }
   }
 
   auto retList = PyList_New(times.size());
-- 
2.43.0


From a110908a3f7adede72cb045c9b34bccf2f992140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:01 +0000
Subject: [PATCH 89/92] fix: C++ exceptions of tracks and bones reach python
 interpreter

---
 uni/python/pymotion.inl   | 74 +++++++++++++++++++++------------------
 uni/python/pyskeleton.inl | 31 +++++++++-------
 2 files changed, 58 insertions(+), 47 deletions(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 0dcb91c..68b71e3 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -183,45 +183,51 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
   auto retList = PyList_New(times.size());
   size_t curItem = 0;
 
-  switch (self->item->TrackType()) {
-  case uni::MotionTrack::Position:
-  case uni::MotionTrack::Rotation:
-  case uni::MotionTrack::Scale: {
-    Vector4A16 rtVal;
-    for (auto &t : times) {
-      self->item->GetValue(rtVal, t);
-      PyList_SetItem(retList, curItem++, Py_BuildValue(rtVal));
+  try {
+    switch (self->item->TrackType()) {
+    case uni::MotionTrack::Position:
+    case uni::MotionTrack::Rotation:
+    case uni::MotionTrack::Scale: {
+      Vector4A16 rtVal;
+      for (auto &t : times) {
+        self->item->GetValue(rtVal, t);
+        PyList_SetItem(retList, curItem++, Py_BuildValue(rtVal));
+      }
+      break;
     }
-    break;
-  }
-  case uni::MotionTrack::SingleFloat: {
-    float rtVal;
-    for (auto &t : times) {
-      self->item->GetValue(rtVal, t);
-      auto cVal = PyFloat_FromDouble(rtVal);
-      PyList_SetItem(retList, curItem++, cVal);
+    case uni::MotionTrack::SingleFloat: {
+      float rtVal;
+      for (auto &t : times) {
+        self->item->GetValue(rtVal, t);
+        auto cVal = PyFloat_FromDouble(rtVal);
+        PyList_SetItem(retList, curItem++, cVal);
+      }
+      break;
     }
-    break;
-  }
-  case uni::MotionTrack::PositionRotationScale: {
-    uni::RTSValue rts;
-    for (auto &t : times) {
-      self->item->GetValue(rts, t);
-      PyList_SetItem(retList, curItem++, Py_BuildValue(rts));
+    case uni::MotionTrack::PositionRotationScale: {
+      uni::RTSValue rts;
+      for (auto &t : times) {
+        self->item->GetValue(rts, t);
+        PyList_SetItem(retList, curItem++, Py_BuildValue(rts));
+      }
+      break;
     }
-    break;
-  }
-  case uni::MotionTrack::Matrix: {
-    esMatrix44 mtx;
-    for (auto &t : times) {
-      self->item->GetValue(mtx, t);
-      PyList_SetItem(retList, curItem++, Py_BuildValue(mtx));
+    case uni::MotionTrack::Matrix: {
+      esMatrix44 mtx;
+      for (auto &t : times) {
+        self->item->GetValue(mtx, t);
+        PyList_SetItem(retList, curItem++, Py_BuildValue(mtx));
+      }
+      break;
     }
-    break;
-  }
-  default:
+    default:
+      Py_DECREF(retList);
+      Py_RETURN_NONE;
+    }
+  } catch (const std::exception &e) {
     Py_DECREF(retList);
-    Py_RETURN_NONE;
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
   }
 
   return retList;
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index d600069..3516331 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -124,19 +124,24 @@ PyObject *Bone::GetTMType(Bone *self) {
 }
 
 PyObject *Bone::GetTM(Bone *self) {
-  switch (self->item->TMType()) {
-  case uni::TransformType::TMTYPE_MATRIX: {
-    esMatrix44 mtx;
-    self->item->GetTM(mtx);
-    return Py_BuildValue(mtx);
-  }
-  case uni::TransformType::TMTYPE_RTS: {
-    uni::RTSValue rts;
-    self->item->GetTM(rts);
-    return Py_BuildValue(rts);
-  }
-  default:
-    Py_RETURN_NONE;
+  try {
+    switch (self->item->TMType()) {
+    case uni::TransformType::TMTYPE_MATRIX: {
+      esMatrix44 mtx;
+      self->item->GetTM(mtx);
+      return Py_BuildValue(mtx);
+    }
+    case uni::TransformType::TMTYPE_RTS: {
+      uni::RTSValue rts;
+      self->item->GetTM(rts);
+      return Py_BuildValue(rts);
+    }
+    default:
+      Py_RETURN_NONE;
+    }
+  } catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
   }
 }
 
-- 
2.43.0


From 703bdcdde628a6ce2291f0f8c24ef084d681d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:01 +0000
Subject: [PATCH 90/92] fix: python framerate setter ignores wrong values and
 read only motions

---
 uni/python/pymotion.inl | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 68b71e3..0217690 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -319,7 +319,24 @@ PyObject *Motion::FrameRate(Motion *self) {
 }
 
 int Motion::SetFrameRate(Motion *self, PyObject *var) {
-  self->sitem->FrameRate(PyLong_AsLong(var));
+  if (!var) {
+    PyErr_SetString(PyExc_TypeError, "framerate cannot be deleted");
+    return -1;
+  }
+
+  const auto fps = PyLong_AsLong(var);
+
+  if (fps == -1 && PyErr_Occurred()) {
+    return -1;
+  }
+
+  try {
+    self->sitem->FrameRate(fps);
+  } catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From d7ee995e88d4ef660e5f34e43fc44cddb8cc0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:01 +0000
Subject: [PATCH 91/92] fix: python reflected enum reads past its items

---
 datas/python/reflected_enum.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/python/reflected_enum.hpp b/datas/python/reflected_enum.hpp
index 8d87cda..d8660bd 100644
--- a/datas/python/reflected_enum.hpp
+++ b/datas/python/reflected_enum.hpp
@@ -93,6 +93,11 @@ template <class E, const char *const doc = nullptr> struct ReflectedEnumPy {
   }
 
   static PyObject *SubscriptRaw(size_t index) {
+    if (index >= GetEnum().size()) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     auto eName = GetEnum()[index];
     return PyString_FromStringAndSize(eName.data(), eName.size());
   }
-- 
2.43.0


From 7df565dbd8e966eb377dc409ef8eebc3bcd2222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:36 +0000
Subject: [PATCH 92/92] fix: 3ds Max helpers use macros that do not exist

---
 MAXex/CompositeTex.h     | 20 ++++++++++----------
 MAXex/MapsCore.h         | 16 ++++++++--------
 MAXex/Mix.h              |  6 +++---
 MAXex/NodeSuffix.h       | 18 +++++++++---------
 MAXex/NormalBump.h       |  4 ++--
 MAXex/PhysicalMaterial.h |  4 ++--
 MAXex/RGBMultiply.h      |  4 ++--
 MAXex/VertexColor.h      |  2 +-
 8 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/MAXex/CompositeTex.h b/MAXex/CompositeTex.h
index 44e5056..ea2873f 100644
--- a/MAXex/CompositeTex.h
+++ b/MAXex/CompositeTex.h
@@ -66,24 +66,24 @@ public:
 		ACCFUNC(Mask, Texmap*);
 	};
 private:
-	ES_FORCEINLINE void _assign(MultiTex *input) 
+	inline void _assign(MultiTex *input) 
 	{
 		tmapRef = input;
 		cInterface = ((Interface*)input->GetInterface(Interface_ID(0x5f666b75, 0x5f4367db)));
 		params = input->GetParamBlock(0);
 	}
 public:
-	ES_FORCEINLINE CompositeTex()
+	inline CompositeTex()
 	{
 		tmapRef = static_cast<MultiTex*>(NewDefaultCompositeTex());
 		_assign(tmapRef);
 	}
 
-	ES_FORCEINLINE CompositeTex(MultiTex *input) { _assign(input); }
+	inline CompositeTex(MultiTex *input) { _assign(input); }
 
-	ES_FORCEINLINE const int NumLayers() { return cInterface->Count(); }
-	ES_FORCEINLINE const Layer AddLayer() { cInterface->AddLayer(); return Layer(params, NumLayers() - 1); }
-	ES_FORCEINLINE void DeleteLayer(int index)
+	inline const int NumLayers() { return cInterface->Count(); }
+	inline const Layer AddLayer() { cInterface->AddLayer(); return Layer(params, NumLayers() - 1); }
+	inline void DeleteLayer(int index)
 	{ 
 		int numLayers = NumLayers();
 
@@ -101,11 +101,11 @@ public:
 
 		cInterface->DeleteLayer(index); 
 	}
-	ES_FORCEINLINE void DuplicateLayer(int index) { cInterface->DuplicateLayer(index); }
-	ES_FORCEINLINE void MoveLayer(int fromIndex, int toIndex, bool before) { cInterface->MoveLayer(fromIndex, toIndex, before); }
-	ES_FORCEINLINE const Layer GetLayer(int index) { return Layer(params, index); }
+	inline void DuplicateLayer(int index) { cInterface->DuplicateLayer(index); }
+	inline void MoveLayer(int fromIndex, int toIndex, bool before) { cInterface->MoveLayer(fromIndex, toIndex, before); }
+	inline const Layer GetLayer(int index) { return Layer(params, index); }
 
-	ES_FORCEINLINE void Resize(int newSize)
+	inline void Resize(int newSize)
 	{
 		if (newSize < 1)
 		{
diff --git a/MAXex/MapsCore.h b/MAXex/MapsCore.h
index 37a55ef..b732a3f 100644
--- a/MAXex/MapsCore.h
+++ b/MAXex/MapsCore.h
@@ -3,20 +3,20 @@
 #include <iparamm2.h>
 #include <iFnPub.h>
 
-#define ACCFUNC(fname, type) ES_FORCEINLINE void fname(type input) const { Set<Params_e, e##fname, type>(input); } \
-ES_FORCEINLINE type fname() const { return Get<Params_e, e##fname, type>(); }
+#define ACCFUNC(fname, type) inline void fname(type input) const { Set<Params_e, e##fname, type>(input); } \
+inline type fname() const { return Get<Params_e, e##fname, type>(); }
 
-#define ACCFUNC_ENUM(fname) ES_FORCEINLINE void fname(fname##_e input) const { Set<Params_e, e##fname, int>(input); } \
-ES_FORCEINLINE fname##_e fname() const { return static_cast<fname##_e>(Get<Params_e, e##fname, int>()); }
+#define ACCFUNC_ENUM(fname) inline void fname(fname##_e input) const { Set<Params_e, e##fname, int>(input); } \
+inline fname##_e fname() const { return static_cast<fname##_e>(Get<Params_e, e##fname, int>()); }
 
-#define ACCFUNC_CAST(fname, type, outType) ES_FORCEINLINE void fname(type input) const { Set<Params_e, e##fname, type>(input); } \
-ES_FORCEINLINE type fname() const { return static_cast<outType>(Get<Params_e, e##fname, type>()); }
+#define ACCFUNC_CAST(fname, type, outType) inline void fname(type input) const { Set<Params_e, e##fname, type>(input); } \
+inline type fname() const { return static_cast<outType>(Get<Params_e, e##fname, type>()); }
 
 template<class C>class MapBase_t
 {
 protected:
-	template<class C, C E, class T> ES_FORCEINLINE T Get() const { T retval; ivalid.SetInfinite(); params->GetValue(E, 0, retval, ivalid, index); return retval; }
-	template<class C, C E, class T> ES_FORCEINLINE void Set(T ival) const { params->SetValue(E, 0, ival, index); }
+	template<class C, C E, class T> inline T Get() const { T retval; ivalid.SetInfinite(); params->GetValue(E, 0, retval, ivalid, index); return retval; }
+	template<class C, C E, class T> inline void Set(T ival) const { params->SetValue(E, 0, ival, index); }
 protected:
 	IParamBlock2 *params;
 	C *tmapRef;
diff --git a/MAXex/Mix.h b/MAXex/Mix.h
index c89ba94..cc7a445 100644
--- a/MAXex/Mix.h
+++ b/MAXex/Mix.h
@@ -21,19 +21,19 @@ class Mix : public MapBase
 	};
 public:
 	
-	ES_FORCEINLINE Mix()
+	inline Mix()
 	{ 
 		tmapRef = static_cast<Texmap*>(GetCOREInterface()->CreateInstance(TEXMAP_CLASS_ID, Class_ID(MIX_CLASS_ID, 0)));
 		params = tmapRef->GetParamBlock(0);
 	}
 
-	ES_FORCEINLINE Mix(Texmap *map1, Texmap *map2, float mix = 0.5f) : Mix()
+	inline Mix(Texmap *map1, Texmap *map2, float mix = 0.5f) : Mix()
 	{
 		Map1(map1);
 		Map2(map2);
 		MixAmmount(mix);
 	}
-	ES_FORCEINLINE Mix(Texmap *map1, Texmap *map2, Texmap *mask) : Mix()
+	inline Mix(Texmap *map1, Texmap *map2, Texmap *mask) : Mix()
 	{
 		Map1(map1);
 		Map2(map2);
diff --git a/MAXex/NodeSuffix.h b/MAXex/NodeSuffix.h
index 009a446..b796df4 100644
--- a/MAXex/NodeSuffix.h
+++ b/MAXex/NodeSuffix.h
@@ -10,9 +10,9 @@ class INodeSuffixer : public std::vector<int>
 	bool skin : 1, morph : 1, normals : 1, color : 1;
 
 public:
-	ES_FORCEINLINE INodeSuffixer() : skin(false), morph(false), normals(false), color(false) { reserve(4); }
-	ES_FORCEINLINE void AddChannel(int id) { push_back(id); }
-	ES_FORCEINLINE void AddColor() 
+	inline INodeSuffixer() : skin(false), morph(false), normals(false), color(false) { reserve(4); }
+	inline void AddChannel(int id) { push_back(id); }
+	inline void AddColor() 
 	{ 
 		if (!color)
 		{
@@ -20,7 +20,7 @@ public:
 			color = true;
 		}
 	}
-	ES_FORCEINLINE void AddFullColor() 
+	inline void AddFullColor() 
 	{ 
 		if (!color)
 			push_back(0);
@@ -29,11 +29,11 @@ public:
 		color = true;
 	}
 
-	ES_FORCEINLINE void UseNormals() { normals = true; }
-	ES_FORCEINLINE void UseSkin() { skin = true; }
-	ES_FORCEINLINE void UseMorph() { morph = true; }
+	inline void UseNormals() { normals = true; }
+	inline void UseSkin() { skin = true; }
+	inline void UseMorph() { morph = true; }
 
-	ES_INLINE TSTRING Generate(TSTRING *className = nullptr)
+	inline TSTRING Generate(TSTRING *className = nullptr)
 	{
 		TSTRING retString = {};
 		retString.reserve(5 + size() + (className ? 2 + className->size() : 0));
@@ -72,7 +72,7 @@ public:
 		return retString;
 	}
 
-	ES_FORCEINLINE operator INode*() { return node; }
+	inline operator INode*() { return node; }
 
 public:
 	INode *node;
diff --git a/MAXex/NormalBump.h b/MAXex/NormalBump.h
index 04b3480..2e6b0ee 100644
--- a/MAXex/NormalBump.h
+++ b/MAXex/NormalBump.h
@@ -26,12 +26,12 @@ public:
 		Method_Scene,
 		Methpd_World
 	};
-	ES_FORCEINLINE NormalBump(Texmap *input) : NormalBump()
+	inline NormalBump(Texmap *input) : NormalBump()
 	{
 		Normal(input);
 	}
 
-	ES_FORCEINLINE NormalBump() 
+	inline NormalBump() 
 	{ 
 		tmapRef = static_cast<Texmap*>(GetCOREInterface()->CreateInstance(TEXMAP_CLASS_ID, GNORMAL_CLASS_ID)); 
 		params = tmapRef->GetParamBlock(0);
diff --git a/MAXex/PhysicalMaterial.h b/MAXex/PhysicalMaterial.h
index 5daefc2..d7d7d02 100644
--- a/MAXex/PhysicalMaterial.h
+++ b/MAXex/PhysicalMaterial.h
@@ -147,7 +147,7 @@ public:
 		CutoutMap
 	};
 
-	ES_FORCEINLINE PhysicalMaterial()
+	inline PhysicalMaterial()
 	{ 
 		tmapRef = static_cast<StdMat2*>(GetCOREInterface()->CreateInstance(MATERIAL_CLASS_ID, PHYSIC_MAT_CLASSID));
 		params = tmapRef->GetParamBlock(0);
@@ -160,7 +160,7 @@ public:
 
 	}
 
-	ES_FORCEINLINE PhysicalMaterial(StdMat2 *input)
+	inline PhysicalMaterial(StdMat2 *input)
 	{
 		tmapRef = input;
 		params = tmapRef->GetParamBlock(0);
diff --git a/MAXex/RGBMultiply.h b/MAXex/RGBMultiply.h
index 14f97c3..e43a8b6 100644
--- a/MAXex/RGBMultiply.h
+++ b/MAXex/RGBMultiply.h
@@ -21,13 +21,13 @@ public:
 		AlphaFrom_Mult
 	};
 
-	ES_FORCEINLINE RGBMultiply()
+	inline RGBMultiply()
 	{ 
 		tmapRef = static_cast<Texmap*>(GetCOREInterface()->CreateInstance(TEXMAP_CLASS_ID, Class_ID(RGBMULT_CLASS_ID, 0)));
 		params = tmapRef->GetParamBlock(0);
 	}
 
-	ES_FORCEINLINE RGBMultiply(Texmap *map1, Texmap *map2): RGBMultiply()
+	inline RGBMultiply(Texmap *map1, Texmap *map2): RGBMultiply()
 	{
 		Map1(map1);
 		Map2(map2);
diff --git a/MAXex/VertexColor.h b/MAXex/VertexColor.h
index c6bbe84..b20c7e7 100644
--- a/MAXex/VertexColor.h
+++ b/MAXex/VertexColor.h
@@ -16,7 +16,7 @@ public:
 		Green,
 		Blue
 	};
-	ES_FORCEINLINE VertexColor()
+	inline VertexColor()
 	{ 
 		tmapRef = static_cast<Texmap*>(GetCOREInterface()->CreateInstance(TEXMAP_CLASS_ID, Class_ID(VCOL_CLASS_ID, 0)));
 		params = tmapRef->GetParamBlock(0);
-- 
2.43.0

