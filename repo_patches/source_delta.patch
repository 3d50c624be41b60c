From 267c723c0f3919f5a1834da2fc4bc64de30d513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 01/79] fix: memcmp of spans compares the byte extent, not the
 element count

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..0418949 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,14 +959,14 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size();
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
     zret = 1;
   } else if (lhs.count() > rhs.count()) {
     zret = -1;
-    n    = rhs.size();
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
-- 
2.43.0


From 79223a9348f29ef093ec149b42df9ef79ade44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 02/79] fix: memcpy of spans copies the byte extent, not the
 element count

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 0418949..7ae4b4b 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -983,19 +983,19 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.data_size(), src.data_size())));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
-- 
2.43.0


From ee37a02c1b90d98de1debc3dfe50a6703c0ac0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 03/79] fix: memcpy of a string view to a span is bounded by
 the span

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 7ae4b4b..a6abc32 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1000,12 +1000,12 @@ memcpy(T *dst, MemSpan<T> &src) {
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(span.size(), view.size())));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  return std::memcpy(span.data(), view.data(), std::min(span.size(), view.size()));
 }
 
 using std::memcpy;
-- 
2.43.0


From f33ef133eed002198009a2b20c00041508de8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 04/79] fix: MemSpan equality compares all bytes of the
 elements

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index a6abc32..ffdd380 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
-- 
2.43.0


From 99c6315fd0e4bc0ae75d46b530faff37a19bcc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 05/79] fix: MemSpan align pads up to the next aligned address

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index ffdd380..23fcfef 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1615,7 +1615,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = (alignment - p) & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1632,7 +1632,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = (alignment - p) & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From 864fa8cf74cc2948b5e50fe84a1729e5dda085d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 06/79] fix: MemSpan rebind to void does not scale the size
 twice

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 23fcfef..a7bc848 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 /// @endcond
 
-- 
2.43.0


From ee3e534d2d924b6273f67370972584304f94b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 07/79] fix: FixedBufferWriter::copy stays within the written
 part of the buffer

---
 code/include/swoc/BufferWriter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..7874151 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -626,9 +626,9 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (dst < limit && src < limit) {
+    std::memmove(_buffer + dst, _buffer + src, std::min(n, limit - std::max(dst, src)));
+  }
   return *this;
 }
 
-- 
2.43.0


From 67e7222aa6f3087fcce1d59cc3feb6c3be2049b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 08/79] fix: the digit 't' has the value 29

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From f7c3d307195b90d4e1de37a5c6d92142fd7116e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 09/79] fix: svtoi clears the parsed view when nothing is
 parsed

---
 code/src/TextView.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..b8f1a46 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,9 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
-- 
2.43.0


From d4f506652df7aac0c19b664f6a4b780001797fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 10/79] fix: svtod keeps the sign of a whole number and values
 past the signed maximum

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index b8f1a46..53b76d2 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -190,11 +190,11 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     ++text;
   }
   // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
+  uintmax_t whole = svto_radix<10>(text);
   parsed->assign(org_text.data(), text.data());
 
   if (text.empty()) {
-    return whole;
+    return sign * double(whole);
   }
 
   double frac = 0.0;
-- 
2.43.0


From 79c374a5cb2a5095ad1045942fde712317a11ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 11/79] fix: TextView split_suffix leaves the view alone when
 the suffix is not bounded

---
 code/include/swoc/TextView.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..6125385 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1445,10 +1445,11 @@ TextView::remove_suffix_if(F const &pred) {
 
 inline TextView
 TextView::split_suffix(size_t n) {
-  self_type zret;
-  n    = std::min(n, this->size());
-  zret = this->suffix(n);
-  this->remove_suffix(n + 1);
+  self_type zret; // default to empty return.
+  if (n < this->size()) {
+    zret = this->suffix(n);
+    this->remove_suffix(n + 1);
+  }
   return zret;
 }
 
@@ -1472,7 +1473,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
-- 
2.43.0


From e1e75e9d5653c0e09be01761a37e0908d6f5a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 12/79] fix: TextView take_suffix takes a suffix of the
 requested size, take_suffix_if uses the predicate

---
 code/include/swoc/TextView.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 6125385..3f8130a 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1479,8 +1479,9 @@ TextView::split_suffix_if(F const &pred) {
 
 inline TextView
 TextView::take_suffix(size_t n) {
-  self_type zret{*this};
-  *this = zret.split_prefix(n);
+  n              = std::min(n, this->size());
+  self_type zret = this->suffix(n);
+  this->remove_suffix(n + 1);
   return zret;
 }
 
@@ -1491,18 +1492,18 @@ TextView::take_suffix(int n) {
 
 inline TextView
 TextView::take_suffix_at(char c) {
-  return this->take_suffix(this->rfind(c));
+  return this->take_suffix(this->size() - (this->rfind(c) + 1)); // all of the view if not found.
 }
 
 inline TextView
 TextView::take_suffix_at(std::string_view const &delimiters) {
-  return this->take_suffix(this->find_last_of(delimiters));
+  return this->take_suffix(this->size() - (this->find_last_of(delimiters) + 1)); // all of the view if not found.
 }
 
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  return this->take_suffix(this->size() - (this->rfind_if(pred) + 1)); // all of the view if not found.
 }
 
 template <typename F>
-- 
2.43.0


From f06c53b358284ee4c7263a160f8e4774acb58b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 13/79] fix: TextView clip_suffix_of clips the trailing
 characters that satisfy the predicate

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 3f8130a..7acde52 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1760,8 +1760,8 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t idx = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*--spot); ++idx)
     ; // empty
   TextView token = this->suffix(idx);
   this->remove_suffix(idx);
-- 
2.43.0


From 05bcea1d9ed1f2bd253e4f0d6534aca509536d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 14/79] fix: view comparison returns -1/0/1 and orders a prefix
 first, as documented

---
 code/src/string_view_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..0740c31 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -14,16 +14,16 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
 
   int r = ::memcmp(lhs.data(), rhs.data(), n);
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret;
 }
 
 int
@@ -33,15 +33,15 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
 
   int r = ::strncasecmp(lhs.data(), rhs.data(), n);
 
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret;
 }
-- 
2.43.0


From cf4debb815b08ef9e5b6da795d09b744c9f41c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 15/79] fix: the end of a TransformView is an empty range at
 the end of the source

---
 code/include/swoc/TextView.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 7acde52..0390147 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1861,7 +1861,7 @@ public:
   /// Iterator past last transformed character.
   iterator
   end() const {
-    return self_type{_xf, _limit};
+    return self_type{_xf, source_iterator{_limit}};
   }
 
 protected:
@@ -1870,7 +1870,7 @@ protected:
   source_iterator _limit; ///< End of source view.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  TransformView(transform_type &&xf, source_iterator &&limit) : _xf(xf), _spot(limit), _limit(limit) {}
+  TransformView(transform_type const &xf, source_iterator &&limit) : _xf(xf), _spot(limit), _limit(limit) {}
 };
 
 template <typename X, typename V>
@@ -2058,7 +2058,7 @@ TransformView<void, V>::begin() const -> self_type {
 template <typename V>
 auto
 TransformView<void, V>::end() const -> self_type {
-  return self_type{_limit};
+  return self_type{source_iterator{_limit}};
 }
 
 /// @cond INTERNAL_DETAIL
-- 
2.43.0


From f743b13395547361d966e6fe8961e64637eab97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 16/79] fix: assigning a null C string to a TextView makes it
 empty, as construction does

---
 code/include/swoc/TextView.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 0390147..2647488 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1196,14 +1196,12 @@ TextView::operator=(super_type const &that) -> self_type & {
 
 inline auto
 TextView::operator=(char *&s) -> self_type & {
-  this->super_type::operator=(s);
-  return *this;
+  return *this = self_type{s};
 }
 
 inline auto
 TextView::operator=(char const *&s) -> self_type & {
-  this->super_type::operator=(s);
-  return *this;
+  return *this = self_type{s};
 }
 
 inline auto
-- 
2.43.0


From d1a4f117c037c53b8d762c15ff9317819387e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 17/79] fix: assign of a null C string makes a TextView empty,
 as construction does

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 2647488..41045ea 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1212,12 +1212,12 @@ TextView::operator=(const std::string &s) -> self_type & {
 
 inline auto
 TextView::assign(char *&c_str) -> self_type & {
-  return this->assign(c_str, strlen(c_str));
+  return this->assign(c_str, npos);
 }
 
 inline auto
 TextView::assign(char const *&c_str) -> self_type & {
-  return this->assign(c_str, strlen(c_str));
+  return this->assign(c_str, npos);
 }
 
 inline auto
-- 
2.43.0


From abdfa0253a3e34f558e08c355e5366adad95aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 18/79] fix: Scalar rounding of negative values is up or down,
 not past the next unit or toward zero

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..fcd84bd 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -47,11 +47,11 @@ scale_conversion_round_up(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return c / R::num + (c % R::num > 0); // N is a multiple of S.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (c % R::num > 0);
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
@@ -62,11 +62,11 @@ scale_conversion_round_down(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return c / R::num - (c % R::num < 0); // N = k S
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num - (c % R::num < 0);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +104,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(_n / N + (_n % N > 0));
   }
 };
 
@@ -115,7 +115,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(_n / N - (_n % N < 0));
   }
 };
 
-- 
2.43.0


From 243d7dcc578111019594c1f07c4cbb700cd87686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 19/79] fix: adding and subtracting a rounded Scalar wrapper
 compiles

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index fcd84bd..95876df 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -732,25 +732,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -855,7 +855,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -867,7 +867,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
-- 
2.43.0


From fc899f8f72206f8d147ad4c933114609fe22955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 20/79] fix: Scalar plus and minus compile

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 95876df..f1aee43 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -988,13 +988,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From 403f259caaaf91589c504f21bca93332ac89a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 21/79] fix: multiplying a tagged int Scalar by an int is not
 ambiguous

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index f1aee43..eb926be 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -946,16 +946,16 @@ operator*(int n, Scalar<N, C, T> const &rhs) {
   return Scalar<N, C, T>(rhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(Scalar<N, int> const &lhs, int n) {
-  return Scalar<N, int>(lhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(Scalar<N, int, T> const &lhs, int n) {
+  return Scalar<N, int, T>(lhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(int n, Scalar<N, int> const &rhs) {
-  return Scalar<N, int>(rhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(int n, Scalar<N, int, T> const &rhs) {
+  return Scalar<N, int, T>(rhs) *= n;
 }
 
 template <intmax_t N, typename C, typename T>
-- 
2.43.0


From 9309d287121d8cf7a325cb5b690f2bb4b0915231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 22/79] fix: IntrusiveDList erase of a range compiles, updates
 the count and accepts an empty range

---
 code/include/swoc/IntrusiveDList.h | 44 ++++++++++++++++--------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..66dbf32 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -924,28 +924,32 @@ IntrusiveDList<L>::erase(const iterator &loc) -> iterator {
 template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
-  value_type *spot = first;
-  value_type *prev{L::prev_ptr(spot)};
-  if (prev) {
-    L::next_ptr(prev) = limit;
-  }
-  if (spot == _head) {
-    _head = limit;
-  }
-  // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
-    _tail = prev;
-  } else {
-    L::prev_ptr(limit) = prev;
+  value_type *spot = first._v;
+  value_type *stop = limit._v;
+  if (spot != stop) {
+    value_type *prev{L::prev_ptr(spot)};
+    if (prev) {
+      L::next_ptr(prev) = stop;
+    }
+    if (spot == _head) {
+      _head = stop;
+    }
+    // tail is only updated if @a limit is @a end (e.g., @c nullptr).
+    if (nullptr == stop) {
+      _tail = prev;
+    } else {
+      L::prev_ptr(stop) = prev;
+    }
+    // Clear links in removed elements.
+    while (spot != stop) {
+      value_type *target{spot};
+      spot                = L::next_ptr(spot);
+      L::prev_ptr(target) = L::next_ptr(target) = nullptr;
+      --_count;
+    };
   }
-  // Clear links in removed elements.
-  while (spot != limit) {
-    value_type *target{spot};
-    spot                = L::next_ptr(spot);
-    L::prev_ptr(target) = L::next_ptr(target) = nullptr;
-  };
 
-  return {limit._v, this};
+  return this->iterator_for(stop);
 }
 
 template <typename L>
-- 
2.43.0


From bf0a8c58e28956a31b93503b717fd6483c12a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 23/79] fix: MemArena localize_c reads only the source and
 excludes the nul from the view

---
 code/include/swoc/MemArena.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..dca3f8a 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -684,9 +684,9 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0


From b153ca6ca63b034127c09dfa3a1846b4ac805d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 24/79] fix: MemArena sized remnants are aligned and of exactly
 the requested size

---
 code/include/swoc/MemArena.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index dca3f8a..49b72c4 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -696,8 +696,7 @@ inline MemSpan<char> MemArena::localize_c(char const * s) {
 template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
-  auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  return this->remnant(sizeof(T) * n, alignof(T)).rebind<T>();
 }
 
 template <>
@@ -708,7 +707,8 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  return span.remove_prefix(Block::align_padding(span.data(), align)).prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From 8b562eafe55141fba28fc867445d1f3479674f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 25/79] fix: MemArena allocates a block large enough for
 strictly aligned requests

---
 code/src/MemArena.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..bec748a 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -7,6 +7,7 @@
  */
 #include "swoc/MemArena.h"
 #include <algorithm>
+#include <cstddef>
 
 namespace swoc { inline namespace SWOC_VERSION_NS {
 
@@ -162,7 +163,8 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    // A new block is aligned for any fundamental type, allow for padding for a stricter alignment.
+    block = this->make_block(align > alignof(std::max_align_t) ? n + align : n);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From 98589e29cc5ac5b3a655ef3cb8f2f81fe2a5fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 26/79] fix: MemArena move assignment moves the static block
 marker so the static block is not freed

---
 code/src/MemArena.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index bec748a..ce0390b 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -67,6 +67,9 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_reserve_hint, that._reserve_hint);
   _active = std::move(that._active);
   _frozen = std::move(that._frozen);
+  // The static block belongs to neither arena, but must not be deleted by the one that has it.
+  _static_block      = that._static_block;
+  that._static_block = nullptr;
   return *this;
 }
 
-- 
2.43.0


From 4602870b02cc60cba828092af80146215ac374d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 27/79] fix: MemArena thaw leaves a static block in use alone

---
 code/src/MemArena.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index ce0390b..90af3cd 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -137,7 +137,7 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  if (_static_block && !_active.contains(_static_block)) { // not if still in use.
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From 1ab489666cca9f50ddafe3e5c0c10af60bfc95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 28/79] fix: MemArena reports allocation failure instead of
 using a null block

---
 code/src/MemArena.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 90af3cd..7253c05 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -98,9 +98,13 @@ MemArena::make_block(size_t n) {
   // Allocate space for the Block instance and the request memory and construct a Block at the front.
   // In theory this could use ::operator new(n) but this causes a size mismatch during ::operator delete.
   // Easier to use malloc and override @c delete.
-  auto free_space   = n - sizeof(Block);
+  auto free_space = n - sizeof(Block);
+  auto space      = ::malloc(n);
+  if (nullptr == space) {
+    throw std::bad_alloc{};
+  }
   _active_reserved += free_space;
-  return new (::malloc(n)) Block(free_space);
+  return new (space) Block(free_space);
 }
 
 MemSpan<void>
-- 
2.43.0


From 3fa2a304fa48d428d50332dbfdbf3b473c4f47ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 29/79] fix: MemArena block sizes are not limited to 31 bits

---
 code/include/swoc/MemArena.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 49b72c4..d7618ae 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -473,9 +473,9 @@ protected:
   /// Clean up the active list
   void destroy_active();
 
-  using Page        = Scalar<4096>;            ///< Size for rounding block sizes.
-  using QuarterPage = Scalar<Page::SCALE / 4>; ///< Quarter page - unit for sub page sizes.
-  using Paragraph   = Scalar<16>;              ///< Minimum unit of memory allocation.
+  using Page        = Scalar<4096, size_t>;            ///< Size for rounding block sizes.
+  using QuarterPage = Scalar<Page::SCALE / 4, size_t>; ///< Quarter page - unit for sub page sizes.
+  using Paragraph   = Scalar<16, size_t>;              ///< Minimum unit of memory allocation.
 
   static constexpr size_t ALLOC_HEADER_SIZE = 16; ///< Guess of overhead of @c malloc
   /// Initial block size to allocate if not specified via API.
-- 
2.43.0


From de040ef0d312b1c92c69d018720eb5c80b10004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:07 +0000
Subject: [PATCH 30/79] fix: DiscreteRange relationship, has_union and
 operator^ use the existing intersection test

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..7becebf 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -464,7 +464,7 @@ template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -568,7 +568,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -644,7 +644,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From 78a9f80c8229a992328e5de576f75cb885b32560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:07 +0000
Subject: [PATCH 31/79] fix: an empty DiscreteRange intersects nothing

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7becebf..5ca1366 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -581,7 +581,7 @@ DiscreteRange<T>::operator&=(DiscreteRange::self_type const &that) {
 template <typename T>
 bool
 DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) const {
-  return (that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max);
+  return !this->intersection(that).empty();
 }
 
 template <typename T>
-- 
2.43.0


From 4522cec1ce8b1bdbce32057456bc5718ab5cc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 32/79] fix: DiscreteRange left_edge_relationship uses the left
 edge

---
 code/include/swoc/DiscreteRange.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 5ca1366..58470a4 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,10 +454,11 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    metric_type max(_max); // some built in integer types don't support increment on rvalues.
+    return ++max < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return _min > that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
-- 
2.43.0


From 363d78dbdadf2382f51dfc87faa2eeb2285246b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:49 +0000
Subject: [PATCH 33/79] fix: DiscreteSpace lower_bound and upper_bound compile

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 58470a4..f665ea3 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1171,14 +1171,14 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::lower_bound(METRIC const &m) -> iterator {
   auto n = this->lower_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::upper_bound(METRIC const &m) -> iterator {
   auto n = this->upper_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
-- 
2.43.0


From 4b2b45d164cc07920a43ecfc69beb558c13a540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 34/79] fix: DiscreteSpace blend extends the previous range
 only if adjacent

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index f665ea3..a42bbba 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1666,7 +1666,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
     if (plain_color_p && remaining.min() < n->min()) {
       if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
+        if (pred && pred->range().is_left_adjacent_to(remaining) && pred->payload() == n->payload()) {
           auto pred_min{pred->min()};
           this->remove(pred);
           n->assign_min(pred_min);
@@ -1676,7 +1676,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       } else {
         auto n_min_minus_1{n->min()};
         --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
+        if (pred && pred->range().is_left_adjacent_to(remaining) && pred->payload() == plain_color) {
           pred->assign_max(n_min_minus_1);
         } else {
           this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-- 
2.43.0


From 24f6499469cee696f6237bdc63e5e74bbf3d52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 35/79] fix: DiscreteSpace blend up to the maximum metric value
 does not wrap

---
 code/include/swoc/DiscreteRange.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index a42bbba..b867df0 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1604,6 +1604,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
           }
           n = fn; // skip to use new node as current node.
         }
+        if (n->max() == detail::maximum<METRIC>()) {
+          return *this; // nothing past @a n.
+        }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
@@ -1691,7 +1694,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
     bool fill_p = blender(fill->payload(), color); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
-    remaining.assign_min(++METRIC{fill->max()});   // Update what is left to fill.
+    if (fill->max() == detail::maximum<METRIC>()) {
+      remaining.clear(); // nothing past @a fill.
+    } else {
+      remaining.assign_min(++METRIC{fill->max()}); // Update what is left to fill.
+    }
 
     // Clean up the range for @a n
     if (fill_p) {
-- 
2.43.0


From 377cfe0705e79071f940b52f2136a12317391cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 36/79] fix: DiscreteSpace blend releases the unused node

---
 code/include/swoc/DiscreteRange.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index b867df0..382ed37 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1611,7 +1611,6 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
         if (n_r.max() > remaining.max()) {             // overhang on the right, must split.
-          fill.release();                              // not going to use it,
           n->assign_min(++metric_type(remaining.max()));
           this->insert_before(n, _fa.make(n_r.min(), --metric_type(remaining.min()), n->payload()));
           return *this;
-- 
2.43.0


From d10d0bc364901847a6ce4c25ecd96daa90c80de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 37/79] fix: DiscreteSpace blend leaves unmapped values alone
 if the plain color is not valid

---
 code/include/swoc/DiscreteRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 382ed37..e8e106b 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1646,7 +1646,8 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p =
+        plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
-- 
2.43.0


From a2ad3954a8a6ffa948266d35a1a0849de985c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:13 +0000
Subject: [PATCH 38/79] fix: DiscreteSpace erase of a range that starts before
 the first range

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index e8e106b..473f348 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1276,6 +1276,9 @@ template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) {                      // no range starts at or before @a range.
+    n = this->head();
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From 0dd263084e301548f2c7736ba61aaebfabe2b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:19 +0000
Subject: [PATCH 39/79] fix: DiscreteSpace blend does not blend twice in a gap

---
 code/include/swoc/DiscreteRange.h | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 473f348..23d903e 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1671,22 +1671,13 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->range().is_left_adjacent_to(remaining) && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      // Don't extend @a n even if the color matches - the overlap must still be blended, the gap must not.
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && pred->range().is_left_adjacent_to(remaining) && pred->payload() == plain_color) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->range().is_left_adjacent_to(remaining) && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
@@ -1711,7 +1702,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
       if (right_ext_p) {
         if (n->payload() == fill->payload()) {
-          n->assign_min(fill->min());
+          if (pred_adj_p) { // same color on the left, collapse.
+            auto pred_min{pred->min()};
+            this->remove(pred);
+            n->assign_min(pred_min);
+          }
         } else {
           n->assign_min(range_max_plus_1);
           if (pred_adj_p) {
-- 
2.43.0


From 4c02209ee1abb0df3311512a91269ee791594812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 40/79] fix: DiscreteSpace blend merges with the following
 range of the same payload

---
 code/include/swoc/DiscreteRange.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 23d903e..0d11a43 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1647,6 +1647,14 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     // It may be possible to extend @a n or the previous range to cover
     // the target range. Regardless, all of @a range can be filled at this point.
     if (!right_overlap_p) {
+      if (remaining.empty()) { // everything is done, except the last fill may touch @a n in the same color.
+        if (pred && pred->range().is_left_adjacent_to(n->range()) && pred->payload() == n->payload()) {
+          auto pred_min = pred->min();
+          this->remove(pred);
+          n->assign_min(pred_min);
+        }
+        return *this;
+      }
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
       bool pred_plain_colored_p =
-- 
2.43.0


From 0397452deaf57e66d110f37a98b2ab4592693bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 41/79] fix: Vectray fixed storage span covers only the
 constructed elements

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..d759241 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -263,7 +263,7 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return MemSpan<T>(this->data(), _count);
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From a17065ea4d66474878076fc925d467bf914d4c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 42/79] fix: Vectray fixed storage is aligned for the element
 type

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index d759241..bb9ecc3 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -52,7 +52,7 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
     size_t _count = 0;                         ///< Number of valid elements.
     allocator_type _a;                         ///< Allocator instance - used for construction.
 
-- 
2.43.0


From 21ba5c9458a0d20b3c42689fe5be12d3fe98a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 43/79] fix: Vectray constant access, data and pop_back compile

---
 code/include/swoc/Vectray.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index bb9ecc3..5bc2e80 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -39,10 +39,10 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
 
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
-  using reference       = std::remove_reference<T> &;                ///< Reference to element.
-  using const_reference = std::remove_reference<T> const &;          ///< Reference to constant element.
-  using pointer         = std::remove_reference<T> *;                ///< Pointer to element.
-  using const_pointer   = std::remove_reference<T> const *;          ///< Pointer to constant element.
+  using reference       = std::remove_reference_t<T> &;                ///< Reference to element.
+  using const_reference = std::remove_reference_t<T> const &;          ///< Reference to constant element.
+  using pointer         = std::remove_reference_t<T> *;                ///< Pointer to element.
+  using const_pointer   = std::remove_reference_t<T> const *;          ///< Pointer to constant element.
   using allocator_type  = A;                                         ///< Dynamic storage allocator.
   using size_type       = typename vector_type::size_type;           ///< Type for element count.
   using difference_type = typename vector_type::difference_type;     ///< Iterator difference.
@@ -275,7 +275,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -287,7 +287,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -341,7 +341,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
@@ -404,7 +404,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return const_span(fs.data(), fs._count); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -412,14 +412,14 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }},
                     _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
                     _store);
 }
 
-- 
2.43.0


From f038039b8d19d73573738e0e9568ae1951a9896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 44/79] fix: Vectray copies and moves of fixed storage
 construct the elements

---
 code/include/swoc/Vectray.h | 62 +++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 5bc2e80..f63062b 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -12,6 +12,8 @@
 #include <vector>
 #include <variant>
 #include <new>
+#include <memory>
+#include <type_traits>
 #include <cstddef>
 
 #include <swoc/MemSpan.h>
@@ -64,8 +66,20 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    /// Copy construct - each element is copy constructed.
+    FixedStore(FixedStore const &that);
+    /// Move construct - each element is move constructed.
+    FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+    /// Copy assign - existing elements are destroyed and the new ones copy constructed.
+    FixedStore &operator=(FixedStore const &that);
+    /// Move assign - existing elements are destroyed and the new ones move constructed.
+    FixedStore &operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+
     ~FixedStore();
 
+    /// Destroy all elements.
+    void clear();
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -90,6 +104,11 @@ public:
   /// @internal The internal store takes care of the details.
   ~Vectray() = default;
 
+  Vectray(self_type const &that)              = default; ///< Copy constructor.
+  Vectray(self_type &&that)                   = default; ///< Move constructor.
+  self_type &operator=(self_type const &that) = default; ///< Copy assignment.
+  self_type &operator=(self_type &&that)      = default; ///< Move assignment.
+
   /// Construct empty instance with allocator.
   constexpr explicit Vectray(allocator_type const &a) : _store(std::in_place_type_t<FixedStore>{}, a) {}
 
@@ -254,9 +273,48 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : _a(that._a) {
+  *this = that;
+}
+
+template <typename T, size_t N, class A>
+Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) : _a(that._a) {
+  *this = std::move(that);
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (; _count < that._count; ++_count) {
+      new (this->data() + _count) T(that.data()[_count]);
+    }
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (; _count < that._count; ++_count) {
+      new (this->data() + _count) T(std::move(that.data()[_count]));
+    }
+  }
+  return *this;
+}
+
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
-  for (auto &item : this->span()) {
-    std::destroy_at(std::addressof(item));
+  this->clear();
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
+  while (_count > 0) {
+    std::destroy_at(this->data() + --_count);
   }
 }
 
-- 
2.43.0


From be85daa922b6c3fcd646db91c02675420534472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 45/79] fix: Vectray can append a copy of its own element

---
 code/include/swoc/Vectray.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index f63062b..2428598 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -355,8 +355,9 @@ Vectray<T, N, A>::push_back(const T &t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
                                 } else {
+                                  T tmp(t); // @a t may be an element, which is moved by the transfer.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(t); }},
@@ -371,8 +372,9 @@ Vectray<T, N, A>::push_back(T &&t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
                                 } else {
+                                  T tmp(std::move(t)); // @a t may be an element, which is moved by the transfer.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
@@ -390,7 +392,10 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
       new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
       return *this;
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+    T tmp(std::forward<Args>(args)...); // @a args may refer to elements, which are moved by the transfer.
+    this->transfer();
+    std::get<DYNAMIC>(_store).emplace_back(std::move(tmp));
+    return *this;
   }
   std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
-- 
2.43.0


From fcd531595f979f832a9ea527786b243b5f90c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 46/79] fix: Vectray move from a different fixed size

---
 code/include/swoc/Vectray.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 2428598..0f55338 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -39,6 +39,8 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
   using self_type   = Vectray;           ///< Self reference type.
   using vector_type = std::vector<T, A>; ///< Internal dynamic storage type.
 
+  template <typename U, size_t M, class B> friend class Vectray; // conversion between fixed storage sizes.
+
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
   using reference       = std::remove_reference_t<T> &;                ///< Reference to element.
@@ -264,11 +266,9 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
     auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    this->reserve(span.size());
+    for (auto &&item : span) {
+      this->emplace_back(std::move(item));
     }
   }
 }
-- 
2.43.0


From ba55bf799ce70dc1ea398e33ec69afe5f569d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 47/79] fix: Vectray constructors with an allocator

---
 code/include/swoc/Vectray.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 0f55338..e3d18da 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -253,7 +253,7 @@ protected:
 
 template <typename T, size_t N, typename A> Vectray<T, N, A>::Vectray() {}
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray() {
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray(alloc) {
   this->reserve(n);
   while (n-- > 0) {
     this->emplace_back();
@@ -273,6 +273,14 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(self_type &&that, allocator_type const &a) : Vectray(a) {
+  if (DYNAMIC == that._store.index()) {
+    _store = DynamicStore(std::move(std::get<DYNAMIC>(that._store)), a);
+  } else {
+    std::get<FIXED>(_store) = std::move(std::get<FIXED>(that._store));
+  }
+}
+
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : _a(that._a) {
   *this = that;
 }
-- 
2.43.0


From 8a307508a0ad05cb9b85e0d72059f21f08116aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 48/79] fix: IntrusiveHashMap erase counts every removed
 element

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..231788b 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -555,6 +555,8 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
       b->_v = nv;
       --b->_count;
     }
+  } else {
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
-- 
2.43.0


From 0955b89ab5ef9a74d5f54cc25b627a75fe9e31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 49/79] fix: IntrusiveHashMap erase of a range

---
 code/include/swoc/IntrusiveHashMap.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 231788b..e093f4e 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -576,22 +576,11 @@ IntrusiveHashMap<H>::erase(value_type *value) {
 template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
-  auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
+  iterator spot{start};
   while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
-    }
+    spot = this->erase(spot);
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return spot;
 };
 
 template <typename H>
-- 
2.43.0


From d7f564f0c31132aef1aed7f61afda2266942fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 50/79] fix: IntrusiveHashMap constant equal_range

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index e093f4e..ac122b2 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -367,6 +367,8 @@ IntrusiveHashMap<H>::range::end() const -> iterator const & {
   return super_type::second;
 }
 
+template <typename H> IntrusiveHashMap<H>::const_range::const_range(range const &r) : super_type(r) {}
+
 template <typename H>
 auto
 IntrusiveHashMap<H>::const_range::begin() const -> const_iterator const & {
-- 
2.43.0


From 45a9c7b2ddd4c5a9675dfa7eba9f01c101bdc10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 51/79] fix: IntrusiveHashMap bucket count is always one of the
 primes

---
 code/include/swoc/IntrusiveHashMap.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index ac122b2..bf41fff 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -384,9 +384,8 @@ IntrusiveHashMap<H>::const_range::end() const -> const_iterator const & {
 // ---------------------
 
 template <typename H> IntrusiveHashMap<H>::IntrusiveHashMap(size_t n) {
-  if (n) {
-    _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), n));
-  }
+  // There must be at least one bucket, and no more than the largest prime.
+  _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end() - 1, n));
 }
 
 template <typename H>
@@ -634,7 +633,7 @@ IntrusiveHashMap<H>::expand() {
 
   // Reset to empty state.
   this->clear();
-  _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), old_size + 1));
+  _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end() - 1, old_size + 1));
 
   _expansion_policy = MANUAL; // disable any auto expand while we're expanding.
   while (old) {
-- 
2.43.0


From 14aae9b4dd110ed658095ce134eeecf5c4e48486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 52/79] fix: IPAddr order puts IPv4 before IPv6

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..c71109a 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -588,7 +588,7 @@ IPAddr::operator<(self_type const &that) const {
   } else if (AF_INET6 == _family) {
     switch (that._family) {
     case AF_INET:
-      return true;
+      return false;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From 8b25df01e6727f909c9699fa72472f86e561f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 53/79] fix: IP6Range assign with an invalid mask is the
 address

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index c71109a..7743e87 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1060,7 +1060,7 @@ IP6Range::assign(IP6Addr const &addr, IPMask const &mask) {
     _min._addr._store[0] = _max._addr._store[0] = addr._addr._store[0];
     _min._addr._store[1]                        = 0;
     _max._addr._store[1]                        = FULL_MASK;
-  } else if (cidr <= 128) { // _min bytes changed, _max bytes unaffected.
+  } else { // _min bytes changed, _max bytes unaffected.
     _min = _max = addr;
     if (cidr < 128) {
       auto bits             = FULL_MASK << (128 - cidr);
-- 
2.43.0


From 146cac05c3d7d28a92d96332b0a275380d159b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 54/79] fix: IP6Addr shifts by zero and by the full width or
 more are defined

---
 code/src/swoc_ip.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 7743e87..0b77eff 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -373,13 +373,16 @@ IP6Addr::cmp(const self_type &that) const {
 IP6Addr &
 IP6Addr::operator<<=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
+  if (n == 0) {
+    return *this;
+  }
   if (n < WORD_WIDTH) {
     _addr._store[MSW] <<= n;
     _addr._store[MSW]  |= (_addr._store[LSW] >> (WORD_WIDTH - n)) & ~(MASK << n);
     _addr._store[LSW] <<= n;
   } else {
     n                 -= WORD_WIDTH;
-    _addr._store[MSW]  = _addr._store[LSW] << n;
+    _addr._store[MSW]  = n < WORD_WIDTH ? _addr._store[LSW] << n : 0;
     _addr._store[LSW]  = 0;
   }
   return *this;
@@ -388,13 +391,16 @@ IP6Addr::operator<<=(unsigned int n) {
 IP6Addr &
 IP6Addr::operator>>=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
+  if (n == 0) {
+    return *this;
+  }
   if (n < WORD_WIDTH) {
     _addr._store[LSW] >>= n;
     _addr._store[LSW]  |= (_addr._store[MSW] & ~(MASK << n)) << (WORD_WIDTH - n);
     _addr._store[MSW] >>= n;
   } else {
     n                 -= WORD_WIDTH;
-    _addr._store[LSW]  = _addr._store[MSW] >> n;
+    _addr._store[LSW]  = n < WORD_WIDTH ? _addr._store[MSW] >> n : 0;
     _addr._store[MSW]  = 0;
   }
   return *this;
-- 
2.43.0


From 06e8ab9f1cc091ca3bee69667caf8b3b5e787c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 55/79] fix: IPEndpoint assigned from an invalid address or
 service is invalid

---
 code/src/swoc_ip.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 0b77eff..0eaa06c 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -99,6 +99,9 @@ IPEndpoint::assign(IPAddr const &src) {
     sa6.sin6_addr   = src.ip6().network_order();
     Set_Sockaddr_Len(&sa6);
   } break;
+  default:
+    this->invalidate();
+    break;
   }
   return *this;
 }
@@ -109,6 +112,8 @@ IPEndpoint::assign(IPAddr const &addr, in_port_t port) {
     this->assign(IP4Srv(addr.ip4(), port));
   } else if (addr.is_ip6()) {
     this->assign(IP6Srv(addr.ip6(), port));
+  } else {
+    this->invalidate();
   }
   return *this;
 }
@@ -140,7 +145,7 @@ IPEndpoint::assign(IPSrv const &srv) {
   } else if (srv.is_ip6()) {
     return this->assign(srv.ip6());
   }
-  return *this;
+  return this->invalidate();
 }
 
 bool
-- 
2.43.0


From 60bfa4f9c89b8b5a7f46c76fdbf55bd3bd366a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 56/79] fix: IP4Addr load strips matched brackets

---
 code/src/swoc_ip.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 0eaa06c..6babd92 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -309,7 +309,13 @@ IP4Addr::load(std::string_view const &text) {
 
   // empty or trailing dot or empty brackets or unmatched brackets.
   src.trim_if(&isspace);
-  if (src.empty() || src.back() == '.' || ('[' == *src && ((++src).empty() || src.back() != ']'))) {
+  if (src && '[' == *src) {
+    if ((++src).empty() || src.back() != ']') {
+      return false;
+    }
+    src.remove_suffix(1);
+  }
+  if (src.empty() || src.back() == '.') {
     return false;
   }
 
-- 
2.43.0


From a298d5518c15b62c0d7da8c5fc727d0143ab5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 57/79] fix: IP4Addr load rejects missing octets

---
 code/src/swoc_ip.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6babd92..dca9721 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -324,8 +324,8 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
-      break;
+    if (token.empty() || parsed.size() != token.size()) {
+      break; // missing or invalid number.
     }
     if (src.empty()) {
       if (v <= max) {
-- 
2.43.0


From 79ab6a3fb22b7b42faddd30788c86e3840cf3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 58/79] fix: IP6Addr load rejects invalid quads

---
 code/src/swoc_ip.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index dca9721..dbf5b7f 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -482,11 +482,12 @@ IP6Addr::load(std::string_view const &str) {
       empty_idx = n;
     } else {
       TextView r;
-      auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
+      auto x = svtou(token, &r, 16);
+      if (r.size() == token.size() && x <= QUAD_MASK) {
         quad[QUAD_IDX[n++]] = x;
       } else {
-        break;
+        this->clear();
+        return false;
       }
     }
   }
-- 
2.43.0


From 58078a886a564802d7c4c8738f5ed4ba1320a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 59/79] fix: IP6Addr load rejects a trailing colon

---
 code/src/swoc_ip.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index dbf5b7f..0c3675c 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -451,6 +451,11 @@ IP6Addr::load(std::string_view const &str) {
     return false;
   }
 
+  // A trailing ':' must be the end of "::".
+  if (src.back() == ':' && src[src.size() - 2] != ':') {
+    return false;
+  }
+
   // If the first character is ':' then it is an error for it not to be followed by another ':'.
   // Special case the empty address and loopback, otherwise just make a note of the leading '::'.
   if (src[0] == ':') {
-- 
2.43.0


From 3981a399960531e4d1e50b7febb3d9dcd35abff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 60/79] fix: IP6Addr load clears on every failure

---
 code/src/swoc_ip.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 0c3675c..261c201 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -438,6 +438,8 @@ IP6Addr::load(std::string_view const &str) {
   int empty_idx = -1;
   auto quad     = _addr._quad.data();
 
+  this->clear();
+
   src.trim_if(&isspace);
   if (src && '[' == *src) {
     ++src;
@@ -482,6 +484,7 @@ IP6Addr::load(std::string_view const &str) {
     TextView token{src.take_prefix_at(':')};
     if (token.empty()) {
       if (empty_idx >= 0) { // two instances of "::", fail.
+        this->clear();
         return false;
       }
       empty_idx = n;
@@ -507,6 +510,7 @@ IP6Addr::load(std::string_view const &str) {
       }
       n = N_QUADS; // Mark success.
     } else {
+      this->clear();
       return false; // too many quads - full set plus empty.
     }
   }
-- 
2.43.0


From 2eacddbc83eb24d4f3964546a81e488ad16415ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 61/79] fix: IPMask load does not truncate

---
 code/src/swoc_ip.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 261c201..58de386 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -689,11 +689,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
+  auto n = swoc::svtou(text, &parsed);
+  if (text.empty() || parsed.size() != text.size() || n > IP6Addr::WIDTH) {
     _cidr = 0;
     return false;
   }
+  _cidr = n;
   return true;
 }
 
-- 
2.43.0


From 9ea1fa3fec5aee6b3afdb2c1d80cb3e6e4728039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 62/79] fix: IPv4 networks and ranges have at most 32 mask bits

---
 code/src/swoc_ip.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 58de386..10038ca 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -879,7 +879,7 @@ bool
 IP4Net::load(TextView text) {
   if (auto mask_text = text.split_suffix_at('/'); !mask_text.empty()) {
     IPMask mask;
-    bool mask_p = mask.load(mask_text);
+    bool mask_p = mask.load(mask_text) && mask.width() <= IP4Addr::WIDTH;
     if (IP4Addr addr; addr.load(text)) {
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
@@ -939,6 +939,7 @@ IPNet::load(TextView text) {
         return true;
       }
     } else if (IP4Addr a4; a4.load(text)) {
+      mask_p = mask_p && mask.width() <= IP4Addr::WIDTH;
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
           mask   = IPMask::mask_for(m);
@@ -989,7 +990,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= IP4Addr::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From 12b01cf32cca7f475cba7593633dc2e6ad4660d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 63/79] fix: IPEndpoint tokenize does not read past the text

---
 code/src/swoc_ip.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 10038ca..757f97d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -173,10 +173,10 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
     bool colon_p = false;
     src.ltrim_if(&isspace);
     // Check for brackets.
-    if ('[' == *src) {
+    if (src && '[' == *src) {
       ++src; // skip bracket.
       *addr = src.take_prefix_at(']');
-      if (':' == *src) {
+      if (src && ':' == *src) {
         colon_p = true;
         ++src;
       }
-- 
2.43.0


From aa30eadbf87d3d677a655df892f2023dc31b79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 64/79] fix: IPRange load marks the range invalid on failure

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 757f97d..f098f30 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1148,6 +1148,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From 6b7c0706ccd763eecd28678e2fd0b07fc357f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 65/79] fix: IPRange contains uses the family of the range

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..6cc756f 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2007,7 +2007,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From c7e59441ffb4934519da26f534e80396a9af2da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 66/79] fix: IPRange assigned from an invalid view is invalid

---
 code/include/swoc/IPRange.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 6cc756f..b3a9835 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -1931,6 +1931,8 @@ IPRange::operator=(const IPRangeView &rv) -> self_type & {
     *this = *rv._raw._4;
   } else if (AF_INET6 == rv._family) {
     *this = *rv._raw._6;
+  } else {
+    this->clear();
   }
   return *this;
 }
-- 
2.43.0


From 2193c4efcd3480d9c75d5959b9e45366f8e322bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 67/79] fix: bwf Spec character properties of negative
 characters

---
 code/include/swoc/bwf_base.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..35ab202 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -474,37 +474,37 @@ extern ExternalNames Global_Names;
 
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_numeric_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_upper_case_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
-- 
2.43.0


From 8471375cf183ced8ffb298e7534e90997b8e1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 68/79] fix: bwformat of the minimum signed value

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 35ab202..78bc658 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = 0 - n; // unsigned negation, well defined for the minimum value.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From 51ab68c5af791fba90b7c62ed113d6b71666cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 69/79] fix: bwf Spec parse does not read past a trailing 0
 fill

---
 code/src/bw_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..2aa9d66 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -127,7 +127,9 @@ Spec::parse(TextView fmt) {
           _align = Align::SIGN;
         }
         _fill = '0';
-        ++sz;
+        if (!(++sz).size()) {
+          return true;
+        }
       }
       num = sz;
       n   = svto_radix<10>(num);
-- 
2.43.0


From f010ef274b6a30e716bd883306a427c3b880d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 70/79] fix: bwf Date with an empty format

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2aa9d66..6c02b4d 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -855,7 +855,7 @@ BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
   if (spec.has_numeric_type()) {
     bwformat(w, spec, date._epoch);
-  } else {
+  } else if (!date._fmt.empty()) { // nothing to write for an empty format.
     struct tm t {};
     auto r = w.remaining();
     size_t n{0};
-- 
2.43.0


From 5fe7bf93950b6a843be0220fba268f40b5a2781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 71/79] fix: short name of E2BIG

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 6c02b4d..c2cccaf 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -751,7 +751,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
-- 
2.43.0


From 68949c3a568fb859171cfaa5b397730c7f50c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 72/79] fix: IPAddr family is printed as its name

---
 code/src/bw_ip_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_ip_format.cc b/code/src/bw_ip_format.cc
index 2fd66fb..25cb07c 100644
--- a/code/src/bw_ip_format.cc
+++ b/code/src/bw_ip_format.cc
@@ -289,7 +289,7 @@ bwformat(BufferWriter &w, Spec const &spec, IPAddr const &addr) {
     if (spec.has_numeric_type()) {
       bwformat(w, local_spec, static_cast<uintmax_t>(addr.family()));
     } else {
-      swoc::bwformat(w, local_spec, addr.family());
+      swoc::bwformat(w, local_spec, IPEndpoint::family_name(addr.family()));
     }
   }
   return w;
-- 
2.43.0


From 7c5f7f54c7e1ced4e57a283ee32be6c37fa633e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 73/79] fix: IPSrv constructed from a service keeps the port

---
 code/include/swoc/IPSrv.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/include/swoc/IPSrv.h b/code/include/swoc/IPSrv.h
index d4f245b..99652e6 100644
--- a/code/include/swoc/IPSrv.h
+++ b/code/include/swoc/IPSrv.h
@@ -232,6 +232,10 @@ public:
   explicit IPSrv(IP6Addr addr, in_port_t port = 0) : _srv(IP6Srv{addr, port}), _family(addr.family()) {}
   /// Construct from generic address and port.
   explicit IPSrv(IPAddr addr, in_port_t port = 0);
+  /// Construct from IPv4 service.
+  explicit IPSrv(IP4Srv const &that) : _srv(that), _family(that.family()) {}
+  /// Construct from IPv6 service.
+  explicit IPSrv(IP6Srv const &that) : _srv(that), _family(that.family()) {}
   /// Construct from socket address.
   explicit IPSrv(sockaddr const *sa);
   /// Construct IPv4 service from socket address.
-- 
2.43.0


From f6de224edf4aa8034713caa6fd1eff64575cd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 74/79] fix: short name of EL2HLT

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index c2cccaf..92643d4 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -773,7 +773,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From eada35cff48b153393c3c7b0b9f8a9da0a27cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 75/79] fix: copying a socket address to itself reports whether
 it is an IP address

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index f098f30..d951530 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -63,7 +63,7 @@ IPEndpoint::assign(sockaddr *dst, sockaddr const *src) {
       memcpy(dst, src, n);
     }
   }
-  return n != 0;
+  return dst->sa_family == AF_INET || dst->sa_family == AF_INET6;
 }
 
 IPEndpoint &
-- 
2.43.0


From 50df6186874932e01310d102e88b0528b51bc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 76/79] fix: keep leading zeros and carry when formatting the
 fraction of a float

---
 code/src/bw_format.cc | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 92643d4..5b75911 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -6,10 +6,12 @@
     Formatted output for BufferWriter.
  */
 
+#include <algorithm>
 #include <array>
 #include <cctype>
 #include <chrono>
 #include <cmath>
+#include <cstring>
 #include <ctime>
 #include <cmath>
 #include <sys/param.h>
@@ -533,12 +535,12 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return Format_Integer(w, spec, whole_part, negative_p);
   }
 
-  static constexpr char dec = '.';
-  double frac               = NAN;
-  size_t l                  = 0;
-  size_t r                  = 0;
-  char whole[std::numeric_limits<double>::digits10 + 1];
-  char fraction[std::numeric_limits<double>::digits10 + 1];
+  static constexpr char dec            = '.';
+  static constexpr unsigned MAX_DIGITS = std::numeric_limits<uint64_t>::digits10; // number of digits that always fit.
+  double frac                          = NAN;
+  size_t l                             = 0;
+  char whole[MAX_DIGITS + 1];
+  char fraction[MAX_DIGITS + 1];
   char neg               = 0;
   int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
@@ -553,20 +555,26 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
 
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
-  uint64_t shift = 0;
-  if (precision < POWERS_OF_TEN.size()) {
-    shift = POWERS_OF_TEN[precision];
+  uint64_t shift  = 0;
+  unsigned digits = std::min(precision, MAX_DIGITS); // any places past this are written as zeros.
+  if (digits < POWERS_OF_TEN.size()) {
+    shift = POWERS_OF_TEN[digits];
   } else { // not precomputed.
     shift = POWERS_OF_TEN.back();
-    for (precision -= (POWERS_OF_TEN.size() - 1); precision > 0; --precision) {
+    for (unsigned n = digits - (POWERS_OF_TEN.size() - 1); n > 0; --n) {
       shift *= 10;
     }
   }
 
   auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+  if (frac_part >= shift) { // rounded up to the next whole number.
+    frac_part -= shift;
+    ++whole_part;
+  }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
-  r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
+  memset(fraction, '0', sizeof(fraction)); // leading zeros in the fraction are significant.
+  bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
 
   // Clip fill width
   if (neg) {
@@ -574,10 +582,10 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
   width -= static_cast<int>(l);
   --width; // '.'
-  width -= static_cast<int>(r);
+  width -= static_cast<int>(precision);
 
   std::string_view whole_digits{whole + sizeof(whole) - l, l};
-  std::string_view frac_digits{fraction + sizeof(fraction) - r, r};
+  std::string_view frac_digits{fraction + sizeof(fraction) - digits, digits};
 
   Write_Aligned(
     w,
@@ -585,6 +593,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       w.write(whole_digits);
       w.write(dec);
       w.write(frac_digits);
+      for (unsigned n = digits; n < precision; ++n) {
+        w.write('0');
+      }
     },
     spec._align, width, spec._fill, neg);
 
-- 
2.43.0


From 19dd7587bb891485af32250964611b0887257aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 77/79] fix: format a float that is too large for an integer
 type

---
 code/src/bw_format.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 5b75911..02a029a 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -11,6 +11,7 @@
 #include <cctype>
 #include <chrono>
 #include <cmath>
+#include <cstdio>
 #include <cstring>
 #include <ctime>
 #include <cmath>
@@ -530,6 +531,25 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
+  char neg  = 0;
+  int width = static_cast<int>(spec._min); // amount left to fill.
+  if (negative_p) {
+    neg = '-';
+  } else if (spec._sign != '-') {
+    neg = spec._sign;
+  }
+  if (neg) { // Clip fill width
+    --width;
+  }
+
+  if (f >= 18446744073709551616.0) { // 2^64 - always integral, but doesn't fit in an integer.
+    char digits[std::numeric_limits<double>::max_exponent10 + 2];
+    int n = snprintf(digits, sizeof(digits), "%.0f", f);
+    Write_Aligned(
+      w, [&]() { w.write(digits, n); }, spec._align, width - n, spec._fill, neg);
+    return w;
+  }
+
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
     return Format_Integer(w, spec, whole_part, negative_p);
@@ -541,18 +561,10 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   size_t l                             = 0;
   char whole[MAX_DIGITS + 1];
   char fraction[MAX_DIGITS + 1];
-  char neg               = 0;
-  int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
 
   frac = f - whole_part; // split the number
 
-  if (negative_p) {
-    neg = '-';
-  } else if (spec._sign != '-') {
-    neg = spec._sign;
-  }
-
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
   uint64_t shift  = 0;
@@ -576,10 +588,6 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   memset(fraction, '0', sizeof(fraction)); // leading zeros in the fraction are significant.
   bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
 
-  // Clip fill width
-  if (neg) {
-    --width;
-  }
   width -= static_cast<int>(l);
   --width; // '.'
   width -= static_cast<int>(precision);
-- 
2.43.0


From 492b7b46be66c9e30ee9aed3d4b4d55b2175a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 78/79] fix: keep the sign of an infinity when it is formatted

---
 code/src/bw_format.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 02a029a..678ca24 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -512,6 +512,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     std::string_view unnormal;
     switch (std::fpclassify(f)) {
     case FP_INFINITE:
+      if (negative_p) {
+        w.write('-');
+      }
       unnormal = infinity_bwf;
       break;
     case FP_NAN:
-- 
2.43.0


From 1dc3c887822d3cbac23d83b1af42624622695026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 79/79] fix: let Lexicon iterators step back

---
 code/include/swoc/Lexicon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..30d0f31 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -770,15 +770,15 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  super_type::_item = super_type::_item->_value_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -800,15 +800,15 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  super_type::_item = super_type::_item->_name_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0

