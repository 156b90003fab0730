From a6a0495f2edd0b2a182a667d8b6bd91b5e2b1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 01/36] fix: _bitblend shifted by the full word width when
 replacing a whole word

---
 include/bitlib/bit-iterator/bit_details.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..9c07085 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -756,7 +756,8 @@ constexpr T _bitblend(T src0, T src1, T start, T len) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = ((one << len) * (len < digits) - one) << start;
+    const T msk = static_cast<T>(len < digits ? (one << len) - one : ~T())
+        << start;
     return src0 ^ ((src0 ^ src1) & msk * (start < digits));
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From 62302a9dbb00602583d6e6babf4b836dca674c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 02/36] fix: count dereferenced the end iterator of an empty
 range

---
 include/bitlib/bit-algorithms/count.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..ca20b39 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -48,6 +48,7 @@ count(
 
     // Initialization
     difference_type result = 0;
+    if (first == last) return result;
 
     // Computation when bits belong to several underlying words
     if (first.base() != last.base()) {
-- 
2.43.0


From 2b428857e949ca6195df262db339a8cb6de67b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 03/36] fix: shift algorithms did not compile for raw word
 pointers before C++20

---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..c6e6fdf 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -279,11 +279,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_left(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
     if (n <= 0) return last;
-    if (n >= distance(first, last)) return first;
+    if (n >= std::distance(first, last)) return first;
     RandomAccessIt mid = first + n;
     auto ret = std::move(mid, last, first);
     return ret;
@@ -296,10 +296,10 @@ RandomAccessIt word_shift_left(RandomAccessIt first,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_right(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
-    auto d = distance(first, last);
+    auto d = std::distance(first, last);
     if (n <= 0) return first;
     if (n >= d) return last;
     std::move_backward(first, last-n, last);
-- 
2.43.0


From f4b07c32f619a098a4e255c0a724d936f0cf4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 04/36] fix: rotate returned last instead of first when n_first
 == last

---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From 4f3cd6af833f0c1bf38c0307d2e3c763cd9dc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 05/36] fix: shift algorithms advanced iterators outside the
 range before the out of range checks

---
 include/bitlib/bit-algorithms/shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index e598e0c..cdb64d8 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -62,7 +62,6 @@ bit_iterator<RandomAccessIt> shift_left(
     auto d = bit::distance(first, last);
     const bool is_first_aligned = first.position() == 0;
     const bool is_last_aligned = last.position() == 0;
-    auto middle = first + n;
 
     // Out of range cases
     if (n <= 0) return last;
@@ -71,6 +70,7 @@ bit_iterator<RandomAccessIt> shift_left(
         //bit::fill(first, last, bit::bit0);    
         return first;
     }
+    auto middle = first + n;
 
     // Single word case
     // Triggered if all relevant bits are in first.base()
@@ -252,11 +252,11 @@ bit_iterator<RandomAccessIt> shift_right(
     const bool is_last_aligned = last.position() == 0;
     constexpr auto digits = binary_digits<word_type>::value;
     auto d = bit::distance(first, last);
-    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Out of range cases
     if (n <= 0) return first;
     else if (n >= d) return last;
+    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Single word case
     if (std::next(first.base(), is_last_aligned) == last.base()) {
-- 
2.43.0


From 3b5b25badd0c8204d64155aa4ada0b2e0a7e014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 06/36] fix: swap_ranges built its result with the first
 range's iterator type

---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 67cd5a0..9af430a 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -106,7 +106,7 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
                         last1.position()
                 );
             }
-            return bit_iterator<RandomAccessIt1>(it2, last1.position());
+            return bit_iterator<RandomAccessIt2>(it2, last1.position());
 
         // first1 range spans mutliple words and is not aligned with first2
         } else {
-- 
2.43.0


From fa8f5f377e2f0917f62925c2206943607f8b5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 07/36] fix: resize(count, value) filled past the new end
 instead of the new elements

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..321cbf0 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -621,7 +621,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From 60343c9d2c29aed33af2eff6ab032db1f3fa82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 08/36] fix: resize(count) exposed stale bits of the last word
 as new elements

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 321cbf0..148f70d 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
-- 
2.43.0


From e0f2f4086d30cb1f54585d539ce7cd2d05f2ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 09/36] fix: insert of several bits computed the available
 space in single precision

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 148f70d..f506999 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -529,7 +529,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -552,7 +552,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    const size_type bits_available = word_vector.size()*digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From c351e24410f7c857022a53f0d42ecd47ca1e60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 10/36] fix: word_count truncated bit counts to 32 bits

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f506999..76adcb3 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,7 +41,7 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
+        constexpr size_t word_count(size_t num_bits) {
             return ((num_bits + digits - 1) / digits);
         }
 
-- 
2.43.0


From a48203b2d9da007981647debc8d308590bde1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 11/36] fix: bit_vector did not compile with an allocator other
 than std::allocator

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 76adcb3..44d80f6 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -84,8 +84,8 @@ class bit_vector {
         using reference = bit_reference<WordType>;
         using const_reference = const reference;
         using pointer = bit_pointer<WordType>;
-        using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
+        using const_iterator = bit_iterator<const typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
-- 
2.43.0


From 2921556fec1d14b3c6c14f923805ffeb6aa8cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 12/36] fix: element access and iterators of a const bit_vector
 did not compile

---
 include/bitlib/bit-containers/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 44d80f6..9f9d662 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -82,10 +82,10 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = const bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
         using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType, Allocator>::const_iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
@@ -137,7 +137,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -358,7 +358,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 9bad27fd7523e8e9d11c7d9ec331e744ec38ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 13/36] fix: construction from a list of bit values did not
 compile

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 9f9d662..f744726 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -252,7 +252,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType,
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
     : word_vector(alloc), length_(0) {
-    for (const_reference b : init) {
+    for (const value_type& b : init) {
         this->push_back(b);
     }
 }
-- 
2.43.0


From a1d292c927f141f52b93ba3f8153f619b06649f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 14/36] fix: the copy constructor taking an allocator was
 declared but not defined

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f744726..21e3400 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -241,6 +241,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {}
-- 
2.43.0


From cb5dc8d4d0a03113847bc738d3d7d7fd23608d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 15/36] fix: move construction copied the storage and left the
 source unchanged

---
 include/bitlib/bit-containers/bit_vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 21e3400..895b907 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -112,8 +112,8 @@ class bit_vector {
                 const Allocator& alloc=Allocator());
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other) = default;
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc);
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept;
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
         constexpr bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<bool> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<WordType> init, const Allocator& alloc=Allocator());
@@ -246,12 +246,16 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType,
     : word_vector(other.word_vector, alloc), length_(other.length_) {}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
-    : word_vector(std::move(other.word_vector)), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
+    : word_vector(std::move(other.word_vector)), length_(other.length_) {
+    other.clear();
+}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
-    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
+    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {
+    other.clear();
+}
 
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
-- 
2.43.0


From 699e3b12cacc09bd6f379aa1ac60d5f4488ae5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 16/36] fix: bit_value::swap with a bit reference did not
 compile

---
 include/bitlib/bit-iterator/bit_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_value.hpp b/include/bitlib/bit-iterator/bit_value.hpp
index 0fd6ee4..88dcba1 100644
--- a/include/bitlib/bit-iterator/bit_value.hpp
+++ b/include/bitlib/bit-iterator/bit_value.hpp
@@ -287,7 +287,7 @@ void bit_value::swap(
     bit_reference<T> other
 ) noexcept
 {
-    if (other != _value) {
+    if (other != *this) {
         flip();
         other.flip();
     }
-- 
2.43.0


From 2c853559718dee98aea737e318286a280663d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 17/36] fix: debug_string of a sub-range did not compile

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 895b907..9da1b9e 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -640,9 +640,9 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 template<class WordType, class Allocator>
 constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
-    iterator mem = first;
+    const_iterator mem = first;
     auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
-- 
2.43.0


From d4a0467bede394973ec1841d525a53db9a2493d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 18/36] fix: constructors from text, bits and booleans
 allocated one word per bit

---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 9da1b9e..1a2a7d4 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -223,7 +223,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
         bit_iterator<RandomAccessIt> first,
         bit_iterator<RandomAccessIt> last,
         const Allocator& alloc)
-    : word_vector(distance(first, last), alloc), length_(distance(first, last)) {
+    : word_vector(word_count(distance(first, last)), alloc), length_(distance(first, last)) {
     copy(first, last, this->begin());
 }
 
@@ -283,7 +283,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::string_view s) {
     this->length_ = std::count(s.begin(), s.end(), '0') + std::count(s.begin(), s.end(), '1');
-    this->word_vector = std::vector<WordType, Allocator>(this->length_);
+    this->word_vector = std::vector<WordType, Allocator>(word_count(this->length_));
     size_type i = 0;
     for (char c : s) {
         if (c == '0') {
@@ -308,7 +308,7 @@ constexpr bit_vector<WordType, Allocator>::range_constructor(
         RandomAccessIt first,
         RandomAccessIt last,
         const Allocator& alloc) {
-    word_vector = std::vector<WordType, Allocator>(std::distance(first, last), alloc);
+    word_vector = std::vector<WordType, Allocator>(word_count(std::distance(first, last)), alloc);
     length_ = std::distance(first, last);
     std::transform(
             first,
-- 
2.43.0


From ea3c8e3e1d2856ce2942424574c87c15415709dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 19/36] fix: assignment from another bit iterator type did not
 compile

---
 include/bitlib/bit-iterator/bit_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_iterator.hpp b/include/bitlib/bit-iterator/bit_iterator.hpp
index 235d028..19c6b81 100644
--- a/include/bitlib/bit-iterator/bit_iterator.hpp
+++ b/include/bitlib/bit-iterator/bit_iterator.hpp
@@ -190,8 +190,8 @@ constexpr bit_iterator<Iterator>& bit_iterator<Iterator>::operator=(
     const bit_iterator<T>& other
 )
 {
-    _current = other._current;
-    _position = other._position;
+    _current = other.base();
+    _position = other.position();
     return *this;
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From 721952fc63caef26e5eb4de54cbc1d1422be7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 20/36] fix: assignment from a bit pointer to another word type
 did not compile

---
 include/bitlib/bit-iterator/bit_pointer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_pointer.hpp b/include/bitlib/bit-iterator/bit_pointer.hpp
index 4a56472..0302178 100644
--- a/include/bitlib/bit-iterator/bit_pointer.hpp
+++ b/include/bitlib/bit-iterator/bit_pointer.hpp
@@ -212,8 +212,8 @@ constexpr bit_pointer<WordType>& bit_pointer<WordType>::operator=(
     const bit_pointer<T>& other
 ) noexcept
 {
-    _ref._ptr = other._ref._ptr;
-    _ref._mask = other._ref._mask;
+    _ref._ptr = other._ref.address();
+    _ref._mask = other._ref.mask();
     return *this;
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From 5eb0e858c83ae35b0cf4004f507679fe2d81bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 21/36] fix: count dereferenced the end of a range that ends at
 its first word boundary

---
 include/bitlib/bit-algorithms/count.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index ca20b39..1ce7ea2 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -94,7 +94,9 @@ count(
             //);
 
             // libpopcnt
-            result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            if (it != last.base()) {
+                result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            }
         }
         if (last.position() != 0) {
             word_type last_value = *last.base() << (digits - last.position());
-- 
2.43.0


From 1aa7997979763931604bf1c46efedafd7dae04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 22/36] fix: shift_right moved its word iterators before the
 beginning of the range

---
 include/bitlib/bit-algorithms/shift.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index cdb64d8..e205d66 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -341,24 +341,24 @@ bit_iterator<RandomAccessIt> shift_right(
         }
 #endif
 
-        auto last_base_prev   = std::prev(last.base());
-        auto middle_base_prev = std::prev(middle.base());
+        auto last_base   = last.base();
+        auto middle_base = middle.base();
 
-        while (middle_base_prev > first.base()) {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+        while (std::prev(middle_base) > first.base()) {
+            last_base--;
+            *last_base = _shrd<word_type>(*std::prev(middle_base), *middle_base, offset);
+            middle_base--;
         }
 
         if (first.position() <= middle.position())
         {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+            last_base--;
+            *last_base = _shrd<word_type>(*std::prev(middle_base), *middle_base, offset);
+            middle_base--;
         }
 
-        last = bit_iterator<RandomAccessIt>(std::next(last_base_prev), last.position());
-        middle = bit_iterator<RandomAccessIt>(std::next(middle_base_prev), middle.position());
+        last = bit_iterator<RandomAccessIt>(last_base, last.position());
+        middle = bit_iterator<RandomAccessIt>(middle_base, middle.position());
     }
 
     if (first.position() != middle.position())
-- 
2.43.0


From 840d06025039816b524782dba12399e20c7a917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 23/36] fix: copy_backward moved its word iterator before the
 beginning of the destination

---
 include/bitlib/bit-algorithms/copy_backward.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 55bd6f6..f805d1a 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -76,7 +76,6 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
             it = ::std::copy_backward(first.base() + 1, last.base(), it);
             last -= digits * N;
             remaining_bits_to_copy -= digits * N;
-            it--;
         } else {
             // TODO benchmark if its faster to ::std::copy the entire range then shift
             while (remaining_bits_to_copy >= digits) {
@@ -84,9 +83,9 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
                 remaining_bits_to_copy -= digits;
                 advance(last, -digits);
             }
-            it--;
         }
         if (remaining_bits_to_copy > 0) {
+            --it;
             *it = _bitblend<word_type>(
                     *it,
                     get_word<word_type>(last - remaining_bits_to_copy, remaining_bits_to_copy)
-- 
2.43.0


From 0caa3d6b4e55b3adf77fad8bf7b16a806f9e3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 24/36] fix: erase of one bit returned an iterator invalidated
 by its own pop_back

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 1a2a7d4..2700613 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -575,12 +575,13 @@ bit_vector<WordType, Allocator>::insert(
 template<class WordType, class Allocator>
 constexpr typename bit_vector<WordType, Allocator>::iterator
 bit_vector<WordType, Allocator>::erase(iterator pos) {
+    const auto d = distance(begin(), pos);
     shift_left(pos, begin() + length_, 1);
     length_ -= 1;
     if (length_ % digits == 0) {
         word_vector.pop_back();
     }
-    return pos;
+    return begin() + d;
 }
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 81ee9b49655c89df668693089e1013b77233a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 25/36] fix: max_size overflowed for word types whose vectors
 are limited by bytes

---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 2700613..a32c6cd 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -15,6 +15,7 @@
 // C++ standard library
 #include <vector>
 #include <cmath>
+#include <limits>
 #include <string>
 #include <iostream>
 #include <algorithm>
@@ -483,7 +484,10 @@ bit_vector<WordType, Allocator>::size() const noexcept {
 template<class WordType, class Allocator>
 constexpr typename bit_vector<WordType, Allocator>::size_type
 bit_vector<WordType, Allocator>::max_size() const noexcept {
-    return word_vector.max_size() * digits;
+    return std::min<size_type>(
+        word_vector.max_size(),
+        std::numeric_limits<difference_type>::max() / digits
+    ) * digits;
 }
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 95812dc442b52b42cc96300fbfd979c9ac9924d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 26/36] fix: word_count overflowed for counts near the maximum
 of size_t

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index a32c6cd..4708462 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -43,7 +43,7 @@ class bit_vector {
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
         constexpr size_t word_count(size_t num_bits) {
-            return ((num_bits + digits - 1) / digits);
+            return num_bits / digits + (num_bits % digits != 0);
         }
 
         // Iterator pair constructor specializations
-- 
2.43.0


From 3a1ebff64092a014763349079ae4505b0c7ce3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 27/36] fix: insert of several bits accepted counts that
 overflow the size

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 4708462..cc5ca65 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -16,6 +16,7 @@
 #include <vector>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <iostream>
 #include <algorithm>
@@ -541,6 +542,9 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
+    if (count > max_size() - length_) {
+        throw std::length_error("bit_vector::insert");
+    }
     const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
-- 
2.43.0


From cd6abe77e4e7b6190e05b864e835bf45950ac265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 28/36] fix: construction from iterator pairs ignored the
 allocator argument

---
 include/bitlib/bit-containers/bit_vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index cc5ca65..7267d47 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -235,7 +235,8 @@ template<class RandomAccessIt>
 constexpr bit_vector<WordType, Allocator>::bit_vector(
         RandomAccessIt first,
         RandomAccessIt last,
-        const Allocator& alloc) {
+        const Allocator& alloc)
+    : word_vector(alloc), length_(0) {
     bit_vector<WordType, Allocator>::range_constructor(
         first,
         last,
@@ -310,7 +311,7 @@ constexpr bit_vector<WordType, Allocator>::range_constructor(
         RandomAccessIt first,
         RandomAccessIt last,
         const Allocator& alloc) {
-    word_vector = std::vector<WordType, Allocator>(word_count(std::distance(first, last)), alloc);
+    word_vector.resize(word_count(std::distance(first, last)));
     length_ = std::distance(first, last);
     std::transform(
             first,
@@ -333,7 +334,7 @@ constexpr bit_vector<WordType, Allocator>::range_constructor(
         RandomAccessIt first,
         RandomAccessIt last,
         const Allocator& alloc) {
-    word_vector = std::vector<WordType, Allocator>(first, last, alloc);
+    word_vector.assign(first, last);
     length_ = digits * std::distance(first, last);
 }
 
-- 
2.43.0


From 74ae7d8ff4f7ed560021ab37e268dfa810b1091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 29/36] fix: find over const bit iterators did not compile with
 the SIMD option

---
 include/bitlib/bit-algorithms/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index b35583c..2498dc5 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -78,7 +78,7 @@ constexpr bit_iterator<RandomAccessIt> find(
     }
 
     // SIMD
-    hn::ScalableTag<word_type> d;
+    hn::ScalableTag<typename std::remove_cv<word_type>::type> d;
     const auto z = hn::Zero(d);
     for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
     {
-- 
2.43.0


From 81e7c8ea6536e4b5d2ffd2bccf93e7187d85ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 30/36] fix: rotate counted block swaps in 32 bits

---
 include/bitlib/bit-algorithms/rotate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index 3ee1ac7..92627d7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -135,7 +135,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
                 return ret;
             }
             bit_iterator<RandomAccessIt> q = p + k;
-            unsigned int full_swaps = (n - k) / k;
+            difference_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 swap_ranges(p, q, q);
@@ -161,7 +161,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
             }
             bit_iterator<RandomAccessIt> q = p + n;
             p = q - k;
-            unsigned int full_swaps = (n - k) / k;
+            difference_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 p -= k;
-- 
2.43.0


From 75ea6d7b36f714396db30f9a35a895ed52b5b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 31/36] fix: rotate within one word used a 64-bit mask for
 wider words

---
 include/bitlib/bit-algorithms/rotate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index 92627d7..09fbca9 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -222,7 +222,7 @@ bit_iterator<ForwardIt> rotate(
             size_type p = last_pos - n_first.position();
             size_type d = last_pos - first.position();
 
-            word_type mask = ((1ULL << d) - 1) << first.position();
+            word_type mask = ((static_cast<word_type>(1) << d) - 1) << first.position();
             word_type rotated = *first.base() & mask;
             rotated = static_cast<word_type>(rotated >> k)
                 | static_cast<word_type>(rotated << p);
-- 
2.43.0


From 6756c918733f43018f6799a456d23dbe709aeaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 32/36] fix: _shld and _shrd by zero bits shifted the other
 word by its full width

---
 include/bitlib/bit-iterator/bit_details.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 9c07085..8b09438 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -859,7 +859,9 @@ constexpr T _shld(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt == 0) {
+        return dst;
+    } else if (cnt < digits) {
         dst = (dst << cnt) | (src >> (digits - cnt));
     } else {
         dst = (src << (cnt - digits)) * (cnt < digits + digits);
@@ -877,7 +879,9 @@ constexpr T _shrd(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt == 0) {
+        return dst;
+    } else if (cnt < digits) {
         dst = (dst >> cnt) | (src << (digits - cnt));
     } else {
         dst = (src >> (cnt - digits)) * (cnt < digits + digits);
-- 
2.43.0


From 498d480f06c5c427c900d7ae4303feb6eddacfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 33/36] fix: _bextr shifted by the full word width when
 extracting a whole word

---
 include/bitlib/bit-iterator/bit_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 8b09438..5ad97be 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -538,7 +538,7 @@ constexpr T _bextr(T src, T start, T len, X...) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = (one << len) * (len < digits) - one;
+    const T msk = static_cast<T>(len < digits ? (one << len) - one : ~T());
     return (src >> start) & msk * (start < digits);
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From 20b03fc5f111108871ccd54c29a45580457634b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 34/36] fix: write_word between different word types truncated
 the storage word or wrote misplaced bits

---
 .../bit-algorithms/bit_algorithm_details.hpp  | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index c6e6fdf..f2bba29 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -222,9 +222,9 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             *dst_bit_it.base() = src;
         }
         else {
-            *dst_bit_it.base() = _bitblend<src_type>(
+            *dst_bit_it.base() = _bitblend<dst_type>(
                    *dst_bit_it.base(),
-                   src << dst_bit_it.position(),
+                   static_cast<dst_type>(src) << dst_bit_it.position(),
                    dst_bit_it.position(),
                    std::min<src_type>(
                        dst_digits - dst_bit_it.position(),
@@ -233,7 +233,7 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             );
             if (len > dst_digits - dst_bit_it.position()) {
                 OutputIt overflow_dst = std::next(dst_bit_it.base());
-                *overflow_dst = _bitblend<src_type>(
+                *overflow_dst = _bitblend<dst_type>(
                         *overflow_dst,
                         src >> (dst_digits - dst_bit_it.position()),
                         0,
@@ -244,11 +244,16 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
     } else {
         OutputIt it = dst_bit_it.base();
         if (dst_bit_it.position() != 0) {
-            *it = _bitblend(
+            *it = _bitblend<dst_type>(
                     *it,
-                    static_cast<dst_type>(src),
-                    static_cast<dst_type>(-1) << dst_bit_it.position()
+                    static_cast<dst_type>(src) << dst_bit_it.position(),
+                    dst_bit_it.position(),
+                    std::min<src_type>(
+                        dst_digits - dst_bit_it.position(),
+                        len
+                    )
             );
+            if (len <= dst_digits - dst_bit_it.position()) return;
             len -= dst_digits - dst_bit_it.position();
             // TODO would it be faster to jsut shift src every time it is
             // passed as an argument and keep track of how much we need to
@@ -263,10 +268,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             ++it;
         }
         if (len > 0 ) {
-            *it = _bitblend(
+            *it = _bitblend<dst_type>(
                     *it,
                     static_cast<dst_type>(src),
-                    (1 << len) - 1
+                    0,
+                    len
             );
         }
     }
-- 
2.43.0


From 935d0742b1af6ef4e4ec43e29f32cc3b6095ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 35/36] fix: is_within with a run-time limit did not accept
 iterators over raw pointers

---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index f2bba29..7344deb 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -66,7 +66,7 @@ template <class InputIt>
 bool is_within(
         bit_iterator<InputIt> first,
         bit_iterator<InputIt> last,
-        typename InputIt::difference_type n
+        typename bit_iterator<InputIt>::difference_type n
 ) {
     //using word_type = typename bit_iterator<InputIt>::word_type;
     //using size_type = typename bit_iterator<InputIt>::size_type;
-- 
2.43.0


From 09ebb7c4a1334c40d0a6f5263a2d57d86b23e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:27 +0000
Subject: [PATCH 36/36] fix: _bitcmp returned nonzero for equal bits

---
 include/bitlib/bit-iterator/bit_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 5ad97be..01e64e9 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -846,7 +846,7 @@ template <class T>
 constexpr T _bitcmp(T src0, T src1, T start0, T start1, T len) noexcept
 {
     static_assert(binary_digits<T>::value, "");
-    return _bextr(src0, start0, len) == _bextr(src1, start1, len);
+    return _bextr(src0, start0, len) != _bextr(src1, start1, len);
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0

