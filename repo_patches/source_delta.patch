From 68ce7483941b100a4dc910355443c1bb6049a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 01/17] fix: debug_string must not be constexpr with a
 non-literal return type

std::string is not a literal type in C++17, so the class was rejected by
conforming compilers (clang).
---
 include/bitlib/bit-containers/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..afe03e4 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -187,8 +187,8 @@ class bit_vector {
         /*
          * Helper functions
          */
-        constexpr std::string debug_string(const_iterator first, const_iterator last);
-        constexpr std::string debug_string();
+        std::string debug_string(const_iterator first, const_iterator last);
+        std::string debug_string();
 
         // TODO Make constexpr
         //friend std::ostream& operator<<(std::ostream& os, bit_vector bv) {
@@ -631,7 +631,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 
 // ------------------------ BIT VECTOR: DEBUGGING -------------------------- //
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
+std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
     iterator mem = first;
     auto position = 0;
@@ -649,7 +649,7 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterat
 }
 
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string() {
+std::string bit_vector<WordType, Allocator>::debug_string() {
     auto first = begin();
     auto last = end();
     std::string ret = "";
-- 
2.43.0


From 549ea2c03edd96467a74d24a4e27f36dfb65b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 02/17] fix: word_shift_left/right accept raw word pointers

shift_left, shift_right, reverse and rotate over a plain word array did not
compile because the helpers named a member type of the iterator.
---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..c6e6fdf 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -279,11 +279,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_left(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
     if (n <= 0) return last;
-    if (n >= distance(first, last)) return first;
+    if (n >= std::distance(first, last)) return first;
     RandomAccessIt mid = first + n;
     auto ret = std::move(mid, last, first);
     return ret;
@@ -296,10 +296,10 @@ RandomAccessIt word_shift_left(RandomAccessIt first,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_right(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
-    auto d = distance(first, last);
+    auto d = std::distance(first, last);
     if (n <= 0) return first;
     if (n >= d) return last;
     std::move_backward(first, last-n, last);
-- 
2.43.0


From ff09afa12ab6db5b1280e36cf0199adb01374a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 03/17] fix: rotate of a range whose middle is its end must be
 a no-op

With n_first == last the rotation touched the word past the range, shifted by
the word size and returned the wrong position; std::rotate leaves the range
unchanged and returns first.
---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From 54b488f9dd897ac3af237d0644cdfbc41001373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 04/17] fix: count of an empty range must not read the word at
 its end

---
 include/bitlib/bit-algorithms/count.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..fb33cb9 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -49,6 +49,11 @@ count(
     // Initialization
     difference_type result = 0;
 
+    // An empty range has no word to read
+    if (first == last) {
+        return result;
+    }
+
     // Computation when bits belong to several underlying words
     if (first.base() != last.base()) {
         RandomAccessIt it = first.base();
-- 
2.43.0


From 58eb4fd5540db7ac4a99d4210d040ca7566e5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 05/17] fix: _bextr and _bitblend must not shift by the width
 of the word

A full-word field (len == digits) shifted a 32 or 64 bit one by its own width,
which is undefined; copy_backward and the shifts reach it.
---
 include/bitlib/bit-iterator/bit_details.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..c402ead 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -538,8 +538,8 @@ constexpr T _bextr(T src, T start, T len, X...) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = (one << len) * (len < digits) - one;
-    return (src >> start) & msk * (start < digits);
+    const T msk = (len < digits) ? (one << len) - one : ~T();
+    return (start < digits) ? (src >> start) & msk : T();
 }
 // -------------------------------------------------------------------------- //
 
@@ -756,8 +756,9 @@ constexpr T _bitblend(T src0, T src1, T start, T len) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = ((one << len) * (len < digits) - one) << start;
-    return src0 ^ ((src0 ^ src1) & msk * (start < digits));
+    const T field = (len < digits) ? (one << len) - one : ~T();
+    const T msk = (start < digits) ? field << start : T();
+    return src0 ^ ((src0 ^ src1) & msk);
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0


From 966e744d6026051e2b6c43fafb7656089adc8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 06/17] fix: resize must give every new bit its value

resize(count, value) filled the empty range [end, end), and neither overload
cleared the bits left over in the last word by pop_back, erase or a previous
resize.
---
 include/bitlib/bit-containers/bit_vector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index afe03e4..cc0b652 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
@@ -621,7 +620,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From 5f869ddee9142111a4168584a2e0a46052084cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 07/17] fix: bit_vector must not compute sizes in unsigned int
 or float

word_count() took its argument as unsigned int, so a vector of 2^32 bits or
more was given too few words; insert computed the number of bits to add in
float, which is inexact above 2^24 bits and left the vector too short.
---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index cc0b652..464826e 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,7 +41,7 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
+        constexpr size_t word_count(size_t num_bits) {
             return ((num_bits + digits - 1) / digits);
         }
 
@@ -529,7 +529,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -552,7 +552,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    const size_type bits_available = word_vector.size()*digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From 1a77f8c328a7a7a53348ee61212191b98a2fdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 08/17] fix: rotate must not count its block swaps in unsigned
 int

---
 include/bitlib/bit-algorithms/rotate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index 3ee1ac7..cf3c863 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -135,7 +135,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
                 return ret;
             }
             bit_iterator<RandomAccessIt> q = p + k;
-            unsigned int full_swaps = (n - k) / k;
+            size_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 swap_ranges(p, q, q);
@@ -161,7 +161,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
             }
             bit_iterator<RandomAccessIt> q = p + n;
             p = q - k;
-            unsigned int full_swaps = (n - k) / k;
+            size_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 p -= k;
-- 
2.43.0


From 4763dc45534df1e202a95a3e2ed14ab74129eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 09/17] fix: bit_vector move constructors must move

They took a const rvalue, so they copied: the noexcept one terminated the
program when the copy could not be allocated, and the source kept its bits
where move assignment empties it.
---
 include/bitlib/bit-containers/bit_vector.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 464826e..10b1ca9 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -112,8 +112,8 @@ class bit_vector {
                 const Allocator& alloc=Allocator());
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other) = default;
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc);
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept;
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
         constexpr bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<bool> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<WordType> init, const Allocator& alloc=Allocator());
@@ -242,12 +242,17 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 }
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
-    : word_vector(std::move(other.word_vector)), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
+    : word_vector(std::move(other.word_vector)), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
-    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
+    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {
+    other.word_vector.clear();
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
-- 
2.43.0


From 4d6080adfec90b8bdb8f0985fdf76f3b6e41763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 10/17] fix: define the allocator-extended bit_vector copy
 constructor

It was declared only, so using it failed to link.
---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 10b1ca9..51c8a9c 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -241,6 +241,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {
-- 
2.43.0


From 929e8e8d07e855572c00bec02dbb78efef954aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 11/17] fix: converting assignments and
 bit_value::swap(bit_reference) must compile

bit_iterator and bit_pointer assignment from an iterator or pointer over
another word type reached private members of a type they are not friends
with; bit_value::swap compared a bit reference with a bool.
---
 include/bitlib/bit-iterator/bit_iterator.hpp  | 4 ++--
 include/bitlib/bit-iterator/bit_reference.hpp | 2 +-
 include/bitlib/bit-iterator/bit_value.hpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_iterator.hpp b/include/bitlib/bit-iterator/bit_iterator.hpp
index 235d028..19c6b81 100644
--- a/include/bitlib/bit-iterator/bit_iterator.hpp
+++ b/include/bitlib/bit-iterator/bit_iterator.hpp
@@ -190,8 +190,8 @@ constexpr bit_iterator<Iterator>& bit_iterator<Iterator>::operator=(
     const bit_iterator<T>& other
 )
 {
-    _current = other._current;
-    _position = other._position;
+    _current = other.base();
+    _position = other.position();
     return *this;
 }
 // -------------------------------------------------------------------------- //
diff --git a/include/bitlib/bit-iterator/bit_reference.hpp b/include/bitlib/bit-iterator/bit_reference.hpp
index 9344158..d8aaa8e 100644
--- a/include/bitlib/bit-iterator/bit_reference.hpp
+++ b/include/bitlib/bit-iterator/bit_reference.hpp
@@ -33,7 +33,7 @@ class bit_reference
 
     // Friendship
     template <class> friend class bit_reference;
-    friend class bit_pointer<WordType>;
+    template <class> friend class bit_pointer;
 
     // Types
     public:
diff --git a/include/bitlib/bit-iterator/bit_value.hpp b/include/bitlib/bit-iterator/bit_value.hpp
index 0fd6ee4..88dcba1 100644
--- a/include/bitlib/bit-iterator/bit_value.hpp
+++ b/include/bitlib/bit-iterator/bit_value.hpp
@@ -287,7 +287,7 @@ void bit_value::swap(
     bit_reference<T> other
 ) noexcept
 {
-    if (other != _value) {
+    if (other != *this) {
         flip();
         other.flip();
     }
-- 
2.43.0


From 38a04e92ff28a181e681e1950a85d9c9035945ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 12/17] fix: const access to a bit_vector must compile and stay
 const

operator[], at, front and back of a const vector, find and count over its
iterators, debug_string(first, last) and the initializer_list<bit_value>
constructor did not compile: const_reference was a const reference to mutable
words and const_iterator wrapped a const iterator object.
---
 include/bitlib/bit-containers/bit_vector.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 51c8a9c..9c869bc 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -82,10 +82,10 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
         using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType>::const_iterator>;
 
 
         /*
@@ -137,7 +137,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -261,7 +261,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Alloc
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
     : word_vector(alloc), length_(0) {
-    for (const_reference b : init) {
+    for (const bit_value& b : init) {
         this->push_back(b);
     }
 }
@@ -367,7 +367,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
@@ -641,9 +641,9 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 template<class WordType, class Allocator>
 std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
-    iterator mem = first;
+    const_iterator mem = first;
     auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
-- 
2.43.0


From 95e3275761b0159f384acc3a70e15d78b1935e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 13/17] fix: _shld/_shrd must not shift by the word width (zero
 or large counts)

---
 include/bitlib/bit-iterator/bit_details.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index c402ead..33692cc 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -860,9 +860,9 @@ constexpr T _shld(T dst, T src, T cnt) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     if (cnt < digits) {
-        dst = (dst << cnt) | (src >> (digits - cnt));
+        dst = cnt ? (dst << cnt) | (src >> (digits - cnt)) : dst;
     } else {
-        dst = (src << (cnt - digits)) * (cnt < digits + digits);
+        dst = cnt < digits + digits ? src << (cnt - digits) : T();
     }
     return dst;
 }
@@ -878,9 +878,9 @@ constexpr T _shrd(T dst, T src, T cnt) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     if (cnt < digits) {
-        dst = (dst >> cnt) | (src << (digits - cnt));
+        dst = cnt ? (dst >> cnt) | (src << (digits - cnt)) : dst;
     } else {
-        dst = (src >> (cnt - digits)) * (cnt < digits + digits);
+        dst = cnt < digits + digits ? src >> (cnt - digits) : T();
     }
     return dst;
 }
-- 
2.43.0


From a7540f690d87f506e5c2511b6a241b2934be73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 14/17] fix: bit_vector with a custom allocator must compile

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 9c869bc..548cbd4 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -84,8 +84,8 @@ class bit_vector {
         using reference = bit_reference<WordType>;
         using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
-        using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<typename std::vector<WordType>::const_iterator>;
+        using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
-- 
2.43.0


From 99916fc6acfab4173fdf493fcaf92ad1b51016e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 15/17] fix: the range constructor must use the given allocator

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 548cbd4..76cd9f5 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -233,7 +233,8 @@ template<class RandomAccessIt>
 constexpr bit_vector<WordType, Allocator>::bit_vector(
         RandomAccessIt first,
         RandomAccessIt last,
-        const Allocator& alloc) {
+        const Allocator& alloc)
+    : word_vector(alloc) {
     bit_vector<WordType, Allocator>::range_constructor(
         first,
         last,
-- 
2.43.0


From 377f36eef0b7e1b861ea8f2f742de5eeb14b5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 16/17] fix: read-only word arrays must be accepted as sources

---
 include/bitlib/bit-algorithms/copy.hpp          | 4 ++--
 include/bitlib/bit-algorithms/copy_backward.hpp | 4 ++--
 include/bitlib/bit-algorithms/equal.hpp         | 4 ++--
 include/bitlib/bit-algorithms/find.hpp          | 2 +-
 include/bitlib/bit-algorithms/move.hpp          | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy.hpp b/include/bitlib/bit-algorithms/copy.hpp
index 2d50751..4503402 100644
--- a/include/bitlib/bit-algorithms/copy.hpp
+++ b/include/bitlib/bit-algorithms/copy.hpp
@@ -34,8 +34,8 @@ constexpr bit_iterator<RandomAccessIt2> copy(bit_iterator<RandomAccessIt1> first
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 55bd6f6..c4ed25f 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -31,8 +31,8 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/equal.hpp b/include/bitlib/bit-algorithms/equal.hpp
index e3fb144..d166c32 100644
--- a/include/bitlib/bit-algorithms/equal.hpp
+++ b/include/bitlib/bit-algorithms/equal.hpp
@@ -34,8 +34,8 @@ constexpr bool equal(
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index b35583c..df8a015 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -36,7 +36,7 @@ constexpr bit_iterator<RandomAccessIt> find(
         bit_iterator<RandomAccessIt> last, bit::bit_value bv
 ) {
 
-    using word_type = typename bit_iterator<RandomAccessIt>::word_type;
+    using word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt>::word_type>::type;
     using size_type = typename bit_iterator<RandomAccessIt>::size_type;
     const std::size_t digits = binary_digits<word_type>::value;
 
diff --git a/include/bitlib/bit-algorithms/move.hpp b/include/bitlib/bit-algorithms/move.hpp
index 401cbfd..290b4a1 100644
--- a/include/bitlib/bit-algorithms/move.hpp
+++ b/include/bitlib/bit-algorithms/move.hpp
@@ -29,8 +29,8 @@ constexpr bit_iterator<RandomAccessIt2> move(bit_iterator<RandomAccessIt1> first
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
-- 
2.43.0


From 89c7388410a791af34630de476b0401b1aeafc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 17/17] fix: swap_ranges must compile for two different
 iterator types

---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 67cd5a0..9af430a 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -106,7 +106,7 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
                         last1.position()
                 );
             }
-            return bit_iterator<RandomAccessIt1>(it2, last1.position());
+            return bit_iterator<RandomAccessIt2>(it2, last1.position());
 
         // first1 range spans mutliple words and is not aligned with first2
         } else {
-- 
2.43.0

