From 1fd5b02d5aac6e671d4ba435400a70f662b90a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 01/10] fix: bit_vector_builder::reserve leaves m_cur_word
 dangling when the storage moves

---
 bit_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..aad8008 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,9 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            if (!m_bits.empty()) {
+                m_cur_word = &m_bits.back(); // the storage may have moved
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From 6d3ce6d23ae5ccc8a6a8899a2e73afa827fa81f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 02/10] fix: bit_vector::enumerator::take(64) keeps the
 consumed bits in its buffer

---
 bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index aad8008..7dadfdf 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -386,6 +386,7 @@ namespace succinct {
                     m_buf >>= l;
                 } else {
                     val = m_buf;
+                    m_buf = 0;
                 }
                 m_avail -= l;
                 m_pos += l;
-- 
2.43.0


From 09c63d58dad0bb815e439182cb1a5b81ace913c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 03/10] fix: unary_enumerator::skip0 counts a one consumed by
 next() as a zero

---
 bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 7dadfdf..1ed3b79 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -506,7 +506,8 @@ namespace succinct {
             {
                 uint64_t skipped = 0;
                 uint64_t pos_in_word = m_position % 64;
-                uint64_t buf = ~m_buf & (uint64_t(-1) << pos_in_word);
+                // m_buf lacks the ones already consumed by next()
+                uint64_t buf = ~m_data[m_position / 64] & (uint64_t(-1) << pos_in_word);
                 uint64_t w = 0;
                 while (skipped + (w = broadword::popcount(buf)) <= k) {
                     skipped += w;
-- 
2.43.0


From 954f420bbec9dfdce853ca0d6fb96c2f019227f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 04/10] fix: bit_vector::get_bits shifts by 64 when len is 64

---
 bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 1ed3b79..989119f 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -258,7 +258,7 @@ namespace succinct {
             }
             uint64_t block = pos / 64;
             uint64_t shift = pos % 64;
-            uint64_t mask = -(len == 64) | ((1ULL << len) - 1);
+            uint64_t mask = uint64_t(-1) >> (64 - len);
             if (shift + len <= 64) {
                 return m_bits[block] >> shift & mask;
             } else {
-- 
2.43.0


From 4d58a65c1386c7776537667c22382543d94e3fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 05/10] fix: uleq_step_8 is wrong on bytes whose top bits
 differ

---
 broadword.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 7e55e53..98619c6 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -28,7 +28,7 @@ namespace succinct { namespace broadword {
 
     inline uint64_t uleq_step_8(uint64_t x, uint64_t y)
     {
-        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) ^ (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
+        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) | (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
     }
 
     inline uint64_t zcompare_step_8(uint64_t x)
-- 
2.43.0


From bdf43fc935cb2ac5155d6b2bd0767a5a00ab6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 06/10] fix: fast_getline duplicates the last line when it has
 no newline

---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..c2ffcdb 100644
--- a/util.hpp
+++ b/util.hpp
@@ -34,7 +34,7 @@ namespace succinct { namespace util {
                 if (!line.size()) {
                     return false;
                 } else {
-                    done = true;
+                    break;
                 }
             }
             line += buffer;
-- 
2.43.0


From e5e55590bf1bf4e0a5d45d8ee837af2d28e5ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 07/10] fix: line_iterator yields a spurious empty first line

---
 util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c2ffcdb..822ee04 100644
--- a/util.hpp
+++ b/util.hpp
@@ -62,7 +62,9 @@ namespace succinct { namespace util {
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            increment();
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From fba7929de34c3217cbf478cf6248b691338596c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 08/10] fix: int2nat overflows for |x| > 2^62

---
 util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.hpp b/util.hpp
index 822ee04..1aede7f 100644
--- a/util.hpp
+++ b/util.hpp
@@ -249,9 +249,9 @@ namespace succinct { namespace util {
     inline uint64_t int2nat(int64_t x)
     {
         if (x < 0) {
-            return uint64_t(-2 * x - 1);
+            return 2 * uint64_t(-(x + 1)) + 1;
         } else {
-            return uint64_t(2 * x);
+            return 2 * uint64_t(x);
         }
     }
 
-- 
2.43.0


From 4c4739a3db29d867aa9db95676047bc19e31d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:12 +0000
Subject: [PATCH 09/10] fix: nat2int(2^64-1) returns 0

---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index 1aede7f..847fe80 100644
--- a/util.hpp
+++ b/util.hpp
@@ -258,7 +258,7 @@ namespace succinct { namespace util {
     inline int64_t nat2int(uint64_t n)
     {
         if (n % 2) {
-            return -int64_t((n + 1) / 2);
+            return -int64_t(n / 2) - 1;
         } else {
             return int64_t(n / 2);
         }
-- 
2.43.0


From 183b6cfc8fdb6d591e71f7c1333b163116676c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:24 +0000
Subject: [PATCH 10/10] fix: find_close and find_open shift by 64 at word
 boundaries

---
 bp_vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 79df0f4..6e2dd9c 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -175,7 +175,7 @@ namespace succinct {
         uint64_t shift = (pos + 1) % 64;
         uint64_t shifted_word = m_bits[word_pos] >> shift;
         // Pad with "open"
-        uint64_t padded_word = shifted_word | (-!!shift & (~0ULL << (64 - shift)));
+        uint64_t padded_word = shifted_word | (shift ? ~0ULL << (64 - shift) : 0);
         uint64_t byte_counts = broadword::byte_counts(padded_word);
 
         excess_t word_exc = 1;
@@ -236,7 +236,7 @@ namespace succinct {
         uint64_t word_pos = (pos / 64);
         uint64_t len = pos % 64;
         // Rest is padded with "close"
-        uint64_t shifted_word = -!!len & (m_bits[word_pos] << (64 - len));
+        uint64_t shifted_word = len ? (m_bits[word_pos] << (64 - len)) : 0;
         uint64_t byte_counts = broadword::byte_counts(shifted_word);
 
         excess_t word_exc = 1;
-- 
2.43.0

