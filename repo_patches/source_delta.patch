From 20ec14e78987b37decef3f23578b238043343281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 01/11] fix: vec pop() and shift() of an empty vector wrote a
 size of -1 in release builds

---
 include/fu/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index caacbdb..c37bf7c 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -884,7 +884,7 @@ struct fu_VEC
     }
 
     void pop() noexcept {
-        MUT_back(One, Zero);
+        MUT_back(fu::i(1) /* clamps to 0 if empty */, Zero);
     }
 
     template <typename I, typename D>
@@ -899,7 +899,7 @@ struct fu_VEC
     }
 
     void shift() noexcept {
-        MUT_front(One, Zero);
+        MUT_front(fu::i(1) /* clamps to 0 if empty */, Zero);
     }
 
     void shift(fu::i shift) noexcept {
-- 
2.43.0


From ee72ac52405a0ff19fab2bacfb42195f3fa4bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 02/11] fix: replacing a whole vec with a prefix of itself did
 nothing

---
 include/fu/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index c37bf7c..dba9cdb 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -961,7 +961,7 @@ struct fu_VEC
             MUT_mid(idx, del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (idx || del != old_size || src_data != old_data) {
+        else if (idx || del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
@@ -1022,7 +1022,7 @@ struct fu_VEC
             MUT_back(del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (del != old_size || src_data != old_data) {
+        else if (del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
-- 
2.43.0


From 14059b8f67f897b8953e1a97ced78c1f8b312620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 03/11] fix: a vec that turns unique again must acquire before
 it is written in place

---
 include/fu/mem/arc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fu/mem/arc.h b/include/fu/mem/arc.h
index dcd15fa..2926833 100644
--- a/include/fu/mem/arc.h
+++ b/include/fu/mem/arc.h
@@ -55,8 +55,10 @@ struct alignas(16) fu_ARC
     }
 
     fu_INL bool unique() const noexcept {
+        // acquire: pairs with the release in decr(),
+        //  whatever the last other owner did happens before we write.
         return 0 == m_arc.load(
-            std::memory_order_relaxed );
+            std::memory_order_acquire );
     }
 };
 
-- 
2.43.0


From 22f99ba6e26717e47ef3abc1e704aa9ef317cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 04/11] fix: insert, splice and append at a position outside
 the array wrote outside of it in release builds

---
 include/fu/vec.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index dba9cdb..4355ab6 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -811,6 +811,22 @@ struct fu_VEC
     #define Zero    fu_ZERO()
     #define One     fu_ONE()
 
+    // _Splice sanitizes its own copy of these,
+    //  here for the callers that need to know where to write.
+    template <typename I>
+    fu_INL static void CLAMP_arg(I& arg, fu::i max) noexcept
+    {
+        if constexpr (fu_MAYBE_POS(arg))
+        {
+            assert(arg >= 0 && arg <= max);
+            arg = arg > 0   ? arg : 0;
+            arg = arg < max ? arg : max;
+        }
+
+        (void) arg;
+        (void) max;
+    }
+
     #define MUT_op(Init, Clear, Reserve, ...) fu::i old_size; fu::i new_size;\
         T* new_data = _Splice<Init, Clear, Reserve>(old_size, new_size,\
             __VA_ARGS__ ); (void)old_size; (void)new_size; (void)new_data;
@@ -833,6 +849,7 @@ struct fu_VEC
 
     template <typename I>
     void insert(I i, T&& item) noexcept {
+        CLAMP_arg(i, size());
         MUT_mid(i, Zero, One); MOV_ctor(new_data + i, item);
     }
 
@@ -847,6 +864,7 @@ struct fu_VEC
 
     template <typename I>
     void insert(I i, const T& item) noexcept {
+        CLAMP_arg(i, size());
         MUT_mid(i, Zero, One); CPY_ctor(new_data + i, item);
     }
 
@@ -894,6 +912,7 @@ struct fu_VEC
 
     template <bool ZERO_FILL = true, typename I, typename D, typename C>
     void splice_empty(I idx, D del, C count) noexcept {
+        CLAMP_arg(idx, size());
         MUT_mid(idx, del, count);
         DEF_initRange<ZERO_FILL>(new_data + idx, new_data + idx + count);
     }
@@ -919,6 +938,8 @@ struct fu_VEC
     {
         assert((void*)&src != (void*)this && "splice: rvalref alias");
 
+        CLAMP_arg(idx, size());
+
         T*    src_data = (T*) src.data();
         fu::i src_size =      src.size();
 
@@ -957,6 +978,8 @@ struct fu_VEC
         const T*  old_data = data();
               fu::i old_size = size();
 
+        CLAMP_arg(idx, old_size);
+
         if (src_data < old_data || src_data > old_data + old_size) {
             MUT_mid(idx, del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
@@ -976,6 +999,8 @@ struct fu_VEC
     {
         assert((void*)&src != (void*)this && "append: rvalref alias");
 
+        CLAMP_arg(del, size());
+
         const T*    src_data = src.data();
               fu::i src_size = src.size();
 
@@ -1016,6 +1041,8 @@ struct fu_VEC
         const T*    old_data = data();
               fu::i old_size = size();
 
+        CLAMP_arg(del, old_size);
+
         fu::i idx = old_size - del;
 
         if (src_data < old_data || src_data > old_data + old_size) {
-- 
2.43.0


From 5076f9348054a552aa8e68f2cc7439e00b6ffd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 05/11] fix: append through a slice deleted the items after the
 slice instead of its last ones

---
 include/fu/vec_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index 212c733..f81427c 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -180,7 +180,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice(
-            Left() + old_size, del,
+            (Left() + old_size) - del, del,
             static_cast<fu::vec<T>&&>(src));
     }
 
@@ -205,7 +205,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice_copy(
-            Left() + old_size, del,
+            (Left() + old_size) - del, del,
             src_data,
             src_size);
     }
-- 
2.43.0


From e2b5413b8ec3c3691444883476c841b942b91c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 06/11] fix: indexing a slice far out of range overflowed the
 index

---
 include/fu/vec_range.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index f81427c..960270a 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -71,7 +71,7 @@ struct vec_range_mut
 
     fu_INL const T& operator[](fu::i idx) const noexcept
     {
-        const T* ok = m_vec->data() + (idx + Left());
+        const T* ok = m_vec->data() + Left() + idx;
 
         #ifndef NDEBUG
         assert((fu::u) idx < (fu::u) size());
@@ -91,7 +91,7 @@ struct vec_range_mut
 
     fu_INL T& mutref(fu::i idx) noexcept
     {
-        T* ok = (T*) m_vec->data_mut() + (idx + Left());
+        T* ok = (T*) m_vec->data_mut() + Left() + idx;
 
         #ifndef NDEBUG
         assert((fu::u) idx < (fu::u) size());
@@ -621,7 +621,7 @@ struct vec_range
 
     fu_INL const T& operator[](fu::i idx) const noexcept
     {
-        const T* ok = m_vec->data() + (idx + Left());
+        const T* ok = m_vec->data() + Left() + idx;
 
         #ifndef NDEBUG
         assert((fu::u) idx < (fu::u) size());
-- 
2.43.0


From 05c580fe053068bcf22a5a760dce699ae7e7f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 07/11] fix: a request for nearly 2^64 bytes got a short block

---
 include/fu/mem/arc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fu/mem/arc.cpp b/include/fu/mem/arc.cpp
index ab0d7cf..64bc440 100644
--- a/include/fu/mem/arc.cpp
+++ b/include/fu/mem/arc.cpp
@@ -171,6 +171,10 @@ extern "C" fu_EXPORT char* fu_ARC_ALLOC(size_t* inout_bytes)
 {
     size_t bytes = *inout_bytes;
 
+    // Must not wrap.
+    if (bytes > 0x7fffffffu)
+        std::exit(fu_EXIT_BadAlloc);
+
     // Round up.
     bytes += sizeof(fu_ARC);
     char* mem = fu_POW2MEM_ALLOC(bytes);
-- 
2.43.0


From 9288f217ab57388be2152f4e652fc6c8e5d46672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 08/11] fix: sequences of different lengths at the same address
 compared equal

---
 include/fu/vec/LEGACY_cmp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fu/vec/LEGACY_cmp.h b/include/fu/vec/LEGACY_cmp.h
index e95ce31..1cf28b7 100644
--- a/include/fu/vec/LEGACY_cmp.h
+++ b/include/fu/vec/LEGACY_cmp.h
@@ -22,7 +22,7 @@ inline bool operator==(const A& a, const B& b) noexcept
     const auto  s1 = b.size();
 
     bool diff  = (s0 != s1);
-    bool same  = (d0 == d1) | (!diff & !s0);
+    bool same  = !diff & ((d0 == d1) | !s0);
     bool cheap = (same | diff);
 
     return cheap ? same : memcmp(d0, d1, size_t(s0)) == 0;
-- 
2.43.0


From 0cd17b0355b6013ea6a8dc47a6adf5c37422771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 09/11] fix: comparing sequences of wide items looked at a part
 of the bytes only

---
 include/fu/vec/LEGACY_cmp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fu/vec/LEGACY_cmp.h b/include/fu/vec/LEGACY_cmp.h
index 1cf28b7..c1fdeeb 100644
--- a/include/fu/vec/LEGACY_cmp.h
+++ b/include/fu/vec/LEGACY_cmp.h
@@ -25,7 +25,7 @@ inline bool operator==(const A& a, const B& b) noexcept
     bool same  = !diff & ((d0 == d1) | !s0);
     bool cheap = (same | diff);
 
-    return cheap ? same : memcmp(d0, d1, size_t(s0)) == 0;
+    return cheap ? same : memcmp(d0, d1, size_t(s0) * sizeof(*d0)) == 0;
 }
 
 A_B_VECLIKE()
-- 
2.43.0


From 3d5b4b3a0ff3c439fbbe66caf910200222a6f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 10/11] fix: the suffix test read past the end of the text

---
 include/fu/vec/LEGACY_find.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fu/vec/LEGACY_find.h b/include/fu/vec/LEGACY_find.h
index 1ef7d18..73c7a9c 100644
--- a/include/fu/vec/LEGACY_find.h
+++ b/include/fu/vec/LEGACY_find.h
@@ -140,7 +140,7 @@ bool rmatch(const H& haystack, const N& needle, S start = S(0)) noexcept
 
     auto* search = needle.data();
     auto* end    = search + nsize;
-    auto* match  = data   + (size - start);
+    auto* match  = data   + (size - start - nsize);
 
     for ( ; search < end; search++, match++)
         if (*search != *match)
-- 
2.43.0


From 637aeff674316e156e4940d3b3edbcea242bd264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 11/11] fix: the decimal text of a large floating point number
 was cut and ended in a zero byte

---
 include/fu/decstr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fu/decstr.cpp b/include/fu/decstr.cpp
index fbc31b8..6f0373f 100644
--- a/include/fu/decstr.cpp
+++ b/include/fu/decstr.cpp
@@ -39,13 +39,13 @@ fu_EXPORT fu::str fu::i64dec(int64_t num)
 
 fu_EXPORT fu::str fu::f64dec(double num)
 {
-    char buffer[64];
-    int len = snprintf(buffer, 64, "%f", num);
+    char buffer[512];
+    int len = snprintf(buffer, sizeof(buffer), "%f", num);
 
     fu::str res;
     res.UNSAFE__init_copy(
         buffer,
-        len > 0 ? len < 64 ? len : 64 : 0);
+        len > 0 ? len < (int) sizeof(buffer) ? len : (int) sizeof(buffer) - 1 : 0);
 
     return res;
 }
-- 
2.43.0

