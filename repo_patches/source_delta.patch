From 39be88ead27ddd44350d56e5f1a5f9b4c133e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 01/34] fix: gutil_ring_put must not exceed the maximum size

If more slots had been allocated than the maximum size allows (reserved
by the constructor, or the limit was lowered later), gutil_ring_put and
gutil_ring_put_front kept accepting elements until the buffer was full.
---
 src/gutil_ring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..244717f 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -281,7 +281,8 @@ gutil_ring_put(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start < 0) {
             r->start = r->end = 0;
         }
@@ -298,7 +299,8 @@ gutil_ring_put_front(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start >= 0) {
             r->start = (r->start + r->alloc - 1) % r->alloc;
         } else {
-- 
2.43.0


From 04607de2dc165bdbcd7058e5773aa3ad60429923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 02/34] fix: Integer overflow in gutil_ring_can_put

can_put(ring, G_MAXINT) returned TRUE for a non-empty limited ring.
---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 244717f..e3ffc97 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
-- 
2.43.0


From 01d8fe0304a080a390e78d8ab5836b51f00a60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 03/34] fix: Heap overflow after gutil_ring_flatten

The flattened buffer had room for the existing elements only but the
allocated size was left unchanged, and the following puts were writing
past the end of it.
---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index e3ffc97..2127ea3 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -428,7 +428,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From 34636c014cce648bab2d508c5ed53bed01e631f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 04/34] fix: Make gutil_ring_drop functions re-entrancy safe

The free function was called for an element which was still in the ring
(so that a nested gutil_ring_get or gutil_ring_clear would return or
free it again) and the loop didn't expect the callback to empty the ring.
---
 src/gutil_ring.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 2127ea3..a1bc2f2 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -364,10 +364,11 @@ gutil_ring_drop(
         } else {
             dropped = n;
             if (r->free_func) {
-                while ((n--) > 0) {
-                    r->free_func(r->data[r->start]);
-                    r->start = (r->start + 1) % r->alloc;
-                    GASSERT(r->start != r->end);
+                GDestroyNotify free_func = r->free_func;
+
+                /* The callback may modify the ring */
+                while ((n--) > 0 && gutil_ring_size(r) > 0) {
+                    free_func(gutil_ring_get(r));
                 }
             } else {
                 r->start = (r->start + n) % r->alloc;
@@ -392,10 +393,11 @@ gutil_ring_drop_last(
         } else {
             dropped = n;
             if (r->free_func) {
-                while ((n--) > 0) {
-                    r->end = (r->end + r->alloc - 1) % r->alloc;
-                    r->free_func(r->data[r->end]);
-                    GASSERT(r->start != r->end);
+                GDestroyNotify free_func = r->free_func;
+
+                /* The callback may modify the ring */
+                while ((n--) > 0 && gutil_ring_size(r) > 0) {
+                    free_func(gutil_ring_get_last(r));
                 }
             } else {
                 r->end = (r->end + r->alloc - n) % r->alloc;
-- 
2.43.0


From 0351a019cb2c020a9b7727032dc0aca496d39e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 05/34] fix: gutil_signed_mbn_decode must reject values which
 don't fit in 64 bits

Ten byte sequences starting with 0x81 or 0xfe have the sign bit 63
different from the sign of the encoded number, i.e. the number is not
representable and used to be returned with the wrong sign.
---
 src/gutil_datapack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..731c21d 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -165,8 +165,8 @@ gutil_signed_mbn_decode(
                         in->ptr += off;
                         return TRUE;
                     } else {
-                        /* Unused bits must be set to 1 */
-                        if ((msc | ((1 << (maxbits - nbits)) - 1)) == 0xff) {
+                        /* Sign bit and unused bits must be set to 1 */
+                        if ((msc | ((1 << (maxbits - nbits - 1)) - 1)) == 0xff) {
                             if (out) {
                                 *out = value;
                             }
@@ -176,9 +176,9 @@ gutil_signed_mbn_decode(
                     }
                 } else {
                     /* Positive number, unused bits (if any) must be zeroed */
-                    /* Unused bits must be zeroed */
+                    /* Sign bit and unused bits must be zeroed */
                     if ((nbits + 7) < maxbits ||
-                        (msc & ~((1 << (maxbits - nbits)) - 1)) == 0x80) {
+                        (msc & ~((1 << (maxbits - nbits - 1)) - 1)) == 0x80) {
                         if (out) {
                             *out = value;
                         }
-- 
2.43.0


From 91d35983c62c9df5242f884196b6f9d5f7100c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 06/34] fix: gutil_tlv_decode must reject huge lengths and zero
 tags

A length with the most significant bit set passed the range check as
a negative number and moved the range pointer backwards. A zero tag
was consumed from the range even though zero return value means that
nothing has been decoded, and gutil_tlvs_decode() took a zero tag for
the end of the input.
---
 src/gutil_datapack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 731c21d..5818a47 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -409,9 +409,9 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (gsize) (tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From 8bf6bf05d328a7b86aa0764f216432f7ccf8a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 07/34] fix: gutil_ints_unref_to_data crash on static data

It called NULL function for GUtilInts created without a destroy
function. Also, the data can be given away without copying only if
that's what g_free would have been called for.
---
 src/gutil_ints.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..11d341b 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -159,12 +159,14 @@ gutil_ints_unref_to_data(
             *count = ints->count;
         }
         if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
+            if (ints->free_func == g_free && ints->user_data == ints->data) {
                 /* We can allow the caller to free the data */
                 result = (int*)ints->data;
             } else {
                 result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
+                if (ints->free_func) {
+                    ints->free_func(ints->user_data);
+                }
             }
             gutil_slice_free(ints);
         } else {
-- 
2.43.0


From 5ebe5c77028c4cf20f63f207fe3499eed6b9a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 08/34] fix: gutil_ints_new_from_ints reference leak and
 integer overflow

Zero count leaked a reference to the original GUtilInts, and a large
count could wrap around making the new block too large.
---
 src/gutil_ints.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 11d341b..f63c85e 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -110,14 +110,11 @@ gutil_ints_new_from_ints(
     guint offset,
     guint count)
 {
-    if (ints && offset < ints->count) {
-        guint end = offset + count;
+    if (ints && offset < ints->count && count) {
+        const guint max = ints->count - offset;
 
-        if (end > ints->count) {
-            end = ints->count;
-        }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
+        return gutil_ints_new_with_free_func(ints->data + offset,
+            MIN(count, max), gutil_ints_unref1, gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From 1dcd982bd36bd1625dcad6ad8b95b7bfd53fcce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 09/34] fix: Integer overflow in GUtilIntArray sort functions

---
 src/gutil_intarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..cd6554c 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -320,7 +320,7 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -341,7 +341,7 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    return (*v2 > *v1) - (*v2 < *v1);
 }
 
 void
-- 
2.43.0


From ad5e2003249baf4994f99f908966e2b79d4190dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 10/34] fix: Integer overflow in gutil_int_array_remove_range

---
 src/gutil_intarray.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index cd6554c..309e513 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -301,12 +301,9 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        g_array_remove_range((GArray*)array, pos, MIN(count, max));
     }
     return array;
 }
-- 
2.43.0


From 32024a5e65a390868d42f2b3160e75ec0c637015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 11/34] fix: Missing range check in
 gutil_int_array_remove_index_fast

---
 src/gutil_intarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 309e513..4d3348e 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -288,7 +288,7 @@ gutil_int_array_remove_index_fast(
     GUtilIntArray* array,
     guint pos)
 {
-    if (array) {
+    if (array && pos < array->count) {
         g_array_remove_index_fast((GArray*)array, pos);
     }
     return array;
-- 
2.43.0


From dce27558c685276fb60cb44af50a0a1c74a46a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 12/34] fix: Use after free in gutil_strv_remove

Happened when removing all occurrences of a string, if the pointer to
the string to remove was taken from the array being modified.
---
 src/gutil_strv.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gutil_strv.c b/src/gutil_strv.c
index a637782..db4a888 100644
--- a/src/gutil_strv.c
+++ b/src/gutil_strv.c
@@ -244,18 +244,28 @@ gutil_strv_remove(
 
         if (pos >= 0) {
             guint len = gutil_strv_length(sv);
+            char* self = NULL; /* The string may belong to the array */
 
-            sv = gutil_strv_remove_impl(sv, pos, len, TRUE);
+            if (sv[pos] == s) {
+                self = sv[pos];
+            }
+            sv = gutil_strv_remove_impl(sv, pos, len, !self);
             if (remove_all) {
                 int i, l;
 
                 len--;
                 l = len - pos;
                 while ((i = gutil_strv_find_last_impl(sv + pos, s, l)) >= 0) {
-                    sv = gutil_strv_remove_impl(sv, pos + i, len--, TRUE);
+                    const gboolean is_self = (sv[pos + i] == s);
+
+                    if (is_self) {
+                        self = sv[pos + i];
+                    }
+                    sv = gutil_strv_remove_impl(sv, pos + i, len--, !is_self);
                     l = i;
                 }
             }
+            g_free(self);
         }
     }
     return sv;
-- 
2.43.0


From 77e3ad2133767a8f77fa304a5639f5e860722a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 13/34] fix: Blank string is not a valid integer

A non-empty string consisting of whitespaces was successfully parsed
as zero.
---
 src/gutil_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..09f8bbf 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -312,7 +312,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && end != stripped && !*end &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
@@ -347,7 +347,7 @@ gutil_parse_uint64(
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && end != stripped && !*end &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From 2f2ae3999e3eb1b1dad19f388c313eee6bc6fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 14/34] fix: gutil_data_copy truncated the size to 32 bits

---
 src/gutil_misc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 09f8bbf..e9919ea 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -410,10 +410,11 @@ gutil_data_from_bytes(
     return data;
 }
 
+static
 GUtilData*
-gutil_data_new(
+gutil_data_new_impl(
     const void* bytes,
-    guint len) /* Since 1.0.72 */
+    gsize len)
 {
     /*
      * The whole thing is allocated from a single memory block and
@@ -434,6 +435,14 @@ gutil_data_new(
     return data;
 }
 
+GUtilData*
+gutil_data_new(
+    const void* bytes,
+    guint len) /* Since 1.0.72 */
+{
+    return gutil_data_new_impl(bytes, len);
+}
+
 GUtilData*
 gutil_data_copy(
     const GUtilData* data) /* Since 1.0.72 */
@@ -442,7 +451,7 @@ gutil_data_copy(
      * The whole thing is allocated from a single memory block and
      * has to be freed with a single g_free()
      */
-    return data ? gutil_data_new(data->bytes, data->size) : NULL;
+    return data ? gutil_data_new_impl(data->bytes, data->size) : NULL;
 }
 
 GVariant*
-- 
2.43.0


From ed5aa13202836e43b5e1d83e424381fab9e9aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 15/34] fix: Integer overflow in GUtilIntHistory median
 calculation

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..1610566 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,7 +195,7 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((gint64)v + v1)/2;
             t = t1;
             v = v1;
         }
-- 
2.43.0


From c4c41abd92d278abf2e996f64e8934ad4df6de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 16/34] fix: Assertion failure in gutil_int_history_size

It's fine to have a single entry in the history.
---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 1610566..d15cbb7 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -139,7 +139,7 @@ gutil_int_history_size(
             if (h->first > h->last) {
                 return (h->max_size + h->last - h->first + 1);
             } else {
-                GASSERT(h->last > h->first);
+                GASSERT(h->last >= h->first);
                 return (h->last - h->first + 1);
             }
         }
-- 
2.43.0


From 24929caaf025905263bf63a5cc5cacc35dbb4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 17/34] fix: Use after free in GUtilIdleQueue

A callback may drop the last reference to the queue (or free it)
while the queue is being run.
---
 src/gutil_idlequeue.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..9f2822c 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -77,6 +77,10 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean result;
+
+    /* Callbacks may drop the last external reference */
+    gutil_idle_queue_ref(q);
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -115,11 +119,13 @@ gutil_idle_queue_run(
 
     if (q->first) {
         /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
+        result = G_SOURCE_CONTINUE;
     } else {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
+        result = G_SOURCE_REMOVE;
     }
+    gutil_idle_queue_unref(q);
+    return result;
 }
 
 GUtilIdleQueue*
-- 
2.43.0


From 0a66f308fa3c4b5163c67ea129b2b984b921aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 18/34] fix: Re-entrancy issues in GUtilIdlePool

1. An item being destroyed may drain the pool, which may drop the last
   reference to it and the pool would be accessed after it was freed.
2. An item added by another item being destroyed by the last unref made
   the pool be finalized twice.
---
 src/gutil_idlepool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..89fb458 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -138,8 +138,13 @@ gutil_idle_pool_unref(
         if (g_atomic_int_dec_and_test(&self->ref_count)) {
             /* Clear pointer to the shared instance */
             if (self->shared) *(self->shared) = NULL;
+            /* Items being destroyed may add more items, i.e. the pool may
+             * get temporarily referenced by the new idle source. */
+            g_atomic_int_inc(&self->ref_count);
             gutil_idle_pool_drain(self);
-            gutil_slice_free(self);
+            if (g_atomic_int_dec_and_test(&self->ref_count)) {
+                gutil_slice_free(self);
+            }
         }
     }
 }
@@ -162,6 +167,8 @@ gutil_idle_pool_drain(
     if (!self) {
         self = gutil_idle_pool_get_default();
     }
+    /* The last reference may be gone by the time we are done */
+    gutil_idle_pool_ref(self);
     while (self->first) {
         GUtilIdlePoolItem* items = self->first;
         GUtilIdlePoolItem* item = items;
@@ -179,6 +186,7 @@ gutil_idle_pool_drain(
         self->idle_id = 0;
         g_source_remove(id);
     }
+    gutil_idle_pool_unref(self);
 }
 
 static
-- 
2.43.0


From 3da1db8f183d567dc952e5e6f98a89262017316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 19/34] fix: Don't print garbage if the timestamp doesn't fit

strftime() leaves the contents of the buffer undefined if the result
doesn't fit there, in which case it returns zero.
---
 src/gutil_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..ebb35bf 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -181,7 +181,10 @@ gutil_log_stdio(
 #endif
 
         time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
+        if (!strftime(t, sizeof(t), gutil_log_ftime, localtime(&now))) {
+            /* Contents of the buffer is undefined in this case */
+            t[0] = 0;
+        }
 #undef localtime
     } else {
         t[0] = 0;
-- 
2.43.0


From c4fde5cf0a51f6bcca0845970b312fcbbf9dd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 20/34] fix: gutil_log must honor flags of the default module

gutil_log_enabled(NULL, level) returned FALSE if the default module was
disabled (or inherited its level from a parent) but gutil_log(NULL, ...)
was still printing the message.
---
 src/gutil_log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index ebb35bf..46def26 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -440,7 +440,8 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
-        gutil_logv_r(module, module, level, format, va);
+        gutil_logv_r(module, module ? module : &gutil_log_default, level,
+            format, va);
     }
 }
 
-- 
2.43.0


From 760f8e969c2c0bd740651424817450409b66a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 21/34] fix: gutil_log_dump could loop forever

The size was truncated to 32 bits before being passed to gutil_hexdump(),
which consumed nothing if the remaining size was a multiple of 4 GiB.
---
 src/gutil_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 46def26..6848e21 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -518,10 +518,12 @@ gutil_log_dump2(
     if (!prefix) prefix = "";
     while (size > 0) {
         char buf[GUTIL_HEXDUMP_BUFSIZE];
-        const guint consumed = gutil_hexdump(buf, ptr + off, size);
+        const guint consumed = gutil_hexdump(buf, ptr,
+            (guint) MIN(size, G_MAXUINT));
 
         gutil_log(module, level, "%s%04X: %s", prefix, off, buf);
         size -= consumed;
+        ptr += consumed;
         off += consumed;
     }
 }
-- 
2.43.0


From b11127b6f0a54ae5d820cf3b96b8b7968ac764de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 22/34] fix: Unbalanced parentheses in GUTIL_VERSION_1_0_xx
 macros

---
 include/gutil_version.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gutil_version.h b/include/gutil_version.h
index 8d47af5..80d10fc 100644
--- a/include/gutil_version.h
+++ b/include/gutil_version.h
@@ -78,11 +78,11 @@ extern const guint gutil_version_micro; /* GUTIL_VERSION_MICRO */
 #define GUTIL_VERSION_1_0_72 GUTIL_VERSION_(1,0,72)
 #define GUTIL_VERSION_1_0_73 GUTIL_VERSION_(1,0,73)
 #define GUTIL_VERSION_1_0_74 GUTIL_VERSION_(1,0,74)
-#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75))
-#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76))
-#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77))
-#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78))
-#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79))
+#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75)
+#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76)
+#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77)
+#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78)
+#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79)
 
 G_END_DECLS
 
-- 
2.43.0


From 20f3ac197145810010e66f4e03405e13147d82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 23/34] fix: Don't interpret incomplete inotify events

---
 src/gutil_inotify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 7349f1d..08da415 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -149,7 +149,7 @@ gutil_inotify_read(
     } else {
         const char* next = self->buf;
 
-        while (nbytes > 0) {
+        while (nbytes >= sizeof(struct inotify_event)) {
             const struct inotify_event* event = (void*)next;
             const size_t len = sizeof(struct inotify_event) + event->len;
             const char* path = event->len ? event->name : NULL;
-- 
2.43.0


From ddbf942db72e31ae2da8e8de0742c4e6f09c8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 24/34] fix: unsigned parser accepted negative numbers after a
 vertical tab

---
 src/gutil_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index e9919ea..23fa857 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -341,7 +341,8 @@ gutil_parse_uint64(
         char* tmp = NULL;
         const char* stripped = gutil_strstrip(str, &tmp);
 
-        if (*stripped != '-') {
+        /* And strtoull may skip more whitespaces than g_strstrip */
+        if (!strchr(stripped, '-')) {
             char* end = NULL;
             guint64 ull;
 
-- 
2.43.0


From f3169315f995229e4d6b67f5901fdcf535ee3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 25/34] fix: gutil_hexdump passed negative characters to
 isprint, which also depends on the locale

---
 src/gutil_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 23fa857..ef3619b 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -236,7 +236,7 @@ gutil_hexdump(
     for (i=0; i<bytes_dumped; i++) {
         const char c = bytes[i];
         if (i == 8) *ptr++ = ' ';
-        *ptr++ = isprint(c) ? c : '.';
+        *ptr++ = g_ascii_isprint(c) ? c : '.';
     }
 
     *ptr++ = 0;
-- 
2.43.0


From d1e05ba508615ef47e4fbde35a0ee685188d6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 26/34] fix: destroy callbacks could see stale handler and
 source ids

---
 src/gutil_misc.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index ef3619b..b335caf 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -52,9 +52,12 @@ gutil_disconnect_handlers(
         int i;
 
         for (i=0; i<count; i++) {
-            if (ids[i]) {
-                g_signal_handler_disconnect(instance, ids[i]);
+            const gulong id = ids[i];
+
+            if (id) {
+                /* Disconnecting the handler may invoke a destroy callback */
                 ids[i] = 0;
+                g_signal_handler_disconnect(instance, id);
             }
         }
     }
@@ -99,8 +102,11 @@ gutil_source_clear(
 {
     /* Yet another zero-tolerant version of g_source_remove */
     if (id && *id) {
-        g_source_remove(*id);
+        const guint source_id = *id;
+
+        /* Removing the source may invoke a destroy callback */
         *id = 0;
+        g_source_remove(source_id);
         return TRUE;
     }
     return FALSE;
-- 
2.43.0


From e73c364289491de15cec597ed543fe7065c6af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 27/34] fix: items added to GUtilIdleQueue by destroy callbacks
 of its last items were leaked

---
 src/gutil_idlequeue.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index 9f2822c..4ffe181 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -163,7 +163,10 @@ gutil_idle_queue_unref(
     if (G_LIKELY(q)) {
         GASSERT(q->ref_count > 0);
         if (g_atomic_int_dec_and_test(&q->ref_count)) {
-            gutil_idle_queue_cancel_all(q);
+            do {
+                /* Items being destroyed may add more items */
+                gutil_idle_queue_cancel_all(q);
+            } while (q->first);
             gutil_slice_free(q);
         }
     }
-- 
2.43.0


From 9e94ab01686b6073dd111449bdef222f05ad1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 28/34] fix: don't close inotify file descriptor twice

---
 src/gutil_inotify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 08da415..186d095 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -120,9 +120,9 @@ gutil_inotify_unref(
         }
         GASSERT(!g_hash_table_size(self->watches));
         g_hash_table_destroy(self->watches);
+        /* This closes the file descriptor too */
         g_io_channel_shutdown(self->io_channel, FALSE, NULL);
         g_io_channel_unref(self->io_channel);
-        close(self->fd);
         g_free(self);
         if (gutil_inotify_instance == self) {
             gutil_inotify_instance = NULL;
-- 
2.43.0


From c1d0f999eab9a353b2092a3097a873f405148c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 29/34] fix: don't log names of incomplete inotify events

---
 src/gutil_inotify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 186d095..e08f894 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -154,7 +154,6 @@ gutil_inotify_read(
             const size_t len = sizeof(struct inotify_event) + event->len;
             const char* path = event->len ? event->name : NULL;
 
-            GDEBUG("Inotify event 0x%04x for %s", event->mask, path);
             GASSERT(len <= nbytes);
             if (len > nbytes) {
                 break;
@@ -162,6 +161,7 @@ gutil_inotify_read(
                 GUtilInotifyWatch* watch = g_hash_table_lookup(self->watches,
                     GINT_TO_POINTER(event->wd));
 
+                GDEBUG("Inotify event 0x%04x for %s", event->mask, path);
                 if (watch) {
                     gutil_inotify_watch_ref(watch);
                     g_signal_emit(watch,
-- 
2.43.0


From 1e99843a0b525001f726c30d50878a75eb178b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 30/34] fix: logging macros of compilers without GNU extensions

GLOG_VA_NONE_ was not defined, so that gutil_log.h did not compile with
debug messages disabled, and GDEBUG_DUMP and GDEBUG_DUMP_BYTES were
missing altogether
---
 include/gutil_log.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/gutil_log.h b/include/gutil_log.h
index ad0bc96..0f26c76 100644
--- a/include/gutil_log.h
+++ b/include/gutil_log.h
@@ -219,8 +219,9 @@ extern GLogModule GLOG_MODULE_NAME;
 
 #ifndef GLOG_VARARGS
 #  define GLOG_VA_FN(x) _gutil_log_##x
-#  define GLOG_VA_NONE(x) G_INLINE_FUNC \
-    void GLOG_VA_FN(x)(const char* f, ...) {}
+#  define GLOG_VA_NONE(x) GLOG_VA_NONE_(GLOG_VA_FN(x),x)
+#  define GLOG_VA_NONE_(fn,x) G_INLINE_FUNC \
+    void fn(const char* f, ...) {}
 #  define GLOG_VA(x) GLOG_VA_(GLOG_VA_FN(x),x)
 #  define GLOG_VA_(fn,x) G_INLINE_FUNC \
     void fn(const char* f, ...) { \
@@ -352,8 +353,14 @@ gutil_log_assert(
 #  define GDEBUG                GLOG_VA_FN(debug)
 #  if GUTIL_LOG_DEBUG
      GLOG_VA_(GDEBUG,DEBUG)
+#    define GDEBUG_DUMP(buf,n)  gutil_log_dump(GLOG_MODULE_CURRENT, \
+       GLOG_LEVEL_DEBUG, NULL, buf, n) /* Since 1.0.55 */
+#    define GDEBUG_DUMP_BYTES(b) gutil_log_dump_bytes(GLOG_MODULE_CURRENT, \
+       GLOG_LEVEL_DEBUG, NULL, b) /* Since 1.0.67 */
 #  else
      GLOG_VA_NONE_(GDEBUG,DEBUG)
+#    define GDEBUG_DUMP(buf,n)  GLOG_NOTHING /* Since 1.0.55 */
+#    define GDEBUG_DUMP_BYTES(b) GLOG_NOTHING /* Since 1.0.67 */
 #  endif /* GUTIL_LOG_DEBUG */
 #endif /* GLOG_VARARGS */
 
-- 
2.43.0


From 733e20d891c40020eb840f71255b86f5d5a12da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 31/34] fix: Read the data of GUtilInts before releasing the
 reference to it

---
 src/gutil_ints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index f63c85e..6ec1ba9 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -155,19 +155,15 @@ gutil_ints_unref_to_data(
         if (count) {
             *count = ints->count;
         }
-        if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free && ints->user_data == ints->data) {
-                /* We can allow the caller to free the data */
-                result = (int*)ints->data;
-            } else {
-                result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                if (ints->free_func) {
-                    ints->free_func(ints->user_data);
-                }
-            }
+        if (g_atomic_int_get(&ints->ref_count) == 1 &&
+            ints->free_func == g_free && ints->user_data == ints->data) {
+            /* Nobody else is using it, the caller can free the data */
+            result = (int*)ints->data;
             gutil_slice_free(ints);
         } else {
+            /* The data may be gone as soon as the reference is released */
             result = gutil_memdup(ints->data, ints->count * sizeof(int));
+            gutil_ints_unref(ints);
         }
         return result;
     } else {
-- 
2.43.0


From 9c9684ad5c55766267d69e143e6fe7d1005eecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 32/34] fix: Don't let the destroy function exceed the new
 maximum size of the ring

---
 src/gutil_ring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index a1bc2f2..e88a137 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -140,10 +140,11 @@ gutil_ring_set_max_size(
     if (G_LIKELY(r) && r->maxsiz != max_size) {
         const gint size = gutil_ring_size(r);
 
+        /* Destroy function must not be able to exceed the new limit */
+        r->maxsiz = max_size;
         if (max_size >= 0 && size > max_size) {
             gutil_ring_drop(r, size - max_size);
         }
-        r->maxsiz = max_size;
     }
 }
 
-- 
2.43.0


From dd7665608354768084a13965959cf5289800f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 33/34] fix: Avoid signed overflow when extending the sign bit

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 5818a47..1f44b05 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -159,7 +159,7 @@ gutil_signed_mbn_decode(
                     if ((nbits + 7) < maxbits) {
                         /* Extend the sign bit */
                         if (out) {
-                            *out = value | ~((G_GINT64_CONSTANT(1) <<
+                            *out = value | ~((G_GUINT64_CONSTANT(1) <<
                                 (nbits + 7)) - 1);
                         }
                         in->ptr += off;
-- 
2.43.0


From 573ab62a9dc21d374308ce0da9674e260b44ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 34/34] fix: Do not accumulate rounding errors in the history
 median

---
 src/gutil_history.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index d15cbb7..7076a3d 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,12 +195,13 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*((gint64)v + v1)/2;
+            /* Divided by two at the end, not to accumulate rounding errors */
+            area += (t1 - t)*((gint64)v + v1);
             t = t1;
             v = v1;
         }
         /* Integral area divided by time */
-        return (int)(area/dt);
+        return (int)(area/(2*dt));
     }
 }
 
-- 
2.43.0

