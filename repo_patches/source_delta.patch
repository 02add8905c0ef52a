From b05948c42ce85753db4db1a1979f005b0c1355dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 01/42] fix: querying a big allocation must not unlink it from
 the used list

---
 src/iso_alloc.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..1dc2ede 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1755,19 +1755,19 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
-                prev->next = big_zone->next;
-            }
-
-            _root->big_zone_used_count--;
+            if(remove == true) {
+                /* If this is our first iteration then we are returning the
+                 * used list head. Set its new value to the next entry */
+                if(prev == NULL) {
+                    _root->big_zone_used = big_zone->next;
+                } else {
+                    prev->next = big_zone->next;
+                }
 
-            /* If this is our first iteration then we are returning the
-             * used list head. Set its new value to the next entry */
-            if(prev == NULL) {
-                _root->big_zone_used = big_zone->next;
+                _root->big_zone_used_count--;
+                big_zone->next = NULL;
             }
 
-            big_zone->next = NULL;
             UNLOCK_BIG_ZONE_USED();
             return big_zone;
         }
-- 
2.43.0


From 14b599fb76e5b1f54f8f747818668a731306eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 02/42] fix: keep the index of zone 0 when it is retired and
 replaced

---
 src/iso_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1dc2ede..ffe3dca 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -491,8 +491,8 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
 
     create_guard_page(user_pages_guard_above);
 
-    /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    /* We are replacing a retired zone, which may be the first one */
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From a126877bf14bc5d6ed0de21b86793118318aa907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 03/42] fix: detect frees of permanently freed and canary
 chunks

---
 src/iso_alloc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ffe3dca..b17b025 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1442,6 +1442,13 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
 
+    /* Both bits are set for chunks that are a canary or were
+     * permanently free'd. Neither can ever be free'd (again) */
+    if(UNLIKELY((GET_BIT(b, (which_bit + 1))) == 1)) {
+        LOG_AND_ABORT("Free of canary or permanently free'd chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
+                      p, zone->index, dwords_to_bit_slot, bit_slot);
+    }
+
     /* Set the next bit so we know this chunk was used */
     SET_BIT(b, (which_bit + 1));
 
-- 
2.43.0


From 5db22d9a30981bb4a88668383244154b149f3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 04/42] fix: refuse sizes that overflow when rounded up

---
 src/iso_alloc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b17b025..a5fcaa7 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1029,6 +1029,12 @@ INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
 
+    /* Rounding the size up must not overflow */
+    if(UNLIKELY(size > (SIZE_MAX - SZ_ALIGNMENT))) {
+        LOG("Call to calloc() will overflow size=%lu", size);
+        return NULL;
+    }
+
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
@@ -1063,6 +1069,15 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     }
 #endif
 
+    /* Rounding the size up must not overflow */
+    if(UNLIKELY(size > (SIZE_MAX - SZ_ALIGNMENT))) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("Cannot allocate %lu bytes", size);
+#endif
+        LOG("Cannot allocate %lu bytes", size);
+        return NULL;
+    }
+
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
-- 
2.43.0


From 7e81049adc523cb22fb35e6b3aa9b0cdb57910fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 05/42] fix: string duplication copies the terminator and stays
 in bounds

---
 src/iso_alloc_interfaces.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..b01942d 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -113,7 +113,8 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         return NULL;
     }
 
-    size_t size = strlen(str);
+    /* Include the NUL terminator */
+    size_t size = strlen(str) + 1;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
@@ -138,25 +139,25 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    /* At most n bytes of str may be read */
+    size_t size = 0;
+
+    while(size < n && str[size] != '\0') {
+        size++;
+    }
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
-
+    _iso_alloc_memcpy(p, str, size);
+    p[size] = '\0';
     return p;
 }
 
-- 
2.43.0


From 877591b1eedc339986a520ab83f5a2ae4f1fd5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 06/42] fix: memory tags of chunks whose size is not a power of
 two

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..3501b5a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
-- 
2.43.0


From 6624a37bccde1b7d130c3b7afce31af7c01024c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 07/42] fix: freeing a chunk always changes its memory tag

---
 src/iso_alloc.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index a5fcaa7..1e4b9d9 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1715,14 +1715,20 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_free_internal_unlocked(void *p, bool perm
          * tags and start fresh. If the whole zone doesn't need to
          * be refreshed then just generate a new tag for this chunk */
         if(zone->tagged == true) {
+            void *user_pages_start = UNMASK_USER_PTR(zone);
+            uint8_t *_mtp = (user_pages_start - g_page_size - ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE));
+            uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
+            _mtp += (chunk_offset / zone->chunk_size);
+            const uint8_t old_tag = *_mtp;
+
             if(_refresh_zone_mem_tags(zone) == false) {
-                /* We only need to refresh this single tag */
-                void *user_pages_start = UNMASK_USER_PTR(zone);
-                uint8_t *_mtp = (user_pages_start - g_page_size - ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE));
-                uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
-                _mtp += (chunk_offset / zone->chunk_size);
+                /* We only need to refresh this single tag.
+                 * Generate and write a new tag for this chunk */
+                *_mtp = (uint8_t) us_rand_uint64(&_root->seed);
+            }
 
-                /* Generate and write a new tag for this chunk */
+            /* A stale pointer must never carry the current tag */
+            while(*_mtp == old_tag) {
                 *_mtp = (uint8_t) us_rand_uint64(&_root->seed);
             }
         }
-- 
2.43.0


From 2e7be57d6747c7ec79eb3f0756ccd33bcd94504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 08/42] fix: refresh the memory tags of idle worn zones

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 3501b5a..12a0d8a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,9 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        uint64_t *_mtp = (UNMASK_USER_PTR(zone) - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From 463a7a12c0c4b2b7c28514f57a098b5a1e46a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 09/42] fix: compare the tag byte when verifying a tagged
 pointer

---
 src/iso_alloc_mem_tags.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 12a0d8a..5c918fe 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -40,8 +40,10 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
     const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
 
-    if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
-        LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
+    const uint64_t ptr_tag = ((uintptr_t) p & IS_TAGGED_PTR_MASK) >> UNTAGGED_BITS;
+
+    if(tag != ptr_tag) {
+        LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ptr_tag, tag);
     }
 #endif
     return;
-- 
2.43.0


From 811ab087c17510bc1e37f9c027981154c92800f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 10/42] fix: only count chunks the zone bitmap can represent

---
 src/iso_alloc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1e4b9d9..c05fc6e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -374,6 +374,14 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     new_zone->bitmap_size = (bitmap_size > sizeof(bitmap_index_t)) ? bitmap_size : sizeof(bitmap_index_t);
     new_zone->max_bitmap_idx = (new_zone->bitmap_size >> 3);
 
+    /* The bitmap is managed in qwords. Chunks that are not
+     * covered by a full qword can never be handed out */
+    const uint32_t max_chunks = (new_zone->max_bitmap_idx * (BITS_PER_QWORD / BITS_PER_CHUNK));
+
+    if(new_zone->chunk_count > max_chunks) {
+        new_zone->chunk_count = max_chunks;
+    }
+
     if(g_page_size >= new_zone->bitmap_size) {
         const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
@@ -1438,7 +1446,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
-- 
2.43.0


From f14320333f41e38f97571911c0bae0fce6b098ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 11/42] fix: ROUND_DOWN_PAGE of a page aligned address

---
 include/iso_alloc_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..40cd1eb 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    (((n) >> g_page_size_shift) * (g_page_size))
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
-- 
2.43.0


From a345a68e93c7ff01173e7c15e951916ef4b272a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 12/42] fix: unmap the meta data page of big zones

---
 src/iso_alloc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index c05fc6e..0960400 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1876,9 +1876,9 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2121,9 +2121,9 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
-- 
2.43.0


From 3aaee0de76748c704d04fe779f503adcc0b708cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 13/42] fix: iso_alloc_new_zone returns NULL for unsupported
 sizes

---
 src/iso_alloc_interfaces.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index b01942d..f863c9a 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -232,6 +232,11 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From 0e786545f9adccb6b14e8acea59481a76b97cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 14/42] fix: hold the big zone locks while verifying big zones

---
 src/iso_alloc_sanity.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..0cc7603 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -82,9 +82,15 @@ INTERNAL_HIDDEN void _verify_all_zones(void) {
         _verify_zone(zone);
     }
 
-    /* Root is locked already */
+    /* Root is locked already but the big zone
+     * lists are protected by their own locks */
+    LOCK_BIG_ZONE_USED();
     _verify_big_zone_list(_root->big_zone_used);
+    UNLOCK_BIG_ZONE_USED();
+
+    LOCK_BIG_ZONE_FREE();
     _verify_big_zone_list(_root->big_zone_free);
+    UNLOCK_BIG_ZONE_FREE();
 }
 
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
-- 
2.43.0


From 10999d2e8fe63230057a1516163e557e68bee0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 15/42] fix: sample ordinary allocations, never those of
 private zones

---
 include/iso_alloc_sanity.h | 2 +-
 src/iso_alloc.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 02f23a6..cda917b 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -16,7 +16,7 @@
 
 #define SANITY_SAMPLE_ODDS 10000
 #define MAX_SANE_SAMPLES 1024
-#define SANE_CACHE_SIZE 65535
+#define SANE_CACHE_SIZE 65536
 #define SANE_CACHE_IDX(p) (((uint64_t) p >> 8) & 0xffff)
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 0960400..a4137ff 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1123,7 +1123,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
-    if(zone != NULL) {
+    if(zone == NULL) {
         if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
-- 
2.43.0


From 8fada41f06be84a155ba4d139980b67cc37da32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 16/42] fix: do not abort when another thread takes the last
 sample slot

---
 src/iso_alloc_sanity.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 0cc7603..eea3d1b 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -360,7 +360,6 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     _sane_allocation_t *sane_alloc = NULL;
 
     LOCK_SANITY_CACHE();
-    UNLOCK_ROOT();
 
     /* Find the first free slot in our sampled storage */
     for(uint32_t i = 0; i < MAX_SANE_SAMPLES; i++) {
@@ -370,11 +369,15 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         }
     }
 
-    /* There are no available slots in the cache */
+    /* There are no available slots in the cache. Another thread
+     * may have taken the last one before we got the lock */
     if(sane_alloc == NULL) {
-        LOG_AND_ABORT("There are no free slots in the cache, there should be %d", _sane_sampled);
+        UNLOCK_SANITY_CACHE();
+        return NULL;
     }
 
+    UNLOCK_ROOT();
+
     sane_alloc->orig_size = size;
     void *p = mmap_guarded_rw_pages(g_page_size, false, SAMPLED_ALLOC_NAME);
 
-- 
2.43.0


From fd0d1ca4cef89cc8707d74e24f56a2773e84584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 17/42] fix: strong size isolation applies to ordinary zones

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index a4137ff..c2eef53 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -807,7 +807,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t
     }
 
 #if STRONG_SIZE_ISOLATION
-    if(UNLIKELY(zone->internal == false && size != zone->chunk_size)) {
+    if(UNLIKELY(zone->internal == true && size != zone->chunk_size)) {
         return NULL;
     }
 #endif
-- 
2.43.0


From d91020ddaa2a90f382bf90b94517ed613c879d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 18/42] fix: operator new throws bad_alloc instead of returning
 NULL

---
 src/iso_alloc.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index 90fce59..01b50ed 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -23,11 +23,32 @@ extern "C" __attribute__((constructor(FIRST_CTOR + 1))) void iso_cpp(void) {
 #define NEW_EXCEPT
 #endif
 
+// The throwing forms of operator new never return NULL,
+// they call the installed new handler until it throws
+static void *iso_new(size_t size) NEW_EXCEPT {
+    void *p = iso_alloc(size);
+
+#if !ABORT_ON_NULL
+    while(p == NULL) {
+        std::new_handler handler = std::get_new_handler();
+
+        if(handler == NULL) {
+            throw std::bad_alloc();
+        }
+
+        handler();
+        p = iso_alloc(size);
+    }
+#endif
+
+    return p;
+}
+
 // These hooks override the basic new/delete
 // operators to use the iso_alloc API
 
 EXTERNAL_API FLATTEN void *operator new(size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
@@ -35,7 +56,7 @@ EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete[](void *p) noexcept {
@@ -67,11 +88,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *ptr, const std::nothrow_t &) n
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val) noexcept {
-- 
2.43.0


From 88f56478d88ff357896e6778194a282c25437018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 19/42] fix: return all recorded profiler traces

---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 9e4078d..ed324bd 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -244,16 +244,16 @@ INTERNAL_HIDDEN uint64_t __iso_alloc_big_zone_mem_usage(iso_alloc_big_zone_t *he
  * be used to interpret allocation patterns */
 INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t));
     size_t sz = _alloc_bts_count;
+    __iso_memcpy(traces_out, _alloc_bts, sz * sizeof(iso_alloc_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
 
 INTERNAL_HIDDEN size_t _iso_get_free_traces(iso_free_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t));
     size_t sz = _free_bts_count;
+    __iso_memcpy(traces_out, _free_bts, sz * sizeof(iso_free_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
-- 
2.43.0


From 7896d522af7389eb7fa671c3cf6e15badd71d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 20/42] fix: count the first sampled call of each profiler
 trace

---
 src/iso_alloc_profiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index ed324bd..af08382 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -442,6 +442,9 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
         if(abts == NULL) {
             abts = &_alloc_bts[_alloc_bts_count];
             abts->backtrace_hash = hash;
+            abts->lower_bound_size = size;
+            abts->upper_bound_size = size;
+            abts->call_count = 1;
 
             _save_alloc_backtrace(abts);
             _alloc_bts_count++;
@@ -476,6 +479,7 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
         if(fbts == NULL) {
             fbts = &_free_bts[_free_bts_count];
             fbts->backtrace_hash = hash;
+            fbts->call_count = 1;
 
             _save_free_backtrace(fbts);
             _free_bts_count++;
-- 
2.43.0


From 51b16d610bcc3d7096575f471b98a38034ab1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 21/42] fix: profiler map index of the largest chunk size

---
 include/iso_alloc_profiler.h | 2 +-
 src/iso_alloc_profiler.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index b122318..a4fcc41 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -30,7 +30,7 @@ typedef struct {
     uint64_t count;
 } zone_profiler_map_t;
 
-zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX];
+zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX + 1];
 
 /* iso_alloc_traces_t is a public structure, and
  * is defined in the public header iso_alloc.h */
diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index af08382..239de15 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -374,7 +374,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
         }
     }
 
-    for(int i = 0; i < SMALL_SIZE_MAX; i++) {
+    for(int i = 0; i <= SMALL_SIZE_MAX; i++) {
         if(_zone_profiler_map[i].count != 0) {
             _iso_alloc_printf(profiler_fd, "%d,%d,%d\n", i, _zone_profiler_map[i].total, _zone_profiler_map[i].count);
         }
-- 
2.43.0


From b69430c64453c1fbf262225da121078ca2379fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 22/42] fix: hold the root lock while recording free traces

---
 src/iso_alloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index c2eef53..912ded2 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1583,7 +1583,10 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if HEAP_PROFILER
+    /* The profiler globals are protected by the root lock */
+    LOCK_ROOT();
     _iso_free_profile();
+    UNLOCK_ROOT();
 #endif
 
 #if ARM_MTE
-- 
2.43.0


From c995732be66efeb6d1f08e4add84c8928a833fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 23/42] fix: unmap the lower guard page of memory tags

---
 src/iso_alloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 912ded2..83673c5 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -224,7 +224,8 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
         void *_mtp = (zone->user_pages_start - s - g_page_size);
-        munmap(_mtp, g_page_size + s);
+        /* The tags have a guard page on either side */
+        munmap(_mtp - g_page_size, s + (g_page_size * 2));
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From fa2c5703f55b3e0e14c49d0a5a3b05b22db28d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 24/42] fix: fall back to normal pages when huge pages are
 unavailable

---
 src/iso_alloc_util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..c2c6de3 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,8 +151,16 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
+    void *hint_addr = p;
     p = mmap(p, sz, prot, flags, fd, 0);
 
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* Huge pages may not be available */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB) != 0) {
+        p = mmap(hint_addr, sz, prot, (flags & ~MAP_HUGETLB), fd, 0);
+    }
+#endif
+
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
     }
-- 
2.43.0


From 724e3b36071a8c18bbbc99e2a20ce54586a95130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 25/42] fix: surround preallocated bitmap pages with guard
 pages

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 83673c5..92c6014 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -128,7 +128,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1 - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        _root->bitmaps[i].bitmap = mmap_rw_pages(g_page_size, false, name);
+        _root->bitmaps[i].bitmap = mmap_guarded_rw_pages(g_page_size, false, name);
         _root->bitmaps[i].bucket = small_bitmap_sizes[i];
     }
 
@@ -2207,7 +2207,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        munmap(_root->bitmaps[i].bitmap, g_page_size);
+        if(_root->bitmaps[i].bitmap != NULL) {
+            unmap_guarded_pages(_root->bitmaps[i].bitmap, g_page_size);
+        }
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
-- 
2.43.0


From 65ad98bd3874ee511d3d0f166cce91790f8efe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 26/42] fix: check memory function bounds up to the end of a
 zone

---
 src/iso_alloc_sanity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index eea3d1b..c5c4906 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -4,7 +4,7 @@
 #include "iso_alloc_internal.h"
 
 #if MEMCPY_SANITY || MEMSET_SANITY
-#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) - n > p && n > sz)
+#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) > p && n > sz)
 #endif
 
 #if ENABLE_ASAN
-- 
2.43.0


From cabd99d0a166366f22b5a2149414098b25ec0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 27/42] fix: checked memory functions must not be compiled into
 calls to themselves

---
 src/iso_alloc_sanity.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index c5c4906..98ab16f 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -421,8 +421,10 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
 
 INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restrict src, size_t n) {
 #if MEMCPY_SANITY
-    char *p_dest = (char *) dest;
-    char const *p_src = (char const *) src;
+    /* These loops must not be turned back into a call to the
+     * libc function they implement, hence the volatile pointers */
+    volatile char *p_dest = (volatile char *) dest;
+    volatile char const *p_src = (volatile char const *) src;
 
     while(n--) {
         *p_dest++ = *p_src++;
@@ -463,8 +465,8 @@ INTERNAL_HIDDEN void *_iso_alloc_memcpy(void *restrict dest, const void *restric
 
 INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n) {
 #if MEMCPY_SANITY
-    char *p_dest = (char *) dest;
-    char const *p_src = (char const *) src;
+    volatile char *p_dest = (volatile char *) dest;
+    volatile char const *p_src = (volatile char const *) src;
 
     if(dest == src) {
         return dest;
@@ -515,7 +517,7 @@ INTERNAL_HIDDEN void *_iso_alloc_memmove(void *dest, const void *src, size_t n)
 
 INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 #if MEMSET_SANITY
-    char *p_dest = (char *) dest;
+    volatile char *p_dest = (volatile char *) dest;
 
     while(n--) {
         *p_dest++ = b;
-- 
2.43.0


From 96cba7c0bf2effe7187410ae92c4b57a59d49736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 28/42] fix: reject invalid frees of sampled allocations

---
 include/iso_alloc_sanity.h |  2 +-
 src/iso_alloc.c            |  4 ++--
 src/iso_alloc_sanity.c     | 16 +++++++++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index cda917b..0ef5221 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -69,7 +69,7 @@ INTERNAL_HIDDEN void *_page_fault_thread_handler(void *uf_fd);
 INTERNAL_HIDDEN INLINE void write_sanity_canary(void *p);
 INTERNAL_HIDDEN INLINE void check_sanity_canary(_sane_allocation_t *sane_alloc);
 INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size);
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p);
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size);
 INTERNAL_HIDDEN int32_t _remove_from_sane_trace(void *p);
 INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p);
 #endif
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 92c6014..8eabd8b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1576,7 +1576,7 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, 0);
 
     if(r == OK) {
         return;
@@ -1636,7 +1636,7 @@ INTERNAL_HIDDEN void _iso_free_size(void *p, size_t size) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, size);
 
     if(r == OK) {
         return;
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 98ab16f..397877a 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -330,11 +330,25 @@ INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p) {
     return NULL;
 }
 
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size) {
     LOCK_SANITY_CACHE();
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
     if(sane_alloc != NULL) {
+        void *start = sane_alloc->address;
+
+        if(sane_alloc->right_aligned == true) {
+            start = (sane_alloc->address + g_page_size) - sane_alloc->orig_size;
+        }
+
+        if(UNLIKELY(p != start)) {
+            LOG_AND_ABORT("Invalid free of sampled allocation at 0x%p, expected 0x%p", p, start);
+        }
+
+        if(UNLIKELY(sane_alloc->orig_size < size)) {
+            LOG_AND_ABORT("Invalid size (expected %d, got %d) for sampled allocation 0x%p", sane_alloc->orig_size, size, p);
+        }
+
         check_sanity_canary(sane_alloc);
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
-- 
2.43.0


From 7ab78d33dd5f16b772b4dbf69d8daaa528b203ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 29/42] fix: calloc must not round up every element

---
 src/iso_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 8eabd8b..b16a832 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1037,6 +1037,7 @@ INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
+    const size_t requested = size;
 
     /* Rounding the size up must not overflow */
     if(UNLIKELY(size > (SIZE_MAX - SZ_ALIGNMENT))) {
@@ -1057,6 +1058,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
         return NULL;
     }
 
+    /* The check above is stricter than it has to be but the
+     * chunk must not be larger than what was asked for, or
+     * iso_free_size looks for it in the wrong place */
+    sz = nmemb * requested;
+
     void *p = _iso_alloc(NULL, sz);
 
 #if NO_ZERO_ALLOCATIONS
-- 
2.43.0


From 9ad9af6cc5a7559bb6c3f23c60f10b9235638d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 30/42] fix: do not unmap the upper guard page of memory tags
 twice

---
 src/iso_alloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b16a832..f70863e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -224,8 +224,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
         void *_mtp = (zone->user_pages_start - s - g_page_size);
-        /* The tags have a guard page on either side */
-        munmap(_mtp - g_page_size, s + (g_page_size * 2));
+        /* The tags have a guard page on either side but the
+         * upper one is unmapped with the user pages below */
+        munmap(_mtp - g_page_size, s + g_page_size);
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From 194f5b9e3a872d96b52b873d8def9c5170af338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 31/42] fix: posix_memalign rejects alignments that are not
 multiples of sizeof(void *)

---
 src/malloc_hook.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/malloc_hook.c b/src/malloc_hook.c
index b383d42..5e7ce8b 100644
--- a/src/malloc_hook.c
+++ b/src/malloc_hook.c
@@ -54,7 +54,8 @@ EXTERNAL_API void *reallocarray(void *p, size_t n, size_t s) {
 }
 
 EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
-    if(is_pow2(a) == false) {
+    /* The alignment must be a power of two multiple of sizeof(void *) */
+    if(a == 0 || a % sizeof(void *) != 0 || is_pow2(a) == false) {
         *r = NULL;
         return EINVAL;
     }
-- 
2.43.0


From 02194c01cd8ae03b12fdcc48bc086cfe25c4c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 32/42] fix: read zones under the root lock in the tag
 functions

Tagging, untagging and tag queries followed the zone's bitmap and user
page pointers without the root lock. Another thread that allocates or
frees unmasks those pointers in place for the duration of its operation,
so a tag operation running at the same time dereferenced a doubly masked
pointer, or missed the bounds check, and aborted or faulted on a valid
block.
---
 src/iso_alloc.c            |  3 ++-
 src/iso_alloc_interfaces.c | 27 +++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index f70863e..ef35154 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1530,6 +1530,8 @@ INTERNAL_HIDDEN void _iso_free_from_zone(void *p, iso_alloc_zone_t *zone, bool p
         return;
     }
 
+    LOCK_ROOT();
+
 #if MEMORY_TAGGING
     /* Its possible that we were passed a tagged pointer */
     if(UNLIKELY(zone->tagged == true && ((uintptr_t) p & IS_TAGGED_PTR_MASK) != 0)) {
@@ -1539,7 +1541,6 @@ INTERNAL_HIDDEN void _iso_free_from_zone(void *p, iso_alloc_zone_t *zone, bool p
     }
 #endif
 
-    LOCK_ROOT();
     _iso_free_internal_unlocked(p, permanent, zone);
     UNLOCK_ROOT();
 }
diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index f863c9a..a48f999 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -181,7 +181,11 @@ EXTERNAL_API FLATTEN NO_DISCARD MALLOC_ATTR void *iso_alloc_from_zone_tagged(iso
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
 
     void *p = _iso_alloc(zone, _zone->chunk_size);
-    return _tag_ptr(p, zone);
+
+    LOCK_ROOT();
+    p = _tag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_tag_ptr(void *p, iso_alloc_zone_handle *zone) {
@@ -190,7 +194,11 @@ EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_tag_ptr(void *p, iso_alloc_zone_
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _tag_ptr(p, zone);
+
+    LOCK_ROOT();
+    p = _tag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_untag_ptr(void *p, iso_alloc_zone_handle *zone) {
@@ -199,7 +207,11 @@ EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_untag_ptr(void *p, iso_alloc_zon
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _untag_ptr(p, zone);
+
+    LOCK_ROOT();
+    p = _untag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_verify_ptr_tag(void *p, iso_alloc_zone_handle *zone) {
@@ -208,7 +220,10 @@ EXTERNAL_API FLATTEN void iso_alloc_verify_ptr_tag(void *p, iso_alloc_zone_handl
     }
 
     UNMASK_ZONE_HANDLE(zone);
+
+    LOCK_ROOT();
     _iso_alloc_verify_tag(p, zone);
+    UNLOCK_ROOT();
     return;
 }
 
@@ -218,7 +233,11 @@ EXTERNAL_API FLATTEN NO_DISCARD uint8_t iso_alloc_get_mem_tag(void *p, iso_alloc
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _iso_alloc_get_mem_tag(p, zone);
+
+    LOCK_ROOT();
+    const uint8_t tag = _iso_alloc_get_mem_tag(p, zone);
+    UNLOCK_ROOT();
+    return tag;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
-- 
2.43.0


From 1903b34f8aa763b2dad950f034b6e44505d1d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 33/42] fix: abort on overflowing calloc and reallocarray
 requests when ABORT_ON_NULL is set

---
 src/iso_alloc.c            | 8 ++++++++
 src/iso_alloc_interfaces.c | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ef35154..4557890 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1042,6 +1042,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     /* Rounding the size up must not overflow */
     if(UNLIKELY(size > (SIZE_MAX - SZ_ALIGNMENT))) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("Call to calloc() will overflow size=%lu", size);
+#endif
         LOG("Call to calloc() will overflow size=%lu", size);
         return NULL;
     }
@@ -1055,6 +1058,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     size_t sz = nmemb * size;
 
     if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
+#if ABORT_ON_NULL
+        if(nmemb != 0) {
+            LOG_AND_ABORT("Call to calloc() will overflow nmemb=%lu size=%lu", nmemb, size);
+        }
+#endif
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
         return NULL;
     }
diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index a48f999..ce305f3 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -98,6 +98,9 @@ EXTERNAL_API FLATTEN NO_DISCARD MALLOC_ATTR REALLOC_SIZE ASSUME_ALIGNED void *is
     unsigned int res;
 
     if(__builtin_mul_overflow(nmemb, size, &res)) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("Call to reallocarray() will overflow nmemb=%lu size=%lu", nmemb, size);
+#endif
         return NULL;
     }
 
-- 
2.43.0


From 7ccd0f60060c309aec8ed3bb3305928eaa8af4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 34/42] fix: zones keep the whole number of the core they are
 pinned to

---
 include/iso_alloc_ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_ds.h b/include/iso_alloc_ds.h
index 2fd76f8..55610a8 100644
--- a/include/iso_alloc_ds.h
+++ b/include/iso_alloc_ds.h
@@ -46,7 +46,7 @@ typedef struct {
     free_bit_slot_t free_bit_slots_usable;        /* The oldest members of the free cache are served first */
     int8_t preallocated_bitmap_idx;               /* The bitmap is preallocated and its index */
 #if CPU_PIN
-    uint8_t cpu_core; /* What CPU core this zone is pinned to */
+    int32_t cpu_core; /* What CPU core this zone is pinned to */
 #endif
     bool internal; /* Zones can be managed by iso_alloc or private */
     bool is_full;  /* Flags whether this zone is full to avoid bit slot searches */
-- 
2.43.0


From d65a2edf86ab10257cae132289607254f06a4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 35/42] fix: unmap the whole zones mapping in ISO_DTOR_CLEANUP
 builds

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 4557890..b8965d3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2197,7 +2197,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
 #if ISO_DTOR_CLEANUP
     /* Unmap all zone structures */
-    munmap((void *) ((uintptr_t) _root->zones - g_page_size), _root->zones_size);
+    unmap_guarded_pages(_root->zones, _root->zones_size);
 #endif
 
     LOCK_BIG_ZONE_USED();
-- 
2.43.0


From 53da9b57a6ab45a7a879ec77826167bc0485b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 36/42] fix: find_suitable_zone considers all zones in
 SMALL_MEM_STARTUP builds

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b8965d3..82a70cd 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -927,6 +927,10 @@ INTERNAL_HIDDEN iso_alloc_zone_t *find_suitable_zone(size_t size) {
         }
     }
 
+    /* The walk of the lookup table may have left us at any
+     * zone, start over */
+    i = 0;
+
 #if SMALL_MEM_STARTUP
     /* A simple optimization to find which default zone
      * should fit this allocation. If we fail then a
@@ -938,8 +942,6 @@ INTERNAL_HIDDEN iso_alloc_zone_t *find_suitable_zone(size_t size) {
     } else if(orig_size > MAX_DEFAULT_ZONE_SZ) {
         i = DEFAULT_ZONE_COUNT;
     }
-#else
-    i = 0;
 #endif
 
     for(; i < zones_used; i++) {
-- 
2.43.0


From 638520d1db46640272ff4f278e6a86b1bd766528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 37/42] fix: realloc of a freed chunk that is handed out again
 is detected

---
 src/iso_alloc_interfaces.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index ce305f3..d999e27 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -75,6 +75,12 @@ EXTERNAL_API FLATTEN NO_DISCARD REALLOC_SIZE ASSUME_ALIGNED void *iso_realloc(vo
         return r;
     }
 
+    /* The new chunk can only be the old one if
+     * that was free'd before this call */
+    if(UNLIKELY(r == p)) {
+        LOG_AND_ABORT("Reallocating free'd chunk at 0x%p", p);
+    }
+
     size_t chunk_size = iso_chunksz(p);
 
     if(size > chunk_size) {
-- 
2.43.0


From 4c3c0db2837e4dbcbf104b8bd8a8c52ea60b5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 38/42] fix: ISO_DTOR_CLEANUP builds without ALLOC_SANITY

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 82a70cd..8ee1353 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2235,7 +2235,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     UNLOCK_ROOT();
 
 #if ISO_DTOR_CLEANUP && THREAD_SUPPORT && !USE_SPINLOCK
+#if ALLOC_SANITY
     pthread_mutex_destroy(&sane_cache_mutex);
+#endif
     pthread_mutex_destroy(&root_busy_mutex);
 #endif
 }
-- 
2.43.0


From 833e91a6592610816fe252edff3b21e7c698d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 39/42] fix: overflowing products return NULL again with
 ABORT_ON_NULL, as interfaces_test expects

---
 src/iso_alloc.c            | 8 --------
 src/iso_alloc_interfaces.c | 3 ---
 2 files changed, 11 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 8ee1353..f6cde05 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1044,9 +1044,6 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     /* Rounding the size up must not overflow */
     if(UNLIKELY(size > (SIZE_MAX - SZ_ALIGNMENT))) {
-#if ABORT_ON_NULL
-        LOG_AND_ABORT("Call to calloc() will overflow size=%lu", size);
-#endif
         LOG("Call to calloc() will overflow size=%lu", size);
         return NULL;
     }
@@ -1060,11 +1057,6 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     size_t sz = nmemb * size;
 
     if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
-#if ABORT_ON_NULL
-        if(nmemb != 0) {
-            LOG_AND_ABORT("Call to calloc() will overflow nmemb=%lu size=%lu", nmemb, size);
-        }
-#endif
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
         return NULL;
     }
diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index d999e27..25043af 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -104,9 +104,6 @@ EXTERNAL_API FLATTEN NO_DISCARD MALLOC_ATTR REALLOC_SIZE ASSUME_ALIGNED void *is
     unsigned int res;
 
     if(__builtin_mul_overflow(nmemb, size, &res)) {
-#if ABORT_ON_NULL
-        LOG_AND_ABORT("Call to reallocarray() will overflow nmemb=%lu size=%lu", nmemb, size);
-#endif
         return NULL;
     }
 
-- 
2.43.0


From f42f176798eba7eab424246b63cdbd160a467f75 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:30:21 +0000
Subject: [PATCH 40/42] fix: shutdown cleanup does not unmap thread local
 storage

---
 src/iso_alloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index f6cde05..a8d9538 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2205,7 +2205,10 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #if ISO_DTOR_CLEANUP
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
+#if !THREAD_SUPPORT
+    /* Otherwise the zone cache is thread local storage */
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
+#endif
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
     UNLOCK_BIG_ZONE_FREE();
-- 
2.43.0


From d8d353b8da473f9f73a51bda84978c5a9d9d195e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 41/42] fix: do not check for canaries that UNINIT_READ_SANITY
 never wrote

---
 src/iso_alloc_sanity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 397877a..375eccf 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -349,7 +349,10 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size) {
             LOG_AND_ABORT("Invalid size (expected %d, got %d) for sampled allocation 0x%p", sane_alloc->orig_size, size, p);
         }
 
+#if !UNINIT_READ_SANITY
+        /* These pages never had a canary written to them */
         check_sanity_canary(sane_alloc);
+#endif
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
         _sane_cache[SANE_CACHE_IDX(p)]--;
-- 
2.43.0


From 669db47f28487f71d63b18e6d2bc370e13f0a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 42/42] fix: choose canary chunks all over the zone

The index into the bitmap was rounded down to a multiple of 32, which left
16 (or fewer) places for the canaries of any zone, the same ones in every
zone and every process, instead of random ones for about 1% of the chunks.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index a8d9538..5bea7a3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -305,7 +305,7 @@ INTERNAL_HIDDEN void create_canary_chunks(iso_alloc_zone_t *zone) {
      * with that collision as canary chunks only provide
      * a small probabilistic security guarantee */
     for(uint64_t i = 0; i < canary_count; i++) {
-        bitmap_index_t bm_idx = ALIGN_SZ_DOWN((us_rand_uint64(&_root->seed) % (max_bitmap_idx)));
+        bitmap_index_t bm_idx = (us_rand_uint64(&_root->seed) % (max_bitmap_idx));
 
         if(0 > bm_idx) {
             bm_idx = 0;
-- 
2.43.0

