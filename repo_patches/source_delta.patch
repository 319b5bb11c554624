From 6ef0754b682eec371f8d453c7181aa529da93140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 01/68] fix: don't queue on a rwlock if the waiter's index
 doesn't fit

The rwlock stores the index of the first waiter in four bits. Lock-owner
indices can be larger, in which case the waiter list got corrupted.
---
 src/picotm-lib-rwlock.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/picotm-lib-rwlock.c b/src/picotm-lib-rwlock.c
index 75be7b1..1e9cb53 100644
--- a/src/picotm-lib-rwlock.c
+++ b/src/picotm-lib-rwlock.c
@@ -153,6 +153,13 @@ try_lock_or_wait(struct picotm_rwlock* self,
 
             waiter = picotm_lock_owner_get_thread_local_instance();
 
+            if (picotm_lock_owner_get_index(waiter) > rw_index(INDEX_BIT_MASK)) {
+                /* The rwlock cannot store this waiter's index. We must
+                 * not enter the waiter list and signal a conflict. */
+                picotm_error_set_conflicting(error, self);
+                return;
+            }
+
             struct picotm_lock_manager* lmanager =
                 picotm_lock_owner_get_lock_manager(waiter);
 
-- 
2.43.0


From cb719f2ada782c6430feb6648256d4e2980aafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 02/68] fix: don't shift tree-map keys by more than their width

A tree map that covers all 64 bits of its keys grew again with every
lookup of a large key, so that existing values were not found any longer.
---
 src/picotm-lib-treemap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/picotm-lib-treemap.c b/src/picotm-lib-treemap.c
index 16318d5..16efbf9 100644
--- a/src/picotm-lib-treemap.c
+++ b/src/picotm-lib-treemap.c
@@ -225,7 +225,13 @@ static unsigned long long
 key_depth_prefix(unsigned long long key, unsigned long depth,
                  unsigned long level_nbits)
 {
-    return key >> (depth * level_nbits);
+    unsigned long nbits = depth * level_nbits;
+
+    if (nbits >= sizeof(key) * CHAR_BIT) {
+        return 0; /* the tree already covers all bits of the key */
+    }
+
+    return key >> nbits;
 }
 
 static unsigned long
-- 
2.43.0


From 49d89f9f98efa34e349d5a2679f2ad461c773a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 03/68] fix: let all threads see shared data of pointers

A thread that has not used the ptrdata module before could neither see
nor clear shared data that other threads had attached to a pointer.
---
 modules/ptrdata/src/module.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/ptrdata/src/module.c b/modules/ptrdata/src/module.c
index b0c1c6e..a4d2fd4 100644
--- a/modules/ptrdata/src/module.c
+++ b/modules/ptrdata/src/module.c
@@ -169,11 +169,9 @@ void
 ptrdata_module_clear_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return;
-    } else if (!module) {
-        return;
     }
     ptrdata_clear_shared_data(module->global, ptr, error);
 }
@@ -182,11 +180,9 @@ void*
 ptrdata_module_get_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return NULL;
-    } else if (!module) {
-        return NULL;
     }
     return ptrdata_get_shared_data(module->global, ptr, error);
 }
-- 
2.43.0


From 3d05d15afbf10f8dc96652351204601280dd063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 04/68] fix: copy from source to destination in loadstore_tx()

The copy ran from the destination's to the source's page, and did not
handle regions with a different alignment.
---
 modules/tm/src/vmem_tx.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0575110..a5e247b 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -298,38 +298,40 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
         if (picotm_error_is_set(error)) {
             return;
         }
-        prepare_page_ld(lpage, laddr, siz, vmem_tx->vmem, error);
-        if (picotm_error_is_set(error)) {
-            return;
-        }
 
         uintptr_t lpage_addr = tm_page_address(lpage);
         size_t lpage_head = laddr - lpage_addr;
         size_t lpage_tail = TM_BLOCK_SIZE - lpage_head;
-        size_t lpage_diff = siz < lpage_tail ? siz : lpage_tail;
 
         /* released as part of apply() or undo() */
         struct tm_page* spage = acquire_page_by_address(vmem_tx, saddr, error);
         if (picotm_error_is_set(error)) {
             return;
         }
-        prepare_page_st(spage, saddr, siz, vmem_tx->vmem, error);
-        if (picotm_error_is_set(error)) {
-            return;
-        }
 
         uintptr_t spage_addr = tm_page_address(spage);
         size_t spage_head = saddr - spage_addr;
         size_t spage_tail = TM_BLOCK_SIZE - spage_head;
-        size_t spage_diff = siz < spage_tail ? siz : spage_tail;
 
-        uint8_t* lmem = tm_page_buffer(lpage);
+        /* Transfer until the end of either page. */
+        size_t diff = ulmin(siz, ulmin(lpage_tail, spage_tail));
+
+        prepare_page_ld(lpage, laddr, diff, vmem_tx->vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+        prepare_page_st(spage, saddr, diff, vmem_tx->vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+
+        const uint8_t* lmem = tm_page_buffer(lpage);
         uint8_t* smem = tm_page_buffer(spage);
-        memcpy(lmem + lpage_head, smem + spage_head, lpage_diff);
+        memmove(smem + spage_head, lmem + lpage_head, diff);
 
-        laddr += lpage_diff;
-        saddr += spage_diff;
-        siz   -= lpage_diff;
+        laddr += diff;
+        saddr += diff;
+        siz   -= diff;
     }
 }
 
-- 
2.43.0


From c3122aad11db783ab3f84519b4aab4223ed8ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 05/68] fix: keep a transaction's own stores when privatizing
 memory

When a page with buffered stores was privatized, the stores were not
visible in the region, lost during commit, and written during roll-back.
The search for a character looked at the memory instead of the buffered
stores, and also at bytes in front of the region.
---
 modules/tm/src/page.c    | 13 ++++++++-----
 modules/tm/src/vmem_tx.c | 39 +++++++++++++++++++++++++++++++++++----
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 2841bd8..bc920dd 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -116,14 +116,17 @@ tm_page_ld_c(struct tm_page* page, unsigned long bits, int c, struct tm_vmem* vm
     unsigned long bit = 1ul;
 
     for (buf = buf_beg; buf < buf_end; ++buf, ++mem, bit <<= 1) {
-        if ((bits & bit) && !(page->buf_bits & bit)) {
+        if (!(bits & bit)) {
+            continue;
+        }
+        if (!(page->buf_bits & bit)) {
             *buf = *mem;
             page->buf_bits |= bit;
         }
-        if (page->buf_bits & bit) {
-            if (*mem == c) {
-                break;
-            }
+        /* Buffered stores are only visible in the page's buffer, unless
+         * the page is in write-through mode. */
+        if ((page->flags & TM_PAGE_FLAG_WRITE_THROUGH ? *mem : *buf) == (uint8_t)c) {
+            break;
         }
     }
 
diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index a5e247b..2fbf2b3 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -335,6 +335,25 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+/* Privatized pages use write-through semantics. Buffered stores move
+ * into the region's memory; the buffer receives the old content for
+ * undo. */
+static void
+set_page_write_through(struct tm_page* page, struct tm_vmem* vmem,
+                       struct picotm_error* error)
+{
+    if (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) {
+        return;
+    }
+    if (tm_page_has_wrlocked_frame(page)) {
+        tm_page_xchg(page, copy_all_bits(), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+    page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+}
+
 static void
 prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
@@ -361,7 +380,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -379,7 +401,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (!flags) {
 
@@ -462,7 +487,10 @@ prepare_page_privatize_c(struct tm_page* page,
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -479,7 +507,10 @@ prepare_page_privatize_c(struct tm_page* page,
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        set_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
     } else if (!flags) {
 
-- 
2.43.0


From 6297863a301df9e8fd929a5e2bdc4abc8a44c433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 06/68] fix: discard exactly the requested bytes and revert
 their stores

Discarding a region marked its whole pages, so that stores to other
variables in the same page were lost, and direct stores to the region
remained in memory after roll-back.
---
 modules/tm/src/page.c    |  1 +
 modules/tm/src/page.h    |  6 ++--
 modules/tm/src/vmem_tx.c | 68 ++++++++++++++++++++++++++++++----------
 3 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index bc920dd..6e31261 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -31,6 +31,7 @@ tm_page_init(struct tm_page* page, size_t block_index)
     page->flags = block_index << TM_BLOCK_SIZE_BITS;
     picotm_rwstate_init(&page->rwstate);
     page->buf_bits = 0;
+    page->discarded_bits = 0;
     picotm_slist_init_item(&page->list);
 }
 
diff --git a/modules/tm/src/page.h b/modules/tm/src/page.h
index aa5a12f..575a426 100644
--- a/modules/tm/src/page.h
+++ b/modules/tm/src/page.h
@@ -30,8 +30,7 @@
 struct tm_vmem;
 
 enum {
-    TM_PAGE_FLAG_WRITE_THROUGH = 1 << 0,
-    TM_PAGE_FLAG_DISCARDED     = 1 << 1
+    TM_PAGE_FLAG_WRITE_THROUGH = 1 << 0
 };
 
 /**
@@ -51,6 +50,9 @@ struct tm_page {
     /** Bitmap of the valid fields in buf. */
     uint8_t buf_bits;
 
+    /** Bitmap of the discarded bytes. */
+    uint8_t discarded_bits;
+
     /** Entry into allocator lists */
     struct picotm_slist list;
 };
diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 2fbf2b3..117525a 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -179,7 +179,7 @@ prepare_page_ld(struct tm_page* page, uintptr_t addr, size_t siz,
                 struct tm_vmem* vmem,
                 struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (page->discarded_bits & copy_bits(addr, siz)) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     } else if (!tm_page_has_rdlocked_frame(page)) {
@@ -235,7 +235,7 @@ prepare_page_st(struct tm_page* page, uintptr_t addr, size_t siz,
                 struct tm_vmem* vmem,
                 struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (page->discarded_bits & copy_bits(addr, siz)) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     } else if (!tm_page_has_wrlocked_frame(page)) {
@@ -335,6 +335,21 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+/* Discarded bytes are not accessed any longer, so their direct stores
+ * have to be reverted here. */
+static void
+discard_page_bits(struct tm_page* page, unsigned long bits,
+                  struct tm_vmem* vmem, struct picotm_error* error)
+{
+    if (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) {
+        tm_page_st(page, bits, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+    page->discarded_bits |= bits;
+}
+
 /* Privatized pages use write-through semantics. Buffered stores move
  * into the region's memory; the buffer receives the old content for
  * undo. */
@@ -346,7 +361,8 @@ set_page_write_through(struct tm_page* page, struct tm_vmem* vmem,
         return;
     }
     if (tm_page_has_wrlocked_frame(page)) {
-        tm_page_xchg(page, copy_all_bits(), vmem, error);
+        tm_page_xchg(page, copy_all_bits() & ~page->discarded_bits, vmem,
+                     error);
         if (picotm_error_is_set(error)) {
             return;
         }
@@ -359,7 +375,7 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
                        unsigned long flags, struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (page->discarded_bits & copy_bits(addr, siz)) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     }
@@ -417,7 +433,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_DISCARDED;
+        discard_page_bits(page, copy_bits(addr, siz), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
 
@@ -471,6 +490,11 @@ prepare_page_privatize_c(struct tm_page* page,
 {
     bool found_c;
 
+    if (page->discarded_bits & copy_bits(addr, page_diff)) {
+        picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
+        return false;
+    }
+
     if (flags & PICOTM_TM_PRIVATIZE_STORE) {
 
         /* Page requires a writer lock. */
@@ -524,12 +548,24 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
-        uintptr_t page_addr = tm_page_address(page);
-        size_t page_head = addr - page_addr;
-        const uint8_t* mem = tm_page_buffer(page);
-        found_c = !!memchr(mem + page_head, c, page_diff);
+        found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
+                               error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
-        page->flags |= TM_PAGE_FLAG_DISCARDED;
+        if (found_c) {
+            uintptr_t page_addr = tm_page_address(page);
+            size_t page_head = addr - page_addr;
+            const uint8_t* mem = tm_page_buffer(page);
+            const uint8_t* pos = memchr(mem + page_head, c, page_diff);
+            page_diff = pos - (mem + page_head) + 1;
+        }
+
+        discard_page_bits(page, copy_bits(addr, page_diff), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
     } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
 
@@ -599,9 +635,9 @@ static size_t
 apply_page(struct tm_page* page, struct tm_vmem* vmem, struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        !(page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
-        tm_page_st(page, copy_all_bits(), vmem, error);
+        !(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
+        tm_page_st(page, copy_all_bits() & ~page->discarded_bits, vmem,
+                   error);
         if (picotm_error_is_set(error)) {
             return 0;
         }
@@ -627,9 +663,9 @@ undo_page(struct tm_page* page, struct tm_vmem* vmem,
           struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
-        tm_page_st(page, copy_all_bits(), vmem, error);
+        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
+        tm_page_st(page, copy_all_bits() & ~page->discarded_bits, vmem,
+                   error);
         if (picotm_error_is_set(error)) {
             return 0;
         }
-- 
2.43.0


From 3c4d2f2fa4ff35dbe5aca8507945a4869daf248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 07/68] fix: return correct bounds of keys in multisets

The lower bound was the entry in front of the first entry with the key;
the upper bound of the largest key was the last entry with the key.
---
 modules/txlib/src/txmultiset_state.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/txlib/src/txmultiset_state.c b/modules/txlib/src/txmultiset_state.c
index e732820..575ec47 100644
--- a/modules/txlib/src/txmultiset_state.c
+++ b/modules/txlib/src/txmultiset_state.c
@@ -163,7 +163,7 @@ txmultiset_state_lower_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
 
         entry = pos;
@@ -194,13 +194,11 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
-
-        entry = pos;
     }
 
-    return entry;
+    return pos;
 }
 
 size_t
-- 
2.43.0


From 804f5ef9e7d5dcb7462a09778b9f8d6b52bc3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 08/68] fix: move lt branch when inserting multiset entry with
 existing key

The lt branch stayed connected to the existing entry, so that iteration
missed the new entry and others were left in the tree after an erase.
---
 modules/txlib/src/txmultiset_entry.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/txlib/src/txmultiset_entry.c b/modules/txlib/src/txmultiset_entry.c
index f23cdcf..5d55656 100644
--- a/modules/txlib/src/txmultiset_entry.c
+++ b/modules/txlib/src/txmultiset_entry.c
@@ -205,6 +205,11 @@ insert_at(struct txmultiset_entry* entry, struct txmultiset_entry* position)
     entry->internal.ge = position;
     entry->internal.parent = position->internal.parent;
 
+    if (entry->internal.lt) {
+        entry->internal.lt->internal.parent = entry;
+    }
+    position->internal.lt = NULL;
+
     if (position->internal.parent->internal.lt == position) {
         position->internal.parent->internal.lt = entry;
     } else {
-- 
2.43.0


From 956076923928b7ecd1adfe4a9900ba84cef3b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 09/68] fix: don't declare interfaces as leaf functions

---
 include/picotm/compiler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/picotm/compiler.h b/include/picotm/compiler.h
index 632934c..9b48871 100644
--- a/include/picotm/compiler.h
+++ b/include/picotm/compiler.h
@@ -71,7 +71,11 @@
  * \def PICOTM_NOTHROW
  * Exported function does not throw exceptions.
  */
-#ifdef __THROW
+#if defined(__THROWNL)
+    /* Interfaces invoke call-back functions of the caller and jump back
+     * into the transaction, so they are not leaf functions. */
+    #define PICOTM_NOTHROW  __THROWNL
+#elif defined(__THROW)
     #define PICOTM_NOTHROW  __THROW
 #else
     #define PICOTM_NOTHROW
-- 
2.43.0


From 8253209067c14e20962694df701ea1777b633b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 10/68] fix: Privatize the output location in
 posix_memalign_tx()

The function privatized the memory at the uninitialized pointer value
instead of the location that it writes to.
---
 modules/libc/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 18949e6..018a3f5 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -166,7 +166,7 @@ PICOTM_EXPORT
 int
 posix_memalign_tx(void** memptr, size_t alignment, size_t size)
 {
-    privatize_tx(*memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
     return posix_memalign_tm(memptr, alignment, size);
 }
 #endif
-- 
2.43.0


From ff1ae25943f3785ed8ab73a5e358700462331124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 11/68] fix: Terminate strings returned by strndup_tm()

For a string longer than the limit, the function copied one character
too many, wrote the terminating character beyond the allocated buffer,
and left the returned string without termination.
---
 modules/libc/src/string-tm.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/modules/libc/src/string-tm.c b/modules/libc/src/string-tm.c
index b93d483..b3f5fc2 100644
--- a/modules/libc/src/string-tm.c
+++ b/modules/libc/src/string-tm.c
@@ -357,16 +357,14 @@ strndup_tm(const char* s, size_t n)
         picotm_recover_from_error(&error);
     } while (true);
 
-    size_t len = strlen(s) + sizeof(*s);
-    if (n < len) {
-        len = n + sizeof(*s);
-    }
+    size_t len = strnlen(s, n);
 
     void* mem;
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len, &error);
+        allocator_module_posix_memalign(&mem, 2 * sizeof(void*),
+                                        len + sizeof(*s), &error);
         if (!picotm_error_is_set(&error)) {
             break;
         }
@@ -374,9 +372,8 @@ strndup_tm(const char* s, size_t n)
     } while (true);
 
     char* s2 = memcpy(mem, s, len);
-    if (n < len) {
-        s2[n + 1] = '\0';
-    }
+    s2[len] = '\0';
+
     return s2;
 }
 #endif
-- 
2.43.0


From 33d4009674d86d4246fb19b37eb00674175958c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 12/68] fix: Round up large allocation sizes correctly

The rounding mask was an unsigned int, so that its complement cleared the
upper bits of the size. Allocations of 4 GiB and more returned too small
buffers. Sizes near the maximum wrapped around to zero.
---
 modules/libc/src/allocator/allocator_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/allocator/allocator_tx.c b/modules/libc/src/allocator/allocator_tx.c
index fc9c5c8..76d9d7f 100644
--- a/modules/libc/src/allocator/allocator_tx.c
+++ b/modules/libc/src/allocator/allocator_tx.c
@@ -31,7 +31,11 @@
 static size_t
 rnd2wb(size_t size)
 {
-    const unsigned int mask = sizeof(void*) - 1;
+    const size_t mask = sizeof(void*) - 1;
+
+    if (size > (size_t)-1 - mask) {
+        return size; /* too large to round up; let the allocator fail */
+    }
 
     return (size + mask) & ~mask;
 }
-- 
2.43.0


From 43410642235c33164915247da9a19dcd6d63d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 13/68] fix: Report an overflowing size in calloc_tx()

The product of both arguments wrapped around, so that calloc_tx() returned
a buffer that is smaller than requested.
---
 modules/libc/src/stdlib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 018a3f5..25c4ebd 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -30,6 +30,7 @@
 #elif defined (HAVE_MALLOC_H) && HAVE_MALLOC_H
 #include <malloc.h>
 #endif
+#include <stdint.h>
 #include <string.h>
 #include "allocator/module.h"
 #include "compat/malloc_usable_size.h"
@@ -70,6 +71,10 @@ calloc_tx(size_t nmemb, size_t size)
         picotm_recover_from_error(&error);
     } while (true);
 
+    while (size && nmemb > SIZE_MAX / size) {
+        picotm_recover_from_errno(ENOMEM); /* size overflows */
+    }
+
     size_t alloc_size = nmemb * size;
 
     do {
-- 
2.43.0


From b09dc0dc65a0fcdbb25115ee8c81d70d0543dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 14/68] fix: Copy transactional stores in realloc_tx()

The function discarded the old buffer before copying its content, so that
the transaction's earlier stores to the buffer were lost.
---
 modules/libc/src/stdlib.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 25c4ebd..1e0e275 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -204,7 +204,9 @@ realloc_tx(void* ptr, size_t size)
 {
     size_t usiz = malloc_usable_size(ptr);
     if (usiz) {
-        privatize_tx(ptr, usiz, 0); /* discard memory region */
+        /* We copy from the old buffer below, so we need the
+         * transaction's own stores in there. */
+        privatize_tx(ptr, usiz, PICOTM_TM_PRIVATIZE_LOAD);
     }
 
     do {
@@ -240,6 +242,10 @@ realloc_tx(void* ptr, size_t size)
         memcpy(mem, ptr, size < usiz ? size : usiz);
     }
 
+    if (usiz) {
+        privatize_tx(ptr, usiz, 0); /* discard memory region */
+    }
+
     if (ptr) {
         do {
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-- 
2.43.0


From 146234978806cacbdfa64a5b72ec10769b7b5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 15/68] fix: Privatize the output buffer in vsnprintf_tx()

The function passed the buffer's size as terminating character to
privatize_c_tx(), which therefore privatized memory up to the first
occurrence of that byte.
---
 modules/libc/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 3796e4c..31a75ed 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -169,7 +169,7 @@ PICOTM_EXPORT
 int
 vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 {
-    privatize_c_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
     va_list ap_copy;
-- 
2.43.0


From 5b4484e2901fe08a8396e3acaf334d8d3511deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 16/68] fix: Skip over all arguments in vsnprintf_tx()

While looking for string arguments, the function did not consume the
arguments of other conversions, so that it took integers for strings.
---
 modules/libc/src/stdio.c | 50 +++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 31a75ed..3bdac36 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -23,7 +23,10 @@
 #include "picotm/picotm-tm.h"
 #include "picotm/stdio-tm.h"
 #include <errno.h>
+#include <stddef.h>
+#include <stdint.h>
 #include <string.h>
+#include <wchar.h>
 #include "error/module.h"
 
 #if defined(PICOTM_LIBC_HAVE_SNPRINTF) && PICOTM_LIBC_HAVE_SNPRINTF
@@ -76,8 +79,11 @@ privatize_printf_args(const char* format, va_list arg)
              */
 
             case 'd': case 'i': case 'o': case 'u':
-            case 'x': case 'a': case 'e': case 'f':
-            case 'g':
+            case 'x':
+                (void)va_arg(arg, int);
+                break;
+            case 'a': case 'e': case 'f': case 'g':
+                (void)va_arg(arg, double);
                 break;
             case 's':
                 privatize_c_tx(va_arg(arg, void**), '\0',
@@ -95,9 +101,20 @@ privatize_printf_args(const char* format, va_list arg)
             case 'l':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n': case 'a':
-                    case 'A': case 'e': case 'E': case 'f':
-                    case 'F': case 'g': case 'G': case 'c':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, long);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, long*), sizeof(long),
+                                     PICOTM_TM_PRIVATIZE_STORE);
+                        break;
+                    case 'a': case 'A': case 'e': case 'E':
+                    case 'f': case 'F': case 'g': case 'G':
+                        (void)va_arg(arg, double);
+                        break;
+                    case 'c':
+                        (void)va_arg(arg, wint_t);
+                        break;
                     case '[': case 'm':
                         break;
                     default:
@@ -110,7 +127,12 @@ privatize_printf_args(const char* format, va_list arg)
             case 'j':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, intmax_t);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, intmax_t*), sizeof(intmax_t),
+                                     PICOTM_TM_PRIVATIZE_STORE);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
@@ -122,7 +144,12 @@ privatize_printf_args(const char* format, va_list arg)
             case 'z':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, size_t);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, size_t*), sizeof(size_t),
+                                     PICOTM_TM_PRIVATIZE_STORE);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
@@ -134,7 +161,12 @@ privatize_printf_args(const char* format, va_list arg)
             case 't':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, ptrdiff_t);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, ptrdiff_t*), sizeof(ptrdiff_t),
+                                     PICOTM_TM_PRIVATIZE_STORE);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
@@ -147,6 +179,7 @@ privatize_printf_args(const char* format, va_list arg)
                 switch (pos[2]) {
                     case 'a': case 'A': case 'e': case 'E':
                     case 'f': case 'F': case 'g': case 'G':
+                        (void)va_arg(arg, long double);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
@@ -175,6 +208,7 @@ vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
     va_list ap_copy;
     va_copy(ap_copy, ap);
     privatize_printf_args(format, ap_copy);
+    va_end(ap_copy);
 
     return vsnprintf_tm(s, n, format, ap);
 
-- 
2.43.0


From edc29799c0f1ae3b288d32bc5e055fb508744baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 17/68] fix: Do not restart irrevocable transactions in
 dup2_tx()

dup2_tx() restarted the transaction on every call, so that it never
returned. It also ignored errors of dup2().
---
 modules/libc/src/unistd.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 085004a..21de51b 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -102,7 +102,9 @@ PICOTM_EXPORT
 int
 dup2_tx(int fildes, int fildes2)
 {
-    picotm_irrevocable();
+    if (!picotm_is_irrevocable()) {
+        picotm_irrevocable();
+    }
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
@@ -116,6 +118,9 @@ dup2_tx(int fildes, int fildes2)
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = dup2(fildes, fildes2);
+        if (res < 0) {
+            picotm_error_set_errno(&error, errno);
+        }
         if (!picotm_error_is_set(&error)) {
             return res;
         }
-- 
2.43.0


From 0b72d43ba4cb135840d8f2575ef2a4cf558d76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 18/68] fix: Save errno in setlocale_tm()

Looking up a locale can modify errno, so it has to be saved for rollbacks.
---
 modules/libc/src/locale-tm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/libc/src/locale-tm.c b/modules/libc/src/locale-tm.c
index 18d9dd8..f29d30b 100644
--- a/modules/libc/src/locale-tm.c
+++ b/modules/libc/src/locale-tm.c
@@ -54,6 +54,15 @@ PICOTM_EXPORT
 char*
 setlocale_tm(int category, const char* locale)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         char* res = locale_module_setlocale(category, locale, &error);
-- 
2.43.0


From 0dc1af545ec55f444b74d97a91c7e44b1b9829df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 19/68] fix: Report EBADF for file descriptors out of range

---
 modules/libc/src/fildes/fildes_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 9a3cbfc..c020910 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1059,6 +1059,11 @@ static struct fd_tx*
 find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
                     bool new_file, struct picotm_error* error)
 {
+    if (fildes < 0 || (size_t)fildes >= picotm_arraylen(self->fd_tx)) {
+        picotm_error_set_errno(error, EBADF);
+        return NULL;
+    }
+
     struct fd_tx* fd_tx = get_fd_tx(self, fildes);
 
     /* In |struct fildes_tx| we hold at most one reference to the
-- 
2.43.0


From 4293ea83bd3135332454cd6046962f05adf16cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 20/68] fix: Search for socket buffers in list of socket
 buffers

---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index c020910..f7e3831 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -571,7 +571,7 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 {
     /* Let's see if we already have the sockbuf in use.*/
 
-    struct picotm_slist* pos = picotm_slist_find_1(&self->pipebuf_tx_active_list,
+    struct picotm_slist* pos = picotm_slist_find_1(&self->sockbuf_tx_active_list,
                                                    true_if_eq_sockbuf_id_cb,
                                                    (void*)id);
     if (pos != picotm_slist_end(&self->sockbuf_tx_active_list)) {
-- 
2.43.0


From 49e8fdea075587fc88041685aabecc746b64a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 21/68] fix: Detect overflow when subtracting smallest value
 from zero

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 8b753dc..db5a8c3 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -267,12 +267,8 @@ __picotm_arithmetic_error_underflow_tx(void);
                 __picotm_arithmetic_error_underflow_tx();                   \
             }                                                               \
         } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
+            if (__add(maxval, rhs) < lhs) {                                 \
+                __picotm_arithmetic_error_overflow_tx();                    \
             }                                                               \
         }                                                                   \
         return __sub(lhs, rhs);                                             \
-- 
2.43.0


From 7101c2424080c19a57ae8e4a58c9f7aef021967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 22/68] fix: Detect overflow when multiplying by negative
 values

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index db5a8c3..397272c 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -426,13 +426,11 @@ __picotm_arithmetic_error_underflow_tx(void);
             if (lhs == idtval) {                                            \
                 return rhs;                                                 \
             } else if (lhs > idtval) {                                      \
-                if (__div(-maxval, -rhs) < -lhs) {                          \
+                if (__div(minval, lhs) > rhs) {                             \
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             } else /* (lhs < idtval) */ {                                   \
-                if (lhs == minval) {                                        \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                } else if (__div(maxval, rhs) < lhs) {                      \
+                if (__div(maxval, lhs) > rhs) {                             \
                     __picotm_arithmetic_error_overflow_tx();                \
                 }                                                           \
             }                                                               \
-- 
2.43.0


From 2a7ad23ea7ed0e0b58e2499f9a8e9588b7aa7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 23/68] fix: Don't report errors when multiplying by
 floating-point values below one

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 397272c..17c55d0 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -532,7 +532,7 @@ __picotm_arithmetic_error_underflow_tx(void);
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             }                                                               \
-        } else /* (rhs < -idtval) */ {                                      \
+        } else if (rhs < -idtval) {                                         \
             if (lhs > asbval) {                                             \
                 if (__div(minval, rhs) < lhs) {                             \
                     __picotm_arithmetic_error_underflow_tx();               \
-- 
2.43.0


From e3c39ffde194f9d8658fd476aa9c5f236f08aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 24/68] fix: Detect floating-point results that round to
 infinity

---
 .../include/picotm/picotm-arithmetic.h        | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 17c55d0..7de701b 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -218,7 +218,14 @@ __picotm_arithmetic_error_underflow_tx(void);
                 }                                                           \
             }                                                               \
         }                                                                   \
-        return __add(lhs, rhs);                                             \
+        /* The result might still round to infinity. */                     \
+        const __type res = __add(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -361,7 +368,14 @@ __picotm_arithmetic_error_underflow_tx(void);
                 }                                                           \
             }                                                               \
         }                                                                   \
-        return __sub(lhs, rhs);                                             \
+        /* The result might still round to infinity. */                     \
+        const __type res = __sub(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -543,7 +557,14 @@ __picotm_arithmetic_error_underflow_tx(void);
                 }                                                           \
             }                                                               \
         }                                                                   \
-        return __mul(lhs, rhs);                                             \
+        /* The result might still round to infinity. */                     \
+        const __type res = __mul(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -705,7 +726,14 @@ __picotm_arithmetic_error_underflow_tx(void);
                 }                                                           \
             }                                                               \
         }                                                                   \
-        return __div(lhs, rhs);                                             \
+        /* The result might still round to infinity. */                     \
+        const __type res = __div(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 PICOTM_END_DECLS
-- 
2.43.0


From 578bc88c5f99feeed251ba12f079040bca36cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 25/68] fix: Detect math errors of the called function only

matherr_save_and_clear() returned before clearing the floating-point
status flags, so flags raised earlier were reported as errors of the
current function. Clear the flags before the call and restore them
afterwards. With the floating-point environment already saved, don't
save the status flags again; they are part of the environment.
---
 modules/libm/src/fpu_tx.c  |  2 ++
 modules/libm/src/matherr.c |  9 ++++++---
 modules/libm/src/matherr.h | 15 +++++++++------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/modules/libm/src/fpu_tx.c b/modules/libm/src/fpu_tx.c
index 9fa8dd4..ab3e0a8 100644
--- a/modules/libm/src/fpu_tx.c
+++ b/modules/libm/src/fpu_tx.c
@@ -97,6 +97,8 @@ fpu_tx_save_fexcept(struct fpu_tx* self, struct picotm_error* error)
 {
     if (self->flags & FPU_TX_FLAG_FEXCEPT_SAVED) {
         return;
+    } else if (self->flags & FPU_TX_FLAG_FENV_SAVED) {
+        return; /* the saved environment contains the status flags */
     }
 
     int res = fegetexceptflag(&self->saved_fexcept, FE_ALL_EXCEPT);
diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index a3a0508..db5ee82 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -32,7 +32,7 @@
 #endif
 
 void
-matherr_save_and_clear(int except)
+matherr_save_and_clear(int except, fexcept_t* saved)
 {
     if (math_errhandling & MATH_ERRNO) {
         picotm_libc_save_errno();
@@ -43,16 +43,17 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                return;
+                break;
             }
             picotm_recover_from_error(&error);
         } while (true);
+        fegetexceptflag(saved, except);
         feclearexcept(except);
     }
 }
 
 void
-matherr_test_and_resolve(int except)
+matherr_test_and_resolve(int except, const fexcept_t* saved)
 {
     if (math_errhandling & MATH_ERRNO) {
         if (errno) {
@@ -70,5 +71,7 @@ matherr_test_and_resolve(int except)
         } else if (set_except & FE_UNDERFLOW) {
             picotm_recover_from_errno(ERANGE);
         }
+        /* No errors; restore the status flags from before the call. */
+        fesetexceptflag(saved, except);
     }
 }
diff --git a/modules/libm/src/matherr.h b/modules/libm/src/matherr.h
index d0dd787..f30b0ed 100644
--- a/modules/libm/src/matherr.h
+++ b/modules/libm/src/matherr.h
@@ -20,6 +20,8 @@
 
 #pragma once
 
+#include <fenv.h>
+
 /**
  * \cond impl || libm_impl
  * \ingroup libm_impl
@@ -30,13 +32,14 @@
 /**
  * Wraps math functions in error-handling helpers.
  */
-#define MATHERR(type_, res_, func_ , except_)   \
-    matherr_save_and_clear((except_));          \
-    type_ res_ = (func_);                       \
-    matherr_test_and_resolve((except_));
+#define MATHERR(type_, res_, func_ , except_)               \
+    fexcept_t res_ ## saved_;                               \
+    matherr_save_and_clear((except_), &res_ ## saved_);     \
+    type_ res_ = (func_);                                   \
+    matherr_test_and_resolve((except_), &res_ ## saved_);
 
 void
-matherr_save_and_clear(int except);
+matherr_save_and_clear(int except, fexcept_t* saved);
 
 void
-matherr_test_and_resolve(int except);
+matherr_test_and_resolve(int except, const fexcept_t* saved);
-- 
2.43.0


From 0a8164f0a46dfafd327b74772ca97b81b84a8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 26/68] fix: Save status flags and errno in all math functions

Math functions without error reporting didn't save the floating-point
status flags, and complex functions didn't save errno. Rolling back the
transaction left the flags and errno of these functions behind.
---
 modules/libm/src/complex.c | 110 +++++++++++++++++++++++++++++++++++++
 modules/libm/src/math-tm.c |   7 +++
 modules/libm/src/math.c    |  28 ++++++++++
 3 files changed, 145 insertions(+)

diff --git a/modules/libm/src/complex.c b/modules/libm/src/complex.c
index eeb4942..9f9ac6f 100644
--- a/modules/libm/src/complex.c
+++ b/modules/libm/src/complex.c
@@ -19,12 +19,16 @@
  */
 
 #include "picotm/complex.h"
+#include "picotm/picotm-libc.h"
+#include "picotm/picotm-libm.h"
 
 #if defined(PICOTM_LIBM_HAVE_CABS) && PICOTM_LIBM_HAVE_CABS
 PICOTM_EXPORT
 double
 cabs_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cabs(z);
 }
 #endif
@@ -34,6 +38,8 @@ PICOTM_EXPORT
 float
 cabsf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cabsf(z);
 }
 #endif
@@ -43,6 +49,8 @@ PICOTM_EXPORT
 long double
 cabsl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cabsl(z);
 }
 #endif
@@ -52,6 +60,8 @@ PICOTM_EXPORT
 double complex
 cacos_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cacos(z);
 }
 #endif
@@ -61,6 +71,8 @@ PICOTM_EXPORT
 float complex
 cacosf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cacosf(z);
 }
 #endif
@@ -70,6 +82,8 @@ PICOTM_EXPORT
 double complex
 cacosh_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cacosh(z);
 }
 #endif
@@ -79,6 +93,8 @@ PICOTM_EXPORT
 float complex
 cacoshf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cacoshf(z);
 }
 #endif
@@ -88,6 +104,8 @@ PICOTM_EXPORT
 long double complex
 cacoshl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cacoshl(z);
 }
 #endif
@@ -97,6 +115,8 @@ PICOTM_EXPORT
 long double complex
 cacosl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cacosl(z);
 }
 #endif
@@ -106,6 +126,8 @@ PICOTM_EXPORT
 double
 carg_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return carg(z);
 }
 #endif
@@ -115,6 +137,8 @@ PICOTM_EXPORT
 float
 cargf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cargf(z);
 }
 #endif
@@ -124,6 +148,8 @@ PICOTM_EXPORT
 long double
 cargl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cargl(z);
 }
 #endif
@@ -133,6 +159,8 @@ PICOTM_EXPORT
 double complex
 casin_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return casin(z);
 }
 #endif
@@ -142,6 +170,8 @@ PICOTM_EXPORT
 float complex
 casinf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return casinf(z);
 }
 #endif
@@ -151,6 +181,8 @@ PICOTM_EXPORT
 double complex
 casinh_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return casinh(z);
 }
 #endif
@@ -160,6 +192,8 @@ PICOTM_EXPORT
 float complex
 casinhf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return casinhf(z);
 }
 #endif
@@ -169,6 +203,8 @@ PICOTM_EXPORT
 long double complex
 casinhl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return casinhl(z);
 }
 #endif
@@ -178,6 +214,8 @@ PICOTM_EXPORT
 long double complex
 casinl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return casinl(z);
 }
 #endif
@@ -187,6 +225,8 @@ PICOTM_EXPORT
 double complex
 catan_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return catan(z);
 }
 #endif
@@ -196,6 +236,8 @@ PICOTM_EXPORT
 float complex
 catanf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return catanf(z);
 }
 #endif
@@ -205,6 +247,8 @@ PICOTM_EXPORT
 double complex
 catanh_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return catanh(z);
 }
 #endif
@@ -214,6 +258,8 @@ PICOTM_EXPORT
 float complex
 catanhf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return catanhf(z);
 }
 #endif
@@ -223,6 +269,8 @@ PICOTM_EXPORT
 long double complex
 catanhl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return catanhl(z);
 }
 #endif
@@ -232,6 +280,8 @@ PICOTM_EXPORT
 long double complex
 catanl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return catanl(z);
 }
 #endif
@@ -241,6 +291,8 @@ PICOTM_EXPORT
 double complex
 ccos_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ccos(z);
 }
 #endif
@@ -250,6 +302,8 @@ PICOTM_EXPORT
 float complex
 ccosf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ccosf(z);
 }
 #endif
@@ -259,6 +313,8 @@ PICOTM_EXPORT
 double complex
 ccosh_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ccosh(z);
 }
 #endif
@@ -268,6 +324,8 @@ PICOTM_EXPORT
 float complex
 ccoshf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ccoshf(z);
 }
 #endif
@@ -277,6 +335,8 @@ PICOTM_EXPORT
 long double complex
 ccoshl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ccoshl(z);
 }
 #endif
@@ -286,6 +346,8 @@ PICOTM_EXPORT
 long double complex
 ccosl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ccosl(z);
 }
 #endif
@@ -295,6 +357,8 @@ PICOTM_EXPORT
 double complex
 cexp_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cexp(z);
 }
 #endif
@@ -304,6 +368,8 @@ PICOTM_EXPORT
 float complex
 cexpf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cexpf(z);
 }
 #endif
@@ -313,6 +379,8 @@ PICOTM_EXPORT
 long double complex
 cexpl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cexpl(z);
 }
 #endif
@@ -349,6 +417,8 @@ PICOTM_EXPORT
 double complex
 clog_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return clog(z);
 }
 #endif
@@ -358,6 +428,8 @@ PICOTM_EXPORT
 float complex
 clogf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return clogf(z);
 }
 #endif
@@ -367,6 +439,8 @@ PICOTM_EXPORT
 long double complex
 clogl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return clogl(z);
 }
 #endif
@@ -403,6 +477,8 @@ PICOTM_EXPORT
 double complex
 cpow_tx(double complex x, double complex y)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cpow(x, y);
 }
 #endif
@@ -412,6 +488,8 @@ PICOTM_EXPORT
 float complex
 cpowf_tx(float complex x, float complex y)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cpowf(x, y);
 }
 #endif
@@ -421,6 +499,8 @@ PICOTM_EXPORT
 long double complex
 cpowl_tx(long double complex x, long double complex y)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return cpowl(x, y);
 }
 #endif
@@ -484,6 +564,8 @@ PICOTM_EXPORT
 double complex
 csin_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csin(z);
 }
 #endif
@@ -493,6 +575,8 @@ PICOTM_EXPORT
 float complex
 csinf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csinf(z);
 }
 #endif
@@ -502,6 +586,8 @@ PICOTM_EXPORT
 double complex
 csinh_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csinh(z);
 }
 #endif
@@ -511,6 +597,8 @@ PICOTM_EXPORT
 float complex
 csinhf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csinhf(z);
 }
 #endif
@@ -520,6 +608,8 @@ PICOTM_EXPORT
 long double complex
 csinhl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csinhl(z);
 }
 #endif
@@ -529,6 +619,8 @@ PICOTM_EXPORT
 long double complex
 csinl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csinl(z);
 }
 #endif
@@ -538,6 +630,8 @@ PICOTM_EXPORT
 double complex
 csqrt_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csqrt(z);
 }
 #endif
@@ -547,6 +641,8 @@ PICOTM_EXPORT
 float complex
 csqrtf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csqrtf(z);
 }
 #endif
@@ -556,6 +652,8 @@ PICOTM_EXPORT
 long double complex
 csqrtl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return csqrtl(z);
 }
 #endif
@@ -565,6 +663,8 @@ PICOTM_EXPORT
 double complex
 ctan_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ctan(z);
 }
 #endif
@@ -574,6 +674,8 @@ PICOTM_EXPORT
 float complex
 ctanf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ctanf(z);
 }
 #endif
@@ -583,6 +685,8 @@ PICOTM_EXPORT
 double complex
 ctanh_tx(double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ctanh(z);
 }
 #endif
@@ -592,6 +696,8 @@ PICOTM_EXPORT
 float complex
 ctanhf_tx(float complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ctanhf(z);
 }
 #endif
@@ -601,6 +707,8 @@ PICOTM_EXPORT
 long double complex
 ctanhl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ctanhl(z);
 }
 #endif
@@ -610,6 +718,8 @@ PICOTM_EXPORT
 long double complex
 ctanl_tx(long double complex z)
 {
+    picotm_libc_save_errno();
+    picotm_libm_save_fexcept();
     return ctanl(z);
 }
 #endif
diff --git a/modules/libm/src/math-tm.c b/modules/libm/src/math-tm.c
index 888f88c..25f58b7 100644
--- a/modules/libm/src/math-tm.c
+++ b/modules/libm/src/math-tm.c
@@ -19,6 +19,7 @@
  */
 
 #include "picotm/math-tm.h"
+#include "picotm/picotm-libm.h"
 #include <fenv.h>
 #include <math.h>
 #include "matherr.h"
@@ -27,6 +28,7 @@
 double
 frexp_tm(double num, int* exp)
 {
+    picotm_libm_save_fexcept();
     return frexp(num, exp);
 }
 #endif
@@ -36,6 +38,7 @@ PICOTM_EXPORT
 float
 frexpf_tm(float num, int* exp)
 {
+    picotm_libm_save_fexcept();
     return frexpf(num, exp);
 }
 #endif
@@ -45,6 +48,7 @@ PICOTM_EXPORT
 long double
 frexpl_tm(long double num, int* exp)
 {
+    picotm_libm_save_fexcept();
     return frexpl(num, exp);
 }
 #endif
@@ -54,6 +58,7 @@ PICOTM_EXPORT
 double
 modf_tm(double x, double* iptr)
 {
+    picotm_libm_save_fexcept();
     return modf(x, iptr);
 }
 #endif
@@ -63,6 +68,7 @@ PICOTM_EXPORT
 float
 modff_tm(float x, float* iptr)
 {
+    picotm_libm_save_fexcept();
     return modff(x, iptr);
 }
 #endif
@@ -72,6 +78,7 @@ PICOTM_EXPORT
 long double
 modfl_tm(long double x, long double* iptr)
 {
+    picotm_libm_save_fexcept();
     return modfl(x, iptr);
 }
 #endif
diff --git a/modules/libm/src/math.c b/modules/libm/src/math.c
index 4eb9bd2..fea7824 100644
--- a/modules/libm/src/math.c
+++ b/modules/libm/src/math.c
@@ -19,6 +19,7 @@
  */
 
 #include "picotm/math.h"
+#include "picotm/picotm-libm.h"
 #include "picotm/picotm-tm-ctypes.h"
 #include "picotm/math-tm.h"
 #include <fenv.h>
@@ -241,6 +242,7 @@ PICOTM_EXPORT
 double
 cbrt_tx(double x)
 {
+    picotm_libm_save_fexcept();
     return cbrt(x);
 }
 #endif
@@ -250,6 +252,7 @@ PICOTM_EXPORT
 float
 cbrtf_tx(float x)
 {
+    picotm_libm_save_fexcept();
     return cbrtf(x);
 }
 #endif
@@ -259,6 +262,7 @@ PICOTM_EXPORT
 long double
 cbrtl_tx(long double x)
 {
+    picotm_libm_save_fexcept();
     return cbrtl(x);
 }
 #endif
@@ -268,6 +272,7 @@ PICOTM_EXPORT
 double
 ceil_tx(double x)
 {
+    picotm_libm_save_fexcept();
     return ceil(x);
 }
 #endif
@@ -277,6 +282,7 @@ PICOTM_EXPORT
 float
 ceilf_tx(float x)
 {
+    picotm_libm_save_fexcept();
     return ceilf(x);
 }
 #endif
@@ -286,6 +292,7 @@ PICOTM_EXPORT
 long double
 ceill_tx(long double x)
 {
+    picotm_libm_save_fexcept();
     return ceill(x);
 }
 #endif
@@ -589,6 +596,7 @@ PICOTM_EXPORT
 double
 floor_tx(double x)
 {
+    picotm_libm_save_fexcept();
     return floor(x);
 }
 #endif
@@ -598,6 +606,7 @@ PICOTM_EXPORT
 float
 floorf_tx(float x)
 {
+    picotm_libm_save_fexcept();
     return floorf(x);
 }
 #endif
@@ -607,6 +616,7 @@ PICOTM_EXPORT
 long double
 floorl_tx(long double x)
 {
+    picotm_libm_save_fexcept();
     return floorl(x);
 }
 #endif
@@ -649,6 +659,7 @@ PICOTM_EXPORT
 double
 fmax_tx(double x, double y)
 {
+    picotm_libm_save_fexcept();
     return fmax(x, y);
 }
 #endif
@@ -658,6 +669,7 @@ PICOTM_EXPORT
 float
 fmaxf_tx(float x, float y)
 {
+    picotm_libm_save_fexcept();
     return fmaxf(x, y);
 }
 #endif
@@ -667,6 +679,7 @@ PICOTM_EXPORT
 long double
 fmaxl_tx(long double x, long double y)
 {
+    picotm_libm_save_fexcept();
     return fmaxl(x, y);
 }
 #endif
@@ -676,6 +689,7 @@ PICOTM_EXPORT
 double
 fmin_tx(double x, double y)
 {
+    picotm_libm_save_fexcept();
     return fmin(x, y);
 }
 #endif
@@ -685,6 +699,7 @@ PICOTM_EXPORT
 float
 fminf_tx(float x, float y)
 {
+    picotm_libm_save_fexcept();
     return fminf(x, y);
 }
 #endif
@@ -694,6 +709,7 @@ PICOTM_EXPORT
 long double
 fminl_tx(long double x, long double y)
 {
+    picotm_libm_save_fexcept();
     return fminl(x, y);
 }
 #endif
@@ -1247,6 +1263,7 @@ PICOTM_EXPORT
 double
 nearbyint_tx(double x)
 {
+    picotm_libm_save_fexcept();
     return nearbyint(x);
 }
 #endif
@@ -1256,6 +1273,7 @@ PICOTM_EXPORT
 float
 nearbyintf_tx(float x)
 {
+    picotm_libm_save_fexcept();
     return nearbyintf(x);
 }
 #endif
@@ -1265,6 +1283,7 @@ PICOTM_EXPORT
 long double
 nearbyintl_tx(long double x)
 {
+    picotm_libm_save_fexcept();
     return nearbyintl(x);
 }
 #endif
@@ -1427,6 +1446,7 @@ PICOTM_EXPORT
 double
 rint_tx(double x)
 {
+    picotm_libm_save_fexcept();
     return rint(x);
 }
 #endif
@@ -1436,6 +1456,7 @@ PICOTM_EXPORT
 float
 rintf_tx(float x)
 {
+    picotm_libm_save_fexcept();
     return rintf(x);
 }
 #endif
@@ -1445,6 +1466,7 @@ PICOTM_EXPORT
 long double
 rintl_tx(long double x)
 {
+    picotm_libm_save_fexcept();
     return rintl(x);
 }
 #endif
@@ -1454,6 +1476,7 @@ PICOTM_EXPORT
 double
 round_tx(double x)
 {
+    picotm_libm_save_fexcept();
     return round(x);
 }
 #endif
@@ -1463,6 +1486,7 @@ PICOTM_EXPORT
 float
 roundf_tx(float x)
 {
+    picotm_libm_save_fexcept();
     return roundf(x);
 }
 #endif
@@ -1472,6 +1496,7 @@ PICOTM_EXPORT
 long double
 roundl_tx(long double x)
 {
+    picotm_libm_save_fexcept();
     return roundl(x);
 }
 #endif
@@ -1724,6 +1749,7 @@ PICOTM_EXPORT
 double
 trunc_tx(double x)
 {
+    picotm_libm_save_fexcept();
     return trunc(x);
 }
 #endif
@@ -1733,6 +1759,7 @@ PICOTM_EXPORT
 float
 truncf_tx(float x)
 {
+    picotm_libm_save_fexcept();
     return truncf(x);
 }
 #endif
@@ -1742,6 +1769,7 @@ PICOTM_EXPORT
 long double
 truncl_tx(long double x)
 {
+    picotm_libm_save_fexcept();
     return truncl(x);
 }
 #endif
-- 
2.43.0


From 3de381f0a9e4eb33c39ff8f5fd523e3b77648698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 27/68] fix: Copy and stop at search character in memccpy_tx()

memccpy_tx() didn't copy the search character and looped forever after
having found it.
---
 modules/libc/src/string.c | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 54a854a..f151e79 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -38,29 +38,19 @@ memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
-    dest = NULL; /* Return NULL by default */
+    /* Don't access bytes after 'c'; they might not belong to the buffers. */
 
-    while (n) {
-
-        uint8_t buf[32];
-
-        size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
-
-        load_tx(src8, buf, siz);
+    for (; n; --n) {
+        uint8_t byte;
+        load_tx(src8++, &byte, sizeof(byte));
+        store_tx(dest8++, &byte, sizeof(byte));
 
-        for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == c) {
-                dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i; /* Stop looping */
-            }
+        if (byte == (uint8_t)c) {
+            return dest8; /* Return the location after 'c' */
         }
-
-        store_tx(dest8, buf, siz);
-        dest8 += siz;
-        src8 += siz;
-        n -= siz;
     }
-    return dest;
+
+    return NULL;
 }
 #endif
 
-- 
2.43.0


From d7e7a0c7b225ad70bc1d398a826095345cf769f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 28/68] fix: Handle overlapping buffers in memmove_tx()

Moving more than 32 bytes to a higher, overlapping address overwrote
bytes of the source buffer before they had been copied.
---
 modules/libc/src/string.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index f151e79..1354655 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -94,6 +94,24 @@ memmove_tx(void* dest, const void* src, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
+    if ((src8 < dest8) && (dest8 < src8 + n)) {
+
+        /* Copy from the end, so that 'src' isn't overwritten before
+         * it has been copied. */
+
+        while (n) {
+
+            uint8_t buf[32];
+
+            size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
+
+            n -= siz;
+
+            load_tx(src8 + n, buf, siz);
+            store_tx(dest8 + n, buf, siz);
+        }
+    }
+
     while (n) {
 
         uint8_t buf[32];
-- 
2.43.0


From 24ed6e01d9e295e95e86f756dd4c23cddfdda1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 29/68] fix: Terminate string in stpcpy_tx() and return its end

---
 modules/libc/src/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 1354655..1760952 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -180,8 +180,9 @@ char*
 stpcpy_tx(char* restrict dest, const char* restrict src)
 {
     privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    store_tx(dest, src, strlen(src));
-    return dest;
+    size_t len = strlen(src);
+    store_tx(dest, src, len + 1);
+    return dest + len;
 }
 #endif
 
-- 
2.43.0


From 89452faa76bd4ccb2440037ca33eafb1f31a786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 30/68] fix: Return end of string from stpncpy_tx()

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 1760952..db25182 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -199,7 +199,7 @@ stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     } else {
         store_tx(dest, src, n);
     }
-    return dest;
+    return dest + (len - 1 < n ? len - 1 : n);
 }
 #endif
 
-- 
2.43.0


From 2062a17ccea13f5ef5a11926e675b21c17ecc4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 31/68] fix: Pad destination buffer in strncpy_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index db25182..c830107 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -347,6 +347,7 @@ strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     size_t len = strlen(src) + 1;
     if (len < n) {
         store_tx(dest, src, len);
+        memset_tx(dest + len, 0, n - len);
     } else {
         store_tx(dest, src, n);
     }
-- 
2.43.0


From 7256de9b1dd0856a16ff26ad1d144a31eb7213a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 32/68] fix: Privatize second string in strcspn_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index c830107..18e51ea 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -266,6 +266,7 @@ size_t
 strcspn_tx(const char* s, const char* reject)
 {
     privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(reject, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strcspn(s, reject);
 }
 #endif
-- 
2.43.0


From 3c8c8982d1dd84aff68fa55bfba2ac47a257705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 33/68] fix: Stop at end of string in strchr_tx()

Without the character in the string, strchr_tx() privatized memory
behind the string up to the next occurence of the character.
---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 18e51ea..bb54bb4 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -222,7 +222,7 @@ PICOTM_EXPORT
 char*
 strchr_tx(const char* s, int c)
 {
-    privatize_c_tx(s, c, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strchr_tm(s, c);
 }
 #endif
-- 
2.43.0


From 5a5344cd44ab3a03b8441ab1e92edd796ee61f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 34/68] fix: Store position and privatize written string in
 strtok_r_tx()

strtok_r_tx() stored the address of a local variable in 'saveptr',
privatized the NULL pointer when continuing, and didn't privatize the
string for writing.
---
 modules/libc/src/string.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index bb54bb4..3c3fa0d 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -425,12 +425,13 @@ char*
 strtok_r_tx(char* restrict str, const char* restrict delim,
             char** restrict saveptr)
 {
-    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    char* ptr = load_ptr_tx(saveptr);
+
+    privatize_c_tx(str ? str : ptr, '\0', PICOTM_TM_PRIVATIZE_LOADSTORE);
     privatize_c_tx(delim, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
-    char* ptr = load_ptr_tx(saveptr);
     char* tok = strtok_r(str, delim, &ptr);
-    store_ptr_tx(saveptr, &ptr);
+    store_ptr_tx(saveptr, ptr);
 
     return tok;
 }
-- 
2.43.0


From 6cabff040ac9b3187a52de3daba2adb6a6af6484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 35/68] fix: Don't access characters behind limit in string
 functions

The string functions with a maximum length privatized their operands up
to the next '\\0' character, even if that is behind the limit and not
part of the buffers.
---
 modules/libc/src/string.c | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 3c3fa0d..1c80c46 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -26,6 +26,24 @@
 #include <errno.h>
 #include <stdbool.h>
 
+/* Privatizes the string at address |s|, but at most |n| characters. */
+static void
+privatize_str_tx(const char* s, size_t n, unsigned long flags)
+{
+    size_t len = 0;
+
+    while (len < n) {
+        char c;
+        load_tx(s + len, &c, sizeof(c));
+        ++len;
+        if (c == '\0') {
+            break;
+        }
+    }
+
+    privatize_tx(s, len, flags);
+}
+
 /*
  * Memory functions
  */
@@ -191,8 +209,8 @@ PICOTM_EXPORT
 char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
+    privatize_str_tx(src, n, PICOTM_TM_PRIVATIZE_LOAD);
+    size_t len = strnlen(src, n) + 1;
     if (len < n) {
         store_tx(dest, src, len);
         memset_tx(dest + len, 0, n - len);
@@ -315,9 +333,9 @@ char*
 strncat_tx(char* restrict dest, const char* restrict src, size_t n)
 {
     privatize_c_tx(dest, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_str_tx(src, n, PICOTM_TM_PRIVATIZE_LOAD);
     size_t dlen = strlen(dest);
-    size_t slen = strlen(src) + 1;
+    size_t slen = strnlen(src, n) + 1;
     if (n < slen) {
         store_tx(dest + dlen, src, n);
         memset_tx(dest + dlen + n, '\0', 1);
@@ -333,8 +351,8 @@ PICOTM_EXPORT
 int
 strncmp_tx(const char* s1, const char* s2, size_t n)
 {
-    privatize_c_tx(s1, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(s2, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_str_tx(s1, n, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_str_tx(s2, n, PICOTM_TM_PRIVATIZE_LOAD);
     return strncmp(s1, s2, n);
 }
 #endif
@@ -344,8 +362,8 @@ PICOTM_EXPORT
 char*
 strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
+    privatize_str_tx(src, n, PICOTM_TM_PRIVATIZE_LOAD);
+    size_t len = strnlen(src, n) + 1;
     if (len < n) {
         store_tx(dest, src, len);
         memset_tx(dest + len, 0, n - len);
@@ -361,7 +379,7 @@ PICOTM_EXPORT
 char*
 strndup_tx(const char* s, size_t n)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_str_tx(s, n, PICOTM_TM_PRIVATIZE_LOAD);
     return strndup_tm(s, n);
 }
 #endif
@@ -371,7 +389,7 @@ PICOTM_EXPORT
 size_t
 strnlen_tx(const char* s, size_t maxlen)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_str_tx(s, maxlen, PICOTM_TM_PRIVATIZE_LOAD);
     return strnlen(s, maxlen);
 }
 #endif
-- 
2.43.0


From bc571f5e09165b8414d8cb2e57cacd77d524565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 36/68] fix: Privatize output buffer of getcwd_tx() for
 storing, if any

---
 modules/libc/src/unistd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 21de51b..2e68b9e 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -184,7 +184,9 @@ PICOTM_EXPORT
 char*
 getcwd_tx(char* buf, size_t size)
 {
-    privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+    if (buf) {
+        privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_STORE);
+    }
     return getcwd_tm(buf, size);
 }
 #endif
-- 
2.43.0


From 6fa3afed913cbfa91bd32ebd9bd7085799d04ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 37/68] fix: Test open flags instead of file mode for O_TRUNC
 and O_EXCL

---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index f7e3831..7231d95 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2381,8 +2381,8 @@ undo_mkstemp(struct fildes_tx* self, int fildes, int cookie,
  * open()
  */
 
-#define DO_UNLINK(mode_) \
-    ( ( (mode_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
+#define DO_UNLINK(oflag_) \
+    ( ( (oflag_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
 
 int
 fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
@@ -2390,7 +2390,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 {
     /* O_TRUNC needs irrevocability */
 
-    if ((mode&O_TRUNC) && !isnoundo) {
+    if ((oflag&O_TRUNC) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
     }
@@ -2422,7 +2422,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
     }
 
     int cookie = openoptab_append(&self->openoptab,
-                                  &self->openoptablen, DO_UNLINK(mode),
+                                  &self->openoptablen, DO_UNLINK(oflag),
                                   error);
     if (picotm_error_is_set(error)) {
         goto err_openoptab_append;
-- 
2.43.0


From 87bbcf1af1fd0b3123ca1560170c2160f58e75d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 38/68] fix: Don't follow symbolic links in lstat() and
 unlink()

---
 modules/libc/src/fildes/fildes_tx.c | 41 +++++++----------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 7231d95..8f7dd9e 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2185,35 +2185,24 @@ int
 fildes_tx_exec_lstat(struct fildes_tx* self, const char* path, struct stat* buf,
                      struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    /* Don't resolve the path; lstat() doesn't follow symbolic links. */
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = lstat(real_path, buf);
+    int res = lstat(abs_path, buf);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_lstat;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        goto err_allocator_module_free;
-    }
+    free(abs_path);
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
 err_lstat:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    free(abs_path);
     return -1;
 }
 
@@ -3188,34 +3177,24 @@ int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
                       struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    /* Don't resolve the path; unlink() doesn't follow symbolic links. */
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = unlink(real_path);
+    int res = unlink(abs_path);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_unlink;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        picotm_error_mark_as_non_recoverable(error);
-        goto err;
-    }
+    free(abs_path);
 
     return res;
 
 err_unlink:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
-err:
+    free(abs_path);
     return -1;
 }
 
-- 
2.43.0


From cc6fd69230a3814baf4b8db0abd2c0cb58426f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 39/68] fix: Don't resolve empty path to the current working
 directory

---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 8f7dd9e..73f4ac9 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1177,6 +1177,12 @@ absolute_path(const char* path, struct picotm_error* error)
         return abs_path;
     }
 
+    /* The empty path doesn't refer to anything. */
+    if (!path[0]) {
+        picotm_error_set_errno(error, ENOENT);
+        return NULL;
+    }
+
     /* Construct absolute pathname */
 
     char* cwd = cwd_module_getcwd(NULL, 0, error);
-- 
2.43.0


From 1a8689ef6f0dc2e753cc4633f0abc7aeb9cd1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 40/68] fix: Keep base object of newlocale_tx() until
 transaction commits

---
 modules/libc/src/locale/locale_tx.c | 32 +++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 156ba61..c9a6e75 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -528,12 +528,26 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
         return (locale_t)0;
     }
 
+    /* The call to newlocale() modifies or releases the base object. We
+     * operate on a copy, and keep the base object until the transaction
+     * commits. */
+
+    locale_t copy = (locale_t)0;
+
+    if (base != (locale_t)0) {
+        copy = duplocale(base);
+        if (copy == (locale_t)0) {
+            picotm_error_set_errno(error, errno);
+            return (locale_t)0;
+        }
+    }
+
     /* create a new locale */
 
-    locale_t locobj = newlocale(category_mask, locale, base);
+    locale_t locobj = newlocale(category_mask, locale, copy);
     if (locobj == (locale_t)0) {
         picotm_error_set_errno(error, errno);
-        return (locale_t)0;
+        goto err_newlocale;
     }
 
     struct locale_event arg;
@@ -544,8 +558,22 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
         goto err_locale_log_append;
     }
 
+    if (base != (locale_t)0) {
+        arg.arg.freelocale.locobj = base;
+
+        locale_log_append(self->log, LOCALE_OP_FREELOCALE, &arg, error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0; /* roll-back releases the new locale */
+        }
+    }
+
     return locobj;
 
+err_newlocale:
+    if (copy != (locale_t)0) {
+        freelocale(copy);
+    }
+    return (locale_t)0;
 err_locale_log_append:
     freelocale(locobj);
     return NULL;
-- 
2.43.0


From e5c6b6f4c604c7bf8bb8939e8385bdbfe9473a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 41/68] fix: Unlock locale objects at the end of a transaction

---
 modules/libc/src/locale/locale_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index c9a6e75..0c6a1c9 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -296,6 +296,8 @@ release_locale_state_tx(struct locale_state_tx* lstate_tx,
     assert(lstate_tx);
     assert(global);
 
+    picotm_rwstate_unlock(&lstate_tx->rwstate, &lstate_tx->lstate->rwlock);
+
     ptr_clear_data(lstate_tx->locobj, error);
     if (picotm_error_is_set(error)) {
         return;
-- 
2.43.0


From 70b87491023d581c4903ee182ef38d40dd30a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 42/68] fix: Read-lock the process-wide locale in
 duplocale_tx()

---
 modules/libc/src/locale/locale_tx.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 0c6a1c9..3ab311c 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -393,6 +393,16 @@ locale_tx_duplocale_exec(struct locale_tx* self, locale_t locobj,
         return (locale_t)0;
     }
 
+    if (locobj == LC_GLOBAL_LOCALE) {
+        /* read-lock process-wide locale */
+        try_lock_locale_fields_by_category(LC_ALL, self,
+                                           locale_tx_try_rdlock_field,
+                                           error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+    }
+
     /* duplicate locale */
 
     locale_t newlocobj = duplocale(locobj);
-- 
2.43.0


From 767019f52eed405f7424c2a94a44d680a34e5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 43/68] fix: Provide storage for results of fcntl() getter
 commands

The implementations of F_GETFD, F_GETFL and F_GETOWN store their results in
the supplied argument. Passing NULL crashes the process.
---
 modules/libc/src/fcntl-tm.c | 8 ++++++--
 modules/libc/src/fcntl.c    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index fa1ac7f..123a4d1 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -93,9 +93,13 @@ fcntl_tm(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                memset(&val, 0, sizeof(val));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 6185624..0aa6b54 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -96,9 +96,13 @@ fcntl_tx(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                memset(&val, 0, sizeof(val));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
-- 
2.43.0


From f6370a4a22d98dc158e89d2b977db9784edfccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 44/68] fix: Pass struct flock by reference to fcntl()

The kernel expects a pointer to struct flock. Also return the result of
F_GETLK to the caller.
---
 modules/libc/src/fcntl-tm.c              | 3 +++
 modules/libc/src/fcntl.c                 | 7 ++++++-
 modules/libc/src/fildes/chrdev_tx_ops.c  | 4 ++--
 modules/libc/src/fildes/dir_tx_ops.c     | 4 ++--
 modules/libc/src/fildes/fifo_tx_ops.c    | 4 ++--
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 modules/libc/src/fildes/socket_tx_ops.c  | 4 ++--
 7 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index 123a4d1..5481b58 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -91,6 +91,9 @@ fcntl_tm(int fildes, int cmd, ...)
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error) && (cmd == F_GETLK)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default: {
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 0aa6b54..2e43c44 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -90,10 +90,15 @@ fcntl_tx(int fildes, int cmd, ...)
                 f = va_arg(arg, struct flock*);
                 va_end(arg);
 
-                privatize_tx(f, sizeof(val.arg1), PICOTM_TM_PRIVATIZE_LOAD);
+                privatize_tx(f, sizeof(val.arg1),
+                             (cmd == F_GETLK) ? PICOTM_TM_PRIVATIZE_LOADSTORE
+                                              : PICOTM_TM_PRIVATIZE_LOAD);
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error) && (cmd == F_GETLK)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default: {
diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 2d57a8a..d78f9b1 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -106,7 +106,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -137,7 +137,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index c6816bf..4974c63 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -165,7 +165,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -196,7 +196,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4ae4b53..127ac4e 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -105,7 +105,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -136,7 +136,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 0a3edda..6c97867 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -171,7 +171,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -202,7 +202,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 60b73ac..f583ca5 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -168,7 +168,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -199,7 +199,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
-- 
2.43.0


From 92d561a3faf763379009ec452086dc2ce44d27cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 45/68] fix: Report conflicts on a file's mode as conflicts

fchmod_tx() and fstat_tx() overwrote the error of a failed lock operation
with the current value of errno, so that a conflict among transactions ended
up in the user's error recovery.
---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 1 -
 modules/libc/src/fildes/dir_tx_ops.c     | 2 --
 modules/libc/src/fildes/fifo_tx_ops.c    | 1 -
 modules/libc/src/fildes/regfile_tx_ops.c | 2 --
 modules/libc/src/fildes/socket_tx_ops.c  | 1 -
 5 files changed, 7 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index d78f9b1..e250d83 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -164,7 +164,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     chrdev_tx_try_rdlock_field(self, CHRDEV_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index 4974c63..b348e95 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -82,7 +82,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     dir_tx_try_wrlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -223,7 +222,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     dir_tx_try_rdlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 127ac4e..4cf8427 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -163,7 +163,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     fifo_tx_try_rdlock_field(self, FIFO_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 6c97867..f0d5dc6 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -86,7 +86,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     regfile_tx_try_wrlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -231,7 +230,6 @@ fstat_exec(struct file_tx* base,
 
     regfile_tx_try_rdlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
     seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index f583ca5..b98c912 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -226,7 +226,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     socket_tx_try_rdlock_field(self, SOCKET_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
-- 
2.43.0


From c904e640c2e6efe935ca7715436098de6fbd3488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 46/68] fix: Return a regular file's size from fstat_tx()

Acquiring the lock up front makes seekbuf_tx_get_file_size() believe that
the file size had been read already, so it returned 0.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index f0d5dc6..50dd867 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -232,12 +232,8 @@ fstat_exec(struct file_tx* base,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
-    if (picotm_error_is_set(error)) {
-        return -1;
-    }
 
-    /* get transaction-local file size */
+    /* get transaction-local file size; acquires the reader lock */
     off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From 22892adeffeb0a683bfbd3766bec89a8524df06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 47/68] fix: Respect the start value of fcntl() with F_DUPFD

The lowest acceptable file descriptor was ignored.
---
 modules/libc/src/fcntl-tm.c         | 22 ++++++++++++++++++----
 modules/libc/src/fcntl.c            | 22 ++++++++++++++++++----
 modules/libc/src/fildes/fd_tx.c     |  4 +---
 modules/libc/src/fildes/fd_tx.h     |  2 +-
 modules/libc/src/fildes/fildes_tx.c |  8 ++++----
 modules/libc/src/fildes/fildes_tx.h |  4 ++--
 modules/libc/src/fildes/module.c    |  7 ++++---
 modules/libc/src/fildes/module.h    |  2 +-
 8 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index 5481b58..52b8b14 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -56,15 +56,29 @@ fcntl_tm(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                res = fildes_module_dup_internal(fildes, start_fildes, false,
+                                                 &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                res = fildes_module_dup_internal(fildes, start_fildes, true,
+                                                 &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 2e43c44..f5e22e8 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -58,15 +58,29 @@ fcntl_tx(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                res = fildes_module_dup_internal(fildes, start_fildes, false,
+                                                 &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
+                va_list arg;
+                va_start(arg, cmd);
+                int start_fildes = va_arg(arg, int);
+                va_end(arg);
+
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                res = fildes_module_dup_internal(fildes, start_fildes, true,
+                                                 &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index e063034..0072d01 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -444,7 +444,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, int start_fildes, bool cloexec,
                bool isnoundo, int* cookie, struct picotm_error* error)
 {
     static const int fcntl_cmd[] = {
@@ -456,8 +456,6 @@ fd_tx_dup_exec(struct fd_tx* self,
 #endif
     };
 
-    static const int start_fildes = 0;
-
     int res = TEMP_FAILURE_RETRY(fcntl(fildes, fcntl_cmd[cloexec],
                                        start_fildes));
     if (res < 0) {
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index 0d45853..0e958b2 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -213,7 +213,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, int start_fildes, bool cloexec,
                bool isnoundo, int* cookie, struct picotm_error* error);
 
 void
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 73f4ac9..4ab6fd2 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1612,8 +1612,8 @@ undo_connect(struct fildes_tx* self, int fildes, int cookie,
  */
 
 int
-fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
-                   int isnoundo, struct picotm_error* error)
+fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int start_fildes,
+                   int cloexec, int isnoundo, struct picotm_error* error)
 {
     assert(self);
 
@@ -1634,8 +1634,8 @@ fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
 
     int cookie = -1;
 
-    int res = fd_tx_dup_exec(fd_tx, fildes, cloexec, isnoundo, &cookie,
-                             error);
+    int res = fd_tx_dup_exec(fd_tx, fildes, start_fildes, cloexec, isnoundo,
+                             &cookie, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index c5db04c..9be0471 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -115,8 +115,8 @@ fildes_tx_exec_connect(struct fildes_tx* self, int sockfd,
                        int isnoundo, struct picotm_error* error);
 
 int
-fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
-                   int isnoundo, struct picotm_error* error);
+fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int start_fildes,
+                   int cloexec, int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_fchdir(struct fildes_tx* self, int fildes,
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index b78e396..7b85172 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -290,13 +290,14 @@ fildes_module_connect(int sockfd, const struct sockaddr* serv_addr,
 }
 
 int
-fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
+fildes_module_dup_internal(int fildes, int start_fildes, int cloexec,
+                           struct picotm_error* error)
 {
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_dup(fildes_tx, fildes, cloexec,
+    return fildes_tx_exec_dup(fildes_tx, fildes, start_fildes, cloexec,
                               picotm_is_irrevocable(),
                               error);
 }
@@ -304,7 +305,7 @@ fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
 int
 fildes_module_dup(int fildes, struct picotm_error* error)
 {
-    return fildes_module_dup_internal(fildes, 0, error);
+    return fildes_module_dup_internal(fildes, 0, 0, error);
 }
 
 int
diff --git a/modules/libc/src/fildes/module.h b/modules/libc/src/fildes/module.h
index 63da5cb..0486ffd 100644
--- a/modules/libc/src/fildes/module.h
+++ b/modules/libc/src/fildes/module.h
@@ -60,7 +60,7 @@ int
 fildes_module_dup(int fildes, struct picotm_error* error);
 
 int
-fildes_module_dup_internal(int fildes, int cloexec,
+fildes_module_dup_internal(int fildes, int start_fildes, int cloexec,
                            struct picotm_error* error);
 
 int
-- 
2.43.0


From 38bd6cdf497a34a617adae98d3fe996652cbb865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 48/68] fix: Lock all records of a file region

The number of records in a region depends on the region's offset within its
first record. A region that crosses a record boundary was only locked up to
the boundary.
---
 modules/libc/src/fildes/seekbuf.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/seekbuf.c b/modules/libc/src/fildes/seekbuf.c
index 0980d2b..249d97e 100644
--- a/modules/libc/src/fildes/seekbuf.c
+++ b/modules/libc/src/fildes/seekbuf.c
@@ -31,9 +31,11 @@ recoffset(off_t off)
 }
 
 static size_t
-reccount(size_t len)
+reccount(off_t off, size_t len)
 {
-    return 1 + len/RECSIZE;
+    if (!len)
+        return 1;
+    return 1 + recoffset(off + len - 1) - recoffset(off);
 }
 
 static size_t
@@ -120,7 +122,7 @@ seekbuf_try_rdlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_rdlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_rdlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -130,7 +132,7 @@ seekbuf_try_wrlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_wrlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_wrlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -138,6 +140,6 @@ void
 seekbuf_unlock_region(struct seekbuf self[static 1], off_t off, size_t nbyte,
                       struct rwcountermap rwcountermap[static 1])
 {
-    rwcountermap_unlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_unlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap);
 }
-- 
2.43.0


From 4e8233b9540ac523ddd077d7102d601df45b6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 49/68] fix: Don't keep a file buffer's record locks across
 transactions

The transaction-local file buffers are being reused for different files. The
cached page of record locks belonged to the file of an earlier transaction,
so that the records of the current file were never locked.
---
 modules/libc/src/fildes/rwcountermap.c | 28 ++------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index fbd5413..9600200 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -35,8 +35,7 @@
  */
 
 struct rwcountermap_page {
-    struct rwlockmap_page* lockpg;
-    struct rwcounter       counter[RWLOCKMAP_PAGE_NENTRIES];
+    struct rwcounter counter[RWLOCKMAP_PAGE_NENTRIES];
 };
 
 static void
@@ -44,8 +43,6 @@ rwcountermap_page_init(struct rwcountermap_page* self)
 {
     assert(self);
 
-    self->lockpg = NULL;
-
     struct rwcounter* counter_beg = picotm_arraybeg(self->counter);
     struct rwcounter* counter_end = picotm_arrayend(self->counter);
 
@@ -61,26 +58,6 @@ rwcountermap_page_uninit(struct rwcountermap_page* self)
     assert(self);
 }
 
-static struct rwlockmap_page*
-rwcountermap_page_get_rwlockmap_page(struct rwcountermap_page* self,
-                                     unsigned long long offset,
-                                     struct rwlockmap* rwlockmap,
-                                     struct picotm_error* error)
-{
-    assert(self);
-
-    if (self->lockpg) {
-        return self->lockpg;
-    }
-
-    self->lockpg = rwlockmap_find_page(rwlockmap, offset, error);
-    if (picotm_error_is_set(error)) {
-        return NULL;
-    }
-
-    return self->lockpg;
-}
-
 static struct rwcounter*
 call_records(struct rwcounter* counter_beg,
              const struct rwcounter* counter_end,
@@ -110,8 +87,7 @@ rwcountermap_page_for_each_record_in_range(
     struct picotm_error* error)
 {
     struct rwlockmap_page* lockpg =
-        rwcountermap_page_get_rwlockmap_page(self, record_offset,
-                                             rwlockmap, error);
+        rwlockmap_find_page(rwlockmap, record_offset, error);
     if (picotm_error_is_set(error)) {
         return 0;
     }
-- 
2.43.0


From 29d91ab212efcea8f7b748a8ccf047bbde84f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 50/68] fix: Release record locks if locking a file region
 fails

If a record of a region could not be locked, the records before it remained
locked forever.
---
 modules/libc/src/fildes/rwcountermap.c | 32 ++++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index 9600200..7b19a2f 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -162,7 +162,8 @@ key_bits(unsigned long long offset, unsigned long page_nbits)
     return offset >> page_nbits;
 }
 
-void
+/* Returns the number of successfully processed records. */
+static unsigned long long
 rwcountermap_for_each_record_in_range(
     struct rwcountermap* self,
     unsigned long long record_length, unsigned long long record_offset,
@@ -173,13 +174,15 @@ rwcountermap_for_each_record_in_range(
 {
     assert(self);
 
+    unsigned long long nrecords = 0;
+
     while (record_length) {
 
         uintptr_t value = picotm_treemap_find_value(
             &self->map, key_bits(record_offset, RWLOCKMAP_PAGE_NBITS),
             rwcountermap_create_page_fn, error);
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
         struct rwcountermap_page* statepg = (struct rwcountermap_page*)value;
 
@@ -190,13 +193,16 @@ rwcountermap_for_each_record_in_range(
                                                        rwlockmap,
                                                        call_record,
                                                        error);
+        nrecords += diff;
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
 
         record_length -= diff;
         record_offset += diff;
     }
+
+    return nrecords;
 }
 
 static void
@@ -212,8 +218,14 @@ rwcountermap_rdlock(struct rwcountermap* self,
                   unsigned long long record_offset,
                   struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, rdlock_record, error);
+    unsigned long long nrecords =
+        rwcountermap_for_each_record_in_range(self, record_length,
+                                              record_offset, rwlockmap,
+                                              rdlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records that we've already acquired */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+    }
 }
 
 static void
@@ -229,8 +241,14 @@ rwcountermap_wrlock(struct rwcountermap* self,
                     unsigned long long record_offset,
                     struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, wrlock_record, error);
+    unsigned long long nrecords =
+        rwcountermap_for_each_record_in_range(self, record_length,
+                                              record_offset, rwlockmap,
+                                              wrlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records that we've already acquired */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+    }
 }
 
 static void
-- 
2.43.0


From e7b78c42edda5d012b8df5c53850f6e66264279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 51/68] fix: Read correct data around the end of a regular file

If a transaction wrote beyond the end of the file, reading did not return
the bytes between the old and the new content, or returned them
uninitialized. Reading at the end of the file also depends on the size of
the file, but did not acquire the reader lock.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 76 +++++++++++++++---------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 50dd867..4c796b1 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -517,6 +517,52 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+/* Reads from the region at offset, which has to be read-locked. */
+static ssize_t
+read_region(struct seekbuf_tx* seekbuf_tx, int fildes, void* buf,
+            size_t nbyte, off_t offset, struct picotm_error* error)
+{
+    /* read from file */
+    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
+    if (picotm_error_is_set(error) || (res < 0)) {
+        return res;
+    }
+    size_t len = res;
+
+    if (len < nbyte) {
+
+        /* We've reached the end of the file. The transaction depends
+         * on the file size and possibly extended the file itself. */
+        off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+
+        /* The file could have been extended before we locked its size. */
+        res = do_pread(fildes, (uint8_t*)buf + len, nbyte - len, offset + len,
+                       error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+        if (res > 0) {
+            len += res;
+        }
+
+        if ((off_t)(offset + len) < file_size) {
+            /* unwritten bytes before the end of the file are zero */
+            size_t end = llmin(nbyte, file_size - offset);
+            memset((uint8_t*)buf + len, 0, end - len);
+            len = end;
+        }
+    }
+
+    /* read from local write set */
+    iooptab_read(seekbuf_tx->wrtab, seekbuf_tx->wrtablen, buf, len, offset,
+                 seekbuf_tx->wrbuf);
+
+    return len;
+}
+
 static ssize_t
 pread_exec(struct file_tx* base,
            int fildes, void* buf, size_t nbyte, off_t offset,
@@ -531,19 +577,7 @@ pread_exec(struct file_tx* base,
         return -1;
     }
 
-    /* read from file */
-    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
-        return res;
-    }
-    size_t len = res;
-
-    /* read from local write set */
-    size_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                               seekbuf_tx->wrtablen,
-                               buf, nbyte, offset, seekbuf_tx->wrbuf);
-
-    return llmax(len, len2);
+    return read_region(seekbuf_tx, fildes, buf, nbyte, offset, error);
 }
 
 /*
@@ -715,22 +749,10 @@ read_exec(struct file_tx* base,
         return -1;
     }
 
-    /* read from file */
-
-    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+    ssize_t res = read_region(seekbuf_tx, fildes, buf, nbyte, offset, error);
+    if (picotm_error_is_set(error) || (res < 0)) {
         return res;
     }
-    size_t len = res;
-
-    /* read from local write set */
-
-    ssize_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                                seekbuf_tx->wrtablen, buf, nbyte, offset,
-                                seekbuf_tx->wrbuf);
-
-    res = llmax(len, len2);
 
     /* update file offset */
 
-- 
2.43.0


From 56e9693e1a276fc501e9fe17fb9161302c6ec736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 52/68] fix: Don't move the file offset beyond the bytes that
 have been read

When read_tx() returned less bytes than requested, the commit moved the file
offset by the number of requested bytes.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 4c796b1..08cec66 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -762,7 +762,7 @@ read_exec(struct file_tx* base,
     }
 
     /* add buf to write set */
-    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, nbyte, offset, buf,
+    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, res, offset, buf,
                                            error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From e144ac95d001ce03d3ae622ce84dfe8afcd2dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 53/68] fix: Return an error when writing to a read-only file
 descriptor

Writing succeeded, but failed during the commit, where it cannot be
recovered.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 26 ++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 08cec66..87c3d2f 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -649,6 +649,22 @@ do_pwrite(int fildes, const void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+/* Returns the file's status flags, if it is open for writing. */
+static int
+get_wrflags(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return -1;
+    }
+    if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+        return -1;
+    }
+    return flags;
+}
+
 static ssize_t
 pwrite_exec(struct file_tx* base,
             int fildes, const void* buf, size_t nbyte, off_t offset,
@@ -664,6 +680,11 @@ pwrite_exec(struct file_tx* base,
         return -1;
     }
 
+    get_wrflags(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
     /* lock region */
     seekbuf_tx_try_wrlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
@@ -826,6 +847,11 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
+    get_wrflags(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
     off_t offset = regfile_tx_get_file_offset(self, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From 86169ec8904c597ab6084016adb0c3ede3d745fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 54/68] fix: Append when writing to files that are open in
 append mode

With O_APPEND, the data ended up at the end of the file during commit, but
the transaction's own view had it at the current file offset.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 87c3d2f..184b9d8 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -680,11 +680,19 @@ pwrite_exec(struct file_tx* base,
         return -1;
     }
 
-    get_wrflags(fildes, error);
+    int flags = get_wrflags(fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
+    if (flags & O_APPEND) {
+        /* Linux appends on pwrite(); independent from the offset. */
+        offset = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+    }
+
     /* lock region */
     seekbuf_tx_try_wrlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
@@ -847,7 +855,7 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    get_wrflags(fildes, error);
+    int flags = get_wrflags(fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
@@ -857,6 +865,13 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
+    if (flags & O_APPEND) {
+        offset = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+    }
+
     /* write-lock region */
     seekbuf_tx_try_wrlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
-- 
2.43.0


From 92e60f1e16ee303e44615b4d170e1912cd34234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 55/68] fix: Don't extend regular files with empty writes

A write of zero bytes beyond the end of a file set the transaction's view of
the file size.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 184b9d8..f83e592 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -685,6 +685,10 @@ pwrite_exec(struct file_tx* base,
         return -1;
     }
 
+    if (!nbyte) {
+        return 0; /* nothing to write; doesn't extend the file */
+    }
+
     if (flags & O_APPEND) {
         /* Linux appends on pwrite(); independent from the offset. */
         offset = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
@@ -860,6 +864,10 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
+    if (!nbyte) {
+        return 0; /* nothing to write; doesn't extend the file */
+    }
+
     off_t offset = regfile_tx_get_file_offset(self, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From af8cd28a5a2d0d0b0414ca24a2433a22dc19a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 56/68] fix: Return EINVAL for negative offsets in pread() and
 pwrite()

A negative offset was used for locking file regions; pwrite_tx() only failed
during the commit.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index f83e592..1838829 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -571,6 +571,11 @@ pread_exec(struct file_tx* base,
     struct regfile_tx* self = regfile_tx_of_file_tx(base);
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
+
     /* lock region */
     seekbuf_tx_try_rdlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
@@ -680,6 +685,11 @@ pwrite_exec(struct file_tx* base,
         return -1;
     }
 
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
+
     int flags = get_wrflags(fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From a1f15bbdda0456ae6c6f92d4bff8cddca87cdfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 57/68] fix: Share the file of the old file descriptor in
 dup_tx()

If the old file descriptor's file had been referenced through another
file descriptor, such as with duplicates of duplicates or with files that
have been opened within the transaction, looking up the file by the old
file descriptor's number failed with EBADF.
---
 modules/libc/src/fildes/fildes_tx.c | 30 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 4ab6fd2..f9c51be 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1056,7 +1056,8 @@ get_fd_tx(struct fildes_tx* self, int fildes)
 }
 
 static struct fd_tx*
-find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
+find_fd_tx_with_ref(struct fildes_tx* self, int fildes,
+                    const struct fd_tx* old_fd_tx,
                     bool new_file, struct picotm_error* error)
 {
     if (fildes < 0 || (size_t)fildes >= picotm_arraylen(self->fd_tx)) {
@@ -1086,10 +1087,17 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         return NULL;
     }
 
-    struct file_tx* file_tx = get_file_tx_with_ref(self, old_fildes,
-                                                   new_file, error);
-    if (picotm_error_is_set(error)) {
-        goto err_get_file_tx_with_ref;
+    /* A duplicated file descriptor shares the file of the old file
+     * descriptor; no matter how the latter has been referenced.
+     */
+    struct file_tx* file_tx;
+    if (old_fd_tx) {
+        file_tx = old_fd_tx->file_tx;
+    } else {
+        file_tx = get_file_tx_with_ref(self, fildes, new_file, error);
+        if (picotm_error_is_set(error)) {
+            goto err_get_file_tx_with_ref;
+        }
     }
 
     fd_tx_ref_or_set_up(fd_tx, fd, file_tx, error);
@@ -1104,7 +1112,6 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
     return fd_tx;
 
 err_fd_tx_ref:
-    file_tx_unref(file_tx);
 err_get_file_tx_with_ref:
     fd_unref(fd);
     return NULL;
@@ -1114,21 +1121,22 @@ static struct fd_tx*
 get_fd_tx_with_ref(struct fildes_tx* self, int fildes,
                    struct picotm_error* error)
 {
-    return find_fd_tx_with_ref(self, fildes, fildes, false, error);
+    return find_fd_tx_with_ref(self, fildes, NULL, false, error);
 }
 
 static struct fd_tx*
 add_new_fd_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
                        struct picotm_error* error)
 {
-    return find_fd_tx_with_ref(self, fildes, fildes, new_file, error);
+    return find_fd_tx_with_ref(self, fildes, NULL, new_file, error);
 }
 
 static struct fd_tx*
-add_dup_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
+add_dup_fd_tx_with_ref(struct fildes_tx* self, int fildes,
+                       const struct fd_tx* old_fd_tx,
                        struct picotm_error* error)
 {
-    return find_fd_tx_with_ref(self, fildes, old_fildes, false, error);
+    return find_fd_tx_with_ref(self, fildes, old_fd_tx, false, error);
 }
 
 /* For each file descriptor, Linux puts a symlink in /proc/self/fd/. The
@@ -1643,7 +1651,7 @@ fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int start_fildes,
 
     /* Reference fd_tx for new_fildes */
 
-    add_dup_fd_tx_with_ref(self, new_fildes, fildes, error);
+    add_dup_fd_tx_with_ref(self, new_fildes, fd_tx, error);
     if (picotm_error_is_set(error)) {
         goto err_add_dup_fd_tx_with_ref;
     }
-- 
2.43.0


From f7fa9ce81e2d1bfc8edbd3b5f1ecefed22b9c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 58/68] fix: Declare strcat_tx()

The declaration depended on PICOTM_LIBC_HAVE_STPCAT, which does not exist.
---
 modules/libc/include/picotm/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/include/picotm/string.h b/modules/libc/include/picotm/string.h
index 4c01ad1..3b21988 100644
--- a/modules/libc/include/picotm/string.h
+++ b/modules/libc/include/picotm/string.h
@@ -181,7 +181,7 @@ char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n);
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_STPCAT) && PICOTM_LIBC_HAVE_STPCAT || \
+#if defined(PICOTM_LIBC_HAVE_STRCAT) && PICOTM_LIBC_HAVE_STRCAT || \
     defined(__PICOTM_DOXYGEN)
 PICOTM_NOTHROW
 /**
-- 
2.43.0


From 2023db891d9eda302f06e60f85ec14860b01c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 59/68] fix: Save old file-descriptor flags for undo in
 fcntl_tx()

Undoing F_SETFD installed an uninitialized value.
---
 modules/libc/src/fildes/fd_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 0072d01..5a7721c 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -534,6 +534,10 @@ fd_tx_fcntl_exec(struct fd_tx* self,
                 picotm_error_set_revocable(error);
                 break;
             }
+            oldvalue.arg0 = fd_getfd(self->fd, error);
+            if (picotm_error_is_set(error)) {
+                break;
+            }
             res = fd_setfd(self->fd, arg->arg0, error);
             if (picotm_error_is_set(error)) {
                 break;
-- 
2.43.0


From 1099aa512a197ea77373b7a2d92800836274b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 60/68] fix: Set up write buffer of character devices

Writes to character devices are kept in the transaction's seekable buffer,
which has never been set. Writing to a terminal crashed the process.
---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index f9c51be..47369ab 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -720,10 +720,17 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         return NULL;
     }
 
+    struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
+                                                            new_file, error);
+    if (picotm_error_is_set(error)) {
+        goto err_get_seekbuf_tx_with_ref;
+    }
+
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
     if (picotm_error_is_set(error)) {
         goto err_file_tx_ref_or_set_up;
     }
+    chrdev_tx->seekbuf_tx = seekbuf_tx;
 
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &chrdev_tx->base.list_entry);
@@ -733,6 +740,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     return chrdev_tx;
 
 err_file_tx_ref_or_set_up:
+err_get_seekbuf_tx_with_ref:
     file_unref(&chrdev->base);
     return NULL;
 }
-- 
2.43.0


From 8c9022be7e59307bdcddfb5603c7f9752ab27646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 61/68] fix: Return an error when writing to read-only FIFOs
 and devices

Writing succeeded, but failed during the commit, where it cannot be
recovered.
---
 modules/libc/src/fildes/chrdev_tx_ops.c | 17 +++++++++++++++++
 modules/libc/src/fildes/fifo_tx_ops.c   | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index e250d83..e63757a 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -270,6 +270,17 @@ do_write(int fildes, const void* buf, size_t nbyte,
     return pos - beg;
 }
 
+static void
+check_wrflags(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+    } else if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+    }
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -301,6 +312,12 @@ write_exec(struct file_tx* base,
         }
     } else {
 
+        /* Errors during the commit cannot be recovered. */
+        check_wrflags(fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+
         /* Register write data */
         *cookie = seekbuf_tx_append_to_writeset(seekbuf_tx, nbyte, 0, buf,
                                                 error);
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4cf8427..f663a84 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -271,6 +271,17 @@ do_write(int fildes, const void* buf, size_t nbyte,
     return pos - beg;
 }
 
+static void
+check_wrflags(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+    } else if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+    }
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -302,6 +313,12 @@ write_exec(struct file_tx* base,
         }
     } else {
 
+        /* Errors during the commit cannot be recovered. */
+        check_wrflags(fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+
         /* Register write data */
         *cookie = pipebuf_tx_append_to_writeset(pipebuf_tx, nbyte, 0,
                                                 buf, error);
-- 
2.43.0


From 9a3ad6af3b2ab1b3d3ca4a79d92f9984cf767f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 62/68] fix: Write all output to non-blocking file descriptors

Output that didn't fit into a FIFO, socket or device at the time of the
commit was lost.
---
 modules/libc/src/fildes/chrdev_tx_ops.c | 31 +++++++++++--
 modules/libc/src/fildes/fifo_tx_ops.c   | 31 +++++++++++--
 modules/libc/src/fildes/socket_tx_ops.c | 61 ++++++++++++++++++++++---
 3 files changed, 111 insertions(+), 12 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index e63757a..ada054b 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -330,6 +331,30 @@ write_exec(struct file_tx* base,
     return res;
 }
 
+static void
+write_all(int fildes, const void* buf, size_t nbyte,
+          struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+    const uint8_t* end = pos + nbyte;
+
+    while (pos < end) {
+        ssize_t res = do_write(fildes, pos, end - pos, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            /* non-blocking I/O; wait for free space */
+            struct pollfd pfd = {
+                .fd = fildes,
+                .events = POLLOUT
+            };
+            poll(&pfd, 1, -1);
+        } else {
+            pos += res;
+        }
+    }
+}
+
 static void
 write_apply(struct file_tx* base, int fildes, int cookie,
             struct picotm_error* error)
@@ -338,9 +363,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
     if (seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 seekbuf_tx->wrbuf + seekbuf_tx->wrtab[cookie].bufoff,
-                 seekbuf_tx->wrtab[cookie].nbyte, error);
+        write_all(fildes,
+                  seekbuf_tx->wrbuf + seekbuf_tx->wrtab[cookie].bufoff,
+                  seekbuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index f663a84..5f59dd7 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -331,6 +332,30 @@ write_exec(struct file_tx* base,
     return res;
 }
 
+static void
+write_all(int fildes, const void* buf, size_t nbyte,
+          struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+    const uint8_t* end = pos + nbyte;
+
+    while (pos < end) {
+        ssize_t res = do_write(fildes, pos, end - pos, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            /* non-blocking I/O; wait for free space */
+            struct pollfd pfd = {
+                .fd = fildes,
+                .events = POLLOUT
+            };
+            poll(&pfd, 1, -1);
+        } else {
+            pos += res;
+        }
+    }
+}
+
 static void
 write_apply(struct file_tx* base, int fildes, int cookie,
             struct picotm_error* error)
@@ -339,9 +364,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct pipebuf_tx* pipebuf_tx = self->pipebuf_tx;
 
     if (pipebuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 pipebuf_tx->wrbuf + pipebuf_tx->wrtab[cookie].bufoff,
-                 pipebuf_tx->wrtab[cookie].nbyte, error);
+        write_all(fildes,
+                  pipebuf_tx->wrbuf + pipebuf_tx->wrtab[cookie].bufoff,
+                  pipebuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index b98c912..8ad3064 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -466,6 +467,30 @@ send_exec(struct file_tx* base,
     return res;
 }
 
+static void
+send_all(int sockfd, const void* buffer, size_t length, int flags,
+         struct picotm_error* error)
+{
+    const uint8_t* pos = buffer;
+    const uint8_t* end = pos + length;
+
+    while (pos < end) {
+        ssize_t res = do_send(sockfd, pos, end - pos, flags, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            /* non-blocking I/O; wait for free space */
+            struct pollfd pfd = {
+                .fd = sockfd,
+                .events = POLLOUT
+            };
+            poll(&pfd, 1, -1);
+        } else {
+            pos += res;
+        }
+    }
+}
+
 static void
 send_apply(struct file_tx* base, int sockfd, int cookie,
            struct picotm_error* error)
@@ -476,9 +501,9 @@ send_apply(struct file_tx* base, int sockfd, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_send(sockfd,
-                sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                sockbuf_tx->wrtab[cookie].nbyte, flags, error);
+        send_all(sockfd,
+                 sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
+                 sockbuf_tx->wrtab[cookie].nbyte, flags, error);
         if (picotm_error_is_set(error)) {
             return;
         }
@@ -580,6 +605,30 @@ write_exec(struct file_tx* base,
     return res;
 }
 
+static void
+write_all(int fildes, const void* buf, size_t nbyte,
+          struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+    const uint8_t* end = pos + nbyte;
+
+    while (pos < end) {
+        ssize_t res = do_write(fildes, pos, end - pos, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            /* non-blocking I/O; wait for free space */
+            struct pollfd pfd = {
+                .fd = fildes,
+                .events = POLLOUT
+            };
+            poll(&pfd, 1, -1);
+        } else {
+            pos += res;
+        }
+    }
+}
+
 static void
 write_apply(struct file_tx* base, int fildes, int cookie,
             struct picotm_error* error)
@@ -588,9 +637,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                 sockbuf_tx->wrtab[cookie].nbyte, error);
+        write_all(fildes,
+                  sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
+                  sockbuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
-- 
2.43.0


From 49aca9b2f2e7a5625eaeff238412677eef7caee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 63/68] fix: Return each received byte only once with MSG_PEEK

---
 modules/libc/src/fildes/socket_tx_ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 8ad3064..3d5047b 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -353,6 +353,10 @@ do_recv(int sockfd, void* buffer, size_t length, int flags,
         }
 
         pos += res;
+
+        if (flags & MSG_PEEK) {
+            break; /* further calls return the same data */
+        }
     }
 
     return pos - beg;
-- 
2.43.0


From 4c02b91115d9905bb4e09dde099e7b906cc4c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 64/68] fix: Support basic conversions in formatted input and
 output

Conversions to characters, pointers, and upper-case formats have
been refused with EINVAL.
---
 modules/libc/src/stdio.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 3bdac36..b68f5a3 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -79,12 +79,16 @@ privatize_printf_args(const char* format, va_list arg)
              */
 
             case 'd': case 'i': case 'o': case 'u':
-            case 'x':
+            case 'x': case 'X': case 'c':
                 (void)va_arg(arg, int);
                 break;
-            case 'a': case 'e': case 'f': case 'g':
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
                 (void)va_arg(arg, double);
                 break;
+            case 'p':
+                (void)va_arg(arg, void*);
+                break;
             case 's':
                 privatize_c_tx(va_arg(arg, void**), '\0',
                                PICOTM_TM_PRIVATIZE_LOAD);
@@ -250,16 +254,19 @@ privatize_scanf_args(const char* format, va_list arg)
                 privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
                              PICOTM_TM_PRIVATIZE_STORE);
                 break;
-            case 'x':
+            case 'x': case 'X':
                 privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
                              PICOTM_TM_PRIVATIZE_STORE);
                 break;
-            case 'a': case 'e': case 'f':
-                /* fall through */
-            case 'g':
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
                 privatize_tx(va_arg(arg, float*), sizeof(float),
                              PICOTM_TM_PRIVATIZE_STORE);
                 break;
+            case 'c':
+                privatize_tx(va_arg(arg, char*), sizeof(char),
+                             PICOTM_TM_PRIVATIZE_STORE);
+                break;
             case 'p':
                 privatize_tx(va_arg(arg, void**), sizeof(void*),
                              PICOTM_TM_PRIVATIZE_STORE);
-- 
2.43.0


From 8c042fe110c2f5bb9431db5aec0d70401dd4ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 65/68] fix: Casts from unsigned types to ranges below zero
 overflow

If the destination type's maximum is negative, it was converted to a
large unsigned value when comparing it with an unsigned source value,
so that the overflow went undetected.
---
 modules/cast/include/picotm/picotm-cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/cast/include/picotm/picotm-cast.h b/modules/cast/include/picotm/picotm-cast.h
index 6af9df9..0c84983 100644
--- a/modules/cast/include/picotm/picotm-cast.h
+++ b/modules/cast/include/picotm/picotm-cast.h
@@ -118,7 +118,7 @@ __picotm_cast_error_underflow_tx(void);
              * Destination minimal and maximal values might be bit-         \
              * wise converted to 'unsigned' type during compare             \
              * operations. */                                               \
-            if (value > dmax) {                                             \
+            if ((dmax < 0) || (value > dmax)) {                             \
                 __picotm_cast_error_overflow_tx();                          \
             } else if ((dmin > 0) && (value < dmin)) {                      \
                 /* Can only underflow in the rare case that the             \
-- 
2.43.0


From df12ccf8c238f25d8280dccdac6a2765c9555c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 66/68] fix: Correct the static initializers of singly-linked
 lists

PICOTM_SLIST_ITEM_INITIALIZER and PICOTM_SLIST_HEAD_INITIALIZER() used
a misspelled macro, so that they did not compile.
---
 include/picotm/picotm-lib-slist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/picotm/picotm-lib-slist.h b/include/picotm/picotm-lib-slist.h
index 2217016..2c65071 100644
--- a/include/picotm/picotm-lib-slist.h
+++ b/include/picotm/picotm-lib-slist.h
@@ -260,7 +260,7 @@ struct picotm_slist {
  * Static-initializer macro for singly-linked list items.
  */
 #define PICOTM_SLIST_ITEM_INITIALIZER   \
-    __PIOTM_SLIST_INITIALIZER(NULL)
+    __PICOTM_SLIST_INITIALIZER(NULL)
 
 /**
  * \ingroup group_lib
@@ -268,7 +268,7 @@ struct picotm_slist {
  * \param   head_   The singly-linked list's head entry.
  */
 #define PICOTM_SLIST_HEAD_INITIALIZER(head_)    \
-    __PIOTM_SLIST_INITIALIZER(head_)
+    __PICOTM_SLIST_INITIALIZER(head_)
 
 /**
  * \ingroup group_lib
-- 
2.43.0


From 974254692e810669ed1369494d85d3627bf98b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 67/68] fix: Correct the static initializer of shared reference
 counters

The parameter of PICOTM_SHARED_REF16_INITIALIZER() had the name of the
field that it initializes, so that the macro did not compile.
---
 include/picotm/picotm-lib-ref.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/picotm/picotm-lib-ref.h b/include/picotm/picotm-lib-ref.h
index 1999523..278ab75 100644
--- a/include/picotm/picotm-lib-ref.h
+++ b/include/picotm/picotm-lib-ref.h
@@ -106,11 +106,11 @@ struct picotm_shared_ref16 {
 /**
  * \ingroup group_lib
  * Initializes a static reference counter with the given value.
- * \param   count   The initial reference count
+ * \param   __count The initial reference count
  */
-#define PICOTM_SHARED_REF16_INITIALIZER(count)  \
-{                                               \
-    .count = ATOMIC_VAR_INIT(count)             \
+#define PICOTM_SHARED_REF16_INITIALIZER(__count)    \
+{                                                   \
+    .count = ATOMIC_VAR_INIT(__count)               \
 }
 
 /**
-- 
2.43.0


From 15a6317d5fbfdc8e24c754519bc46389b2dff5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 68/68] fix: Don't walk elements before the start of an empty
 table

For an empty table without memory, the end pointer of the reverse walk
wrapped around and the walk called its callback for an invalid element.
---
 src/table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/table.c b/src/table.c
index 0503a6d..9b0e919 100644
--- a/src/table.c
+++ b/src/table.c
@@ -164,6 +164,10 @@ tabrwalk_1(void* restrict base, size_t nelems, size_t siz,
 {
     size_t pos = 0;
 
+    if (!nelems) {
+        return pos; /* an empty table might not have memory */
+    }
+
     const unsigned char* beg = base;
     unsigned char* end = base + nelems * siz;
 
@@ -190,6 +194,10 @@ tabrwalk_2(void* restrict base, size_t nelems, size_t siz,
 {
     size_t pos = 0;
 
+    if (!nelems) {
+        return pos; /* an empty table might not have memory */
+    }
+
     const unsigned char* beg = base;
     unsigned char* end = base + nelems * siz;
 
-- 
2.43.0

