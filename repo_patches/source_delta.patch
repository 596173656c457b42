From 019e900af5f03f1317357959e5adebd72a71c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 001/101] fix: zt_table_del must unlink from the node's real
 predecessor

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..0fcd1c9 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -252,6 +252,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From a7dd3a67bafddeac0bacaee23b59879f6e630616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 002/101] fix: 65536 (not 65535) buckets for hints of
 32768..65535 in zt_table_init

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0fcd1c9..88246b0 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -28,7 +28,7 @@ unsigned long powers_of_2[] = { 2,            4,         8,
                                 128,          256,       512,
                                 1024,         2048,      4096,
                                 8192,         16384,     32768,
-                                65535,        131072,    262144,
+                                65536,        131072,    262144,
                                 524288,       1048576,   2097152,
                                 4194304,      8388608,   16777216,
                                 33554432,     67108864,  134217728,
-- 
2.43.0


From c57e12ab9c43d3bdb7a07b0152b10d218fc05a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 003/101] fix: round the ZT_TABLE_SIZE_USE_HINT bucket count up
 to a power of 2

---
 src/libzt/zt_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 88246b0..8337f4b 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -100,7 +100,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->cdata = cdata;
 
     if (flags & ZT_TABLE_SIZE_USE_HINT) {
-        nbuckets = hint;
+        /* bucket indexes are bit masks, so the bucket count must be a power of 2 */
+        for (nbuckets = 2; nbuckets < hint; nbuckets <<= 1) {
+            ;
+        }
     } else {
         int i = 0;
         int len = sizeof_array(powers_of_2);
-- 
2.43.0


From ef85939314824e0df2e0bd622bf0f54edbe64648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 004/101] fix: zt_table_compare_buff must compare bytes past an
 embedded NUL

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 8337f4b..511d417 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -365,7 +365,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From 62a7804a06d1b40b08ecf42b961dddfaec9601f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 005/101] fix: set union, intersection and difference must not
 stop at an element the result already has

---
 src/libzt/zt_set.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..451a342 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -75,7 +75,9 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    /* already being a member is not a reason to stop the iteration */
+    zt_set_insert(p->s2, datum, datum_len);
+    return 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -97,7 +99,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
@@ -119,7 +121,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        zt_set_insert(p->s2, datum, datum_len);
     }
     return 0;
 }
-- 
2.43.0


From f75351947f83003ebf8eb7a8a60429d6553ab887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 006/101] fix: zt_set_remove must remove the element, and leave
 the length alone when there is none

---
 src/libzt/zt_set.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 451a342..fbc9d9e 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -57,9 +57,32 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
     return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
 }
 
+struct _set_find {
+    const void * data;
+    size_t       len;
+};
+
+static int _find(void *key UNUSED, size_t key_len, void *datum, size_t datum_len UNUSED, void *param)
+{
+    struct _set_find * f = (struct _set_find *)param;
+
+    if (datum == f->data) {
+        f->len = key_len;
+        return 1;
+    }
+    return 0;
+}
+
 int zt_set_remove(zt_set *set, void **data)
 {
-    *data = zt_table_del(set->tbl, *data, 0);
+    struct _set_find f = { NULL, 0 };
+
+    f.data = *data;
+    if (!zt_table_for_each(set->tbl, _find, &f)) {
+        return 1;
+    }
+
+    *data = zt_table_del(set->tbl, *data, f.len);
     set->length--;
     return 0;
 }
-- 
2.43.0


From ba53680041c9354f4e9d41095e276f88fef232f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 007/101] fix: zt_set_size must use the field that exists

---
 src/libzt/zt_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.h b/src/libzt/zt_set.h
index 3f5be60..134abec 100644
--- a/src/libzt/zt_set.h
+++ b/src/libzt/zt_set.h
@@ -13,7 +13,7 @@ struct zt_set {
 };
 typedef int (*zt_set_iterator)(void *, void *);
 
-#define zt_set_size(set) ((set)->size)
+#define zt_set_size(set) ((set)->length)
 
 zt_set *zt_set_init(int (*match)(const void *key1, size_t key1_len, const void *key2, size_t key2_len, void *cdata),
                     void (*destroy)(void *data),
-- 
2.43.0


From 2e4da392bfe6bea83bddaf0232548a0f42f92c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 008/101] fix: zt_table_hash_int/compare_int must not read past
 the key value

---
 src/libzt/zt_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 511d417..ede9537 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -307,7 +307,7 @@ unsigned long
 zt_table_hash_int(const void *key, size_t key_len, void *cdata UNUSED)
 {
     unsigned char * skey = (unsigned char *)key;
-    unsigned long   nkey = zt_hash32_buff(&skey, key_len, ZT_HASH32_INIT);
+    unsigned long   nkey = zt_hash32_buff(&skey, MIN(key_len, sizeof(skey)), ZT_HASH32_INIT);
 
     return nkey;
 }
@@ -316,7 +316,7 @@ int
 zt_table_compare_int(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if (lhs_len == rhs_len) {
-        if (memcmp(&lhs, &rhs, lhs_len) == 0) {
+        if (memcmp(&lhs, &rhs, MIN(lhs_len, sizeof(lhs))) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From ff058245058e593039b234c7451e76f26304d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 009/101] fix: zt_queue_dequeue on an empty queue must not hand
 out the queue head as an element

---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..1af57da 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if(zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From b91dbc35f32f4be266418cb1e56ef4dd5256be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 010/101] fix: zt_elist_join of an empty list must not link the
 list's own head

---
 src/libzt/zt_list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..981c16d 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,10 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (zt_elist_empty(list)) {
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From 8a73106d5bef0b250109858a86fed3e51de6d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 011/101] fix: count every page a pool gives back, not only
 those zt_mem_pool_release frees

---
 src/libzt/zt_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..8d09fb0 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -319,7 +319,6 @@ zt_mem_pool_release(void **data)
                                   pool->release_test_cb_data)) {
             /* release the page */
             zt_mem_page_destroy(page);
-            pool->page_frees++;
         }
     }
 }
@@ -681,6 +680,7 @@ zt_mem_page_destroy(zt_mem_page *page)
 
     page->parent_pool->npages--;
     page->parent_pool->nfree_pages--;
+    page->parent_pool->page_frees++;
 
     size = sizeof(zt_mem_elt) + page->parent_pool->elt_size;
     elt = (zt_mem_elt *)page->data;
-- 
2.43.0


From 5639502e5fdee00187250c6d1a59a63274337d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 012/101] fix: report a failed page allocation in
 zt_mem_pool_init/zt_mem_pool_alloc instead of using a NULL page

---
 src/libzt/zt_mem.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 8d09fb0..de26ea7 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -240,7 +240,11 @@ zt_mem_pool_init(char *name, ssize_t elts,
     if (npages > 0) {
         /* fill the cache */
         while (npages--) {
-            page = zt_mem_page_alloc(pool);
+            if ((page = zt_mem_page_alloc(pool)) == NULL) {
+                zt_elist_add_tail(&pools, &pool->pool_list);
+                zt_mem_pool_destroy(&pool);
+                return NULL;
+            }
             zt_elist_add_tail(&pool->page_list, &page->page_list);
             pool->page_allocs++;
         }
@@ -264,8 +268,9 @@ zt_mem_pool_alloc(zt_mem_pool *pool)
     if (zt_elist_empty(&pool->free_elt_list) == 1) {
         /* alloc a new page */
         zt_mem_page *page;
-        page = zt_mem_page_alloc(pool);
-        /*  */
+        if ((page = zt_mem_page_alloc(pool)) == NULL) {
+            return NULL;
+        }
         zt_elist_add_tail(&pool->page_list, &page->page_list);
         pool->page_allocs++;
     }
-- 
2.43.0


From 095b77c4cc1326207cdb725bb51d72a6e668640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 013/101] fix: pool groups: count only the pools created, and
 undo all of them when one fails

---
 src/libzt/zt_mem.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index de26ea7..6c6f12d 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -555,7 +555,6 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
         return 0;
     }
     zt_elist_reset(&ngroup->group_list);
-    ngroup->npools = len;
 
     for (i = 0; i < len && group[i].name; i++) {
         ngroup->pools[i] = zt_mem_pool_init(group[i].name,
@@ -565,12 +564,16 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
                                             group[i].cb_data,
                                             group[i].flags);
         if (!ngroup->pools[i]) {
-            while (--i) {
+            while (i-- > 0) {
                 zt_mem_pool_destroy(&ngroup->pools[i]);
             }
+            zt_free(ngroup->pools);
+            zt_free(ngroup);
             return 0;
         }
     }
+    /* an unnamed entry ends the group early */
+    ngroup->npools = i;
 
     return ngroup;
 }
-- 
2.43.0


From a1e56dee46e85a3dc12dd85bb20533747a1a6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 014/101] fix: zt_mem_pool_group_alloc must use the pool
 closest in size, as documented, not the first that fits

---
 src/libzt/zt_mem.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 6c6f12d..d86b93a 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -581,17 +581,23 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
 void *
 zt_mem_pool_group_alloc(zt_mem_pool_group *group, size_t size)
 {
-    size_t    len;
-    size_t    i;
+    size_t        len;
+    size_t        i;
+    zt_mem_pool * best = NULL;
 
     len = group->npools;
 
+    /* the pool whose elements are the closest in size, in whatever order the pools are listed */
     for (i = 0; i < len; i++) {
-        if (size <= group->pools[i]->elt_size) {
-            return zt_mem_pool_alloc(group->pools[i]);
+        if (size <= group->pools[i]->elt_size && (!best || group->pools[i]->elt_size < best->elt_size)) {
+            best = group->pools[i];
         }
     }
 
+    if (best) {
+        return zt_mem_pool_alloc(best);
+    }
+
     zt_assert(0);
 
     return NULL;                                           /* never reached if exceptions are enabled */
-- 
2.43.0


From 4e4e386f30c4e1830cbeccf438ea044c81fc0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 015/101] fix: destroying a subpool must not make its parent
 forget the other subpools

---
 src/libzt/zt_ez_mempool.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..a52ecba 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,16 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        /* leave the parent's other subpools alone */
+        while (*link != NULL && *link != pool) {
+            link = &(*link)->next;
+        }
+
+        if (*link == pool) {
+            *link = pool->next;
+        }
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From 526773a2568386aa47f4473ca6b57ffdd59b6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 016/101] fix: zt_ez_mempool_strdup of an empty string must
 hand the copy to the pool

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index a52ecba..24d1063 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -133,7 +133,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From 3775d8a47e6e968b474a615d58cdda5e60c5ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 017/101] fix: a partial gc scan must not lose its place, nor
 miss values protected while it is under way

---
 src/libzt/zt_gc.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..ae18d68 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -75,6 +75,14 @@ static int is_protected(zt_gc_collectable_t *mark)
     return ZT_BIT_ISSET(mark->colour, protected);
 }
 
+/* the value is about to leave its place in the grey list: a partial scan must not resume from it */
+static void skip_scan(zt_gc_t *gc, zt_gc_collectable_t *mark)
+{
+    if (gc->scan == &mark->list) {
+        gc->scan = gc->scan->next;
+    }
+}
+
 void
 zt_gc_protect(zt_gc_t *gc, void *value)
 {
@@ -83,8 +91,10 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
+    skip_scan(gc, mark);
     zt_elist_remove(&mark->list);
-    zt_elist_add(gc->grey, &mark->list);
+    /* at the end of the grey list, so that a scan already under way still reaches it */
+    zt_elist_add_tail(gc->grey, &mark->list);
     ZT_BIT_SET(mark->colour, protected);
 }
 
@@ -233,10 +243,11 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
 }
 
 void
-zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
+zt_gc_unregister(zt_gc_t *gc, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
+    skip_scan(gc, mark);
     zt_elist_remove(&mark->list);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
@@ -396,6 +407,7 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
+        skip_scan(gc, mark);
         zt_elist_remove(&mark->list);
         zt_elist_add_tail(gc->grey, &mark->list);
         return TRUE;
-- 
2.43.0


From 969f910c66ef67bce9c429609a92a7c03fcd34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 018/101] fix: zt_gc_prepare must initialize the colour too, or
 stray bits make a value protected

---
 src/libzt/zt_gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index ae18d68..8cfba9c 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -240,6 +240,7 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
     zt_elist_reset(&mark->list);
+    mark->colour = 0;
 }
 
 void
-- 
2.43.0


From c099e778dfc5ab4e3ae2f36fee7e6df881ca74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 019/101] fix: zt_buf: keep the allocation and its size
 straight after a drain

---
 src/libzt/zt_buf.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..f640f95 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -53,6 +53,7 @@ zt_buf_length(zt_buf_t * b) {
 int
 zt_buf_expand(zt_buf_t * b, size_t len) {
     size_t rlen;
+    void * top;
 
     if (len < ZT_BUF_MIN) {
         rlen = ZT_BUF_MIN;
@@ -60,12 +61,19 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
-    if (b->top == NULL) {
-        b->top = b->buf;
+    /* drained bytes precede buf, only top can be reallocated */
+    if (b->buf != b->top) {
+        memmove(b->top, b->buf, b->len);
+        b->max += (size_t)((char *)b->buf - (char *)b->top);
+        b->buf  = b->top;
+    }
+
+    if ((top = realloc(b->top, b->len + rlen)) == NULL) {
+        return -1;
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
-    b->top = b->buf;
+    b->top = top;
+    b->buf = top;
     b->max = b->len + rlen;
 
     return 0;
@@ -79,7 +87,7 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
         b->len = 0;
@@ -91,7 +99,9 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        if (zt_buf_expand(b, len) < 0) {
+            return -1;
+        }
     }
 
     memcpy((void *)((char *)b->buf + b->len), data, len);
@@ -102,7 +112,10 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
-    zt_buf_add(a, b->buf, b->len);
+    if (zt_buf_add(a, b->buf, b->len) < 0) {
+        return -1;
+    }
+
     zt_buf_drain(b, b->len);
     return 0;
 }
@@ -122,7 +135,7 @@ zt_buf_remove(zt_buf_t * b, void * out, size_t olen) {
 int
 zt_buf_reserve(zt_buf_t * b, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        return zt_buf_expand(b, len);
     }
 
     return 0;
@@ -148,7 +161,9 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     size_t tlen;
 
     tlen = zt_buf_iov_len(vec, n_vec);
-    zt_buf_reserve(b, tlen);
+    if (zt_buf_reserve(b, tlen) < 0) {
+        return -1;
+    }
 
     for (i = 0; i < n_vec; i++) {
         zt_buf_add(b, vec[i].iov_data, vec[i].iov_len);
-- 
2.43.0


From 7d2c7a85a8acbf79ff7adba1fc8356420c391727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 020/101] fix: zt_ptr_array_del reports success and looks at
 the element moved into the gap

---
 src/libzt/zt_ptr_array.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..e34e45f 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -95,23 +95,27 @@ zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_
 int
 zt_ptr_array_del(zt_ptr_array * array, void * data) {
     int32_t i;
+    int     res = -1;
 
     if (array == NULL || data == NULL) {
         return -1;
     }
 
-    for (i = 0; i < array->count; i++) {
+    for (i = 0; i < array->count;) {
         if (array->array[i] == data) {
             zt_ptr_array_move_idx_to_idx(array, array->count - 1, i);
             array->count--;
+            res = 0;
 
             if (array->free_cb) {
                 array->free_cb(data);
             }
+        } else {
+            i++;
         }
     }
 
-    return -1;
+    return res;
 }
 
 int
-- 
2.43.0


From b83f989d422a0ac1a35f1ae0b772c2ac79d8f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 021/101] fix: zt_ptr_array: indexes outside the array are
 refused

---
 src/libzt/zt_ptr_array.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index e34e45f..ff44583 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
@@ -186,11 +186,11 @@ zt_ptr_array_free(zt_ptr_array * array, int free_members) {
 void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
-        /* return the last element */
-        return array->array[array->count - 1];
+        /* the last element */
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From 23da7306baed1564cfe42e75570b066e00669cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 022/101] fix: zt_ptr_array_cat of an array to itself no longer
 runs until memory is gone

---
 src/libzt/zt_ptr_array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index ff44583..371b0a6 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -121,12 +121,16 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
 int
 zt_ptr_array_cat(zt_ptr_array * dst, zt_ptr_array * src) {
     int32_t i;
+    int32_t count;
 
     if (dst == NULL || src == NULL) {
         return -1;
     }
 
-    for (i = 0; i < src->count; i++) {
+    /* src may be dst itself */
+    count = src->count;
+
+    for (i = 0; i < count; i++) {
         if (zt_ptr_array_add(dst, zt_ptr_array_get_idx(src, i))) {
             return -1;
         }
-- 
2.43.0


From c8553b62ee3219665efbf99f58ab05c8e11aa794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 023/101] fix: zt_array_resize of an emptied array no longer
 leaks its data

---
 src/libzt/zt_array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..5acb92b 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -82,6 +82,8 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(len > 0);
 
     if (array->length == 0) {
+        /* zt_array_set_length may have left an allocation behind */
+        zt_free(array->data);
         array->data = zt_calloc(char, len * array->size);
     } else if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
-- 
2.43.0


From 91d547a02817ee01981b46063aca5cc37b3046d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 024/101] fix: zt_bstream_truncate also returns to the start,
 so the next write allocates room

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..53fe199 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -50,6 +50,7 @@ size_t
 zt_bstream_truncate(zt_bstream_t bs)
 {
     zt_assert(bs);
+    bs->offt = 0;
     return zt_array_set_length(bs->data, 0);
 }
 
-- 
2.43.0


From 6817fe41df6b1b9ead98cf7274dc492569e2e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 025/101] fix: zt_bstream_clone keeps the byte order of the
 original

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index 53fe199..0bc86df 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -106,6 +106,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


From fccdff3df43e28f29d53e0351fcdae58cc324fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 026/101] fix: zt_array_set_data no longer leaks the data it
 replaces

---
 src/libzt/zt_array.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 5acb92b..385aab4 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -46,8 +46,12 @@ void
 zt_array_set_data(zt_array_t array, char *data,
                   size_t len, size_t size, int copy)
 {
+    char * old;
+
     zt_assert(array);
 
+    old = array->data;
+
     if (copy) {
         arrayrep_init(array, len, size,
                       zt_calloc(char, len * size));
@@ -55,6 +59,10 @@ zt_array_set_data(zt_array_t array, char *data,
     } else {
         arrayrep_init(array, len, size, data);
     }
+
+    if (old != array->data) {
+        zt_free(old);
+    }
 }
 
 zt_array_t
-- 
2.43.0


From db4be96a6f4bc67da6843288f7711b44f57e1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 027/101] fix: a configuration variable can no longer refer to
 itself, which made zt_cfg_get loop forever

---
 src/libzt/zt_cfg/cfg_private.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index adb2e97..529756b 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -167,6 +167,16 @@ get_type(char* value, void* nvalue)
     return zt_cfg_string;
 }
 
+/* does following the references from v end at value */
+static int
+refers_to(struct zt_cfg_value_ty * v, struct zt_cfg_value_ty * value)
+{
+    while (v != value && v->type == zt_cfg_ref) {
+        v = v->v.r;
+    }
+    return v == value;
+}
+
 int
 cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
 {
@@ -193,7 +203,7 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
             strncpy(block, value->v.s, (variable - value->v.s));
             variable++;    /* move past the '.' */
             if ((b = get_block(cfg->head, block))) {
-                if ((v = get_variable(b->head, variable))) {
+                if ((v = get_variable(b->head, variable)) && !refers_to(v, value)) {
                     free(value->v.s);    /* we had to be a string to get here */
                     value->v.r = v;
                     value->type = zt_cfg_ref;
-- 
2.43.0


From 8402cc49001c40c90ac65b32e50b9b8cd5ce9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 028/101] fix: an overlong block name makes zt_cfg_ini fail
 instead of crash

---
 src/libzt/zt_cfg/cfg_ini.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 469a95a..adde385 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -189,7 +189,10 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     bvv.block = NULL;
                 }
-                parse_block(file, &bvv);
+                if (parse_block(file, &bvv) < 0) {
+                    zt_log_printf(zt_log_err, "Invalid block name in config file at line: %d\n", line);
+                    return -1;
+                }
                 cfg_discard_line(file);
                 break;
             case ';':
-- 
2.43.0


From cf5fa3ad3bc36850ebdef6e607630d576b63885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 029/101] fix: quoted configuration values may contain ; and #,
 and only a matching quote is taken off

---
 src/libzt/zt_cfg/cfg_ini.c     |  7 ++++++-
 src/libzt/zt_cfg/cfg_private.c | 10 ++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index adde385..ed5b9a2 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -140,7 +140,12 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
     val = val + end;    /* Now val points to the beginning of value - any leading white space */
     vallen = strlen(val);
 
-    for (i = 0; i < vallen; i++) {
+    i = 0;
+    if ((val[0] == '\'' || val[0] == '\"') && (tok = strchr(val + 1, val[0])) != NULL) {
+        i = tok - val;    /* no comment starts inside a quoted value */
+    }
+
+    for (; i < vallen; i++) {
         if ((val[i] == ';') || (val[i] == '#')) {
             val[i] = '\0';
             break;
diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 529756b..11ccc75 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -155,14 +155,12 @@ get_type(char* value, void* nvalue)
     if (value[0] == '\'' || value[0] == '\"') {
         size_t    len = strlen(&value[1]);
 
-        if (value[len] != '\'' || value[len] != '\"') {
-            /* error  */
+        if (len > 0 && value[len] == value[0]) {
+            value[len] = '\0';
+            value++;
         }
-        value[len] = '\0';
-        *(char **)nvalue = strdup(&value[1]);
-    } else {
-        *(char **)nvalue = strdup(value);
     }
+    *(char **)nvalue = strdup(value);
 
     return zt_cfg_string;
 }
-- 
2.43.0


From a56046bdfcbbe2c4ec59c228f4347cbfaf8171d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 030/101] fix: a one character value at the very end of a
 configuration file is no syntax error

---
 src/libzt/zt_cfg/cfg_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index ed5b9a2..e7c774d 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -129,6 +129,7 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
             /* errno = EPROTO; */    /* Nope no EOF so some sort of protocol error */
             return 0;
         }
+        len++;    /* the last character belongs to the line */
     }
 
     val++;    /* val points to the beginning of value + any white space*/
-- 
2.43.0


From 337e42712a09519ecf1b21c9306cffc9805488ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 031/101] fix: an option with only a short name can take a
 value without crashing

---
 src/libzt/zt_opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..5c9a80d 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -110,7 +110,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
         /* there was no '=' embedded
          * try matching the long opt name
          */
-        if (strcmp(lopt, pp) == 0) {
+        if (lopt != ZT_OPT_NLO && strcmp(lopt, pp) == 0) {
             result = argv[argn + 1]; /* default to the next option */
             *args_consumed = 1;
         } else {
-- 
2.43.0


From d7caebc7df6ee7cfaa3bbc0b4126b92e87eadf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 032/101] fix: a missing option value is only reported, not
 used

---
 src/libzt/zt_opts.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 5c9a80d..0baa89e 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -126,6 +126,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
     }
 
     if (!result) {
+        *args_consumed = 0;
         error(EINVAL, "while processing arg '%s'", argv[argn]);
     }
 
@@ -145,6 +146,10 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -174,6 +179,10 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -201,6 +210,10 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
-- 
2.43.0


From 55f9eb02286c9c1e9490cd26bd7a0af3c97c76ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 033/101] fix: an attached short option value is not taken for
 further short options, nor the other way round

---
 src/libzt/zt_opts.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 0baa89e..42043f6 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,6 +85,9 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+/* the short option being processed within its argument, until its value is taken from there */
+static char * short_opt = NULL;
+
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
     char * p      = argv[argn];
@@ -97,13 +100,22 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
     /* skip past any leading '-' */
     while(*p == '-') { p++; }
 
-    pp = p;
-    do {
-        if (*pp == '=') {
-            result = ++pp;
-            break;
+    if (short_opt) {
+        /* one of possibly several short options, a '=' may be part of its value */
+        p = short_opt;
+        if (p[1] == '=') {
+            result = &p[2];
+            short_opt = NULL;
         }
-    } while (*pp++);
+    } else {
+        pp = p;
+        do {
+            if (*pp == '=') {
+                result = ++pp;
+                break;
+            }
+        } while (*pp++);
+    }
 
     if (!result) {
         pp = p;
@@ -118,6 +130,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
             pp++;
             if(*pp) {
                 result = pp;
+                short_opt = NULL;
             } else {
                 result = argv[argn + 1];
                 *args_consumed = 1;
@@ -504,10 +517,17 @@ AGAIN:
                     /* long opt */
                     (args[x].lopt != ZT_OPT_NLO && strlen(args[x].lopt) == len &&
                      strncmp(p, args[x].lopt, len) == 0)) {
-                    int consumed = 0;
+                    int    consumed = 0;
+                    char * outer    = short_opt;
+                    int    attached = 0;
 
                     found = 1;
-                    if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
+                    short_opt = long_opt ? NULL : p;
+                    consumed = args[x].cb(i, x, argc, argv, args, error);
+                    attached = !long_opt && short_opt == NULL;
+                    short_opt = outer;
+
+                    if (consumed < 0) {
                         /* error */
                         return consumed;
                     }
@@ -516,9 +536,9 @@ AGAIN:
                         i += consumed;
                     }
 
-                    if(!consumed && !long_opt && *(++p)) {
+                    if(!consumed && !long_opt && !attached && *(++p)) {
                         /* if we did not consume extra args AND
-                         * we are a short option AND
+                         * we are a short option without an attached value AND
                          * there are more short options to consume
                          */
                         goto AGAIN;
-- 
2.43.0


From f4c08c62625eaf4a85906ed91865a7e85a802eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 034/101] fix: an unknown option among grouped short options is
 reported

---
 src/libzt/zt_opts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 42043f6..36f392d 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -541,6 +541,7 @@ AGAIN:
                          * we are a short option without an attached value AND
                          * there are more short options to consume
                          */
+                        found = (*p == '=');
                         goto AGAIN;
                     }
 
-- 
2.43.0


From 809d1cb6463d9231e61ceebb2023d728d6ced1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 035/101] fix: option help text with a word longer than the
 column no longer reads outside the text

---
 src/libzt/zt_opts.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 36f392d..5270b11 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -372,9 +372,14 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
                     width = sublen;
                 } else {
                     // try to break between words
-                    while(def->help[offt+width] != ' ') {
+                    while(width > 0 && def->help[offt+width] != ' ') {
                         width--;
                     }
+
+                    if (width == 0) {
+                        /* the word is too long for that */
+                        width = BASE_WIDTH;
+                    }
                 }
 
                 printf(BLANK "%.*s" NL, INDENT_TO(BASE_INDENT, 5, depth), (int)width, &def->help[offt]);
-- 
2.43.0


From 74b78dc46020267d44e64ebfbdaed448409e79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 036/101] fix: zt_opts: an empty value is not a number

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 5270b11..4ee1780 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -171,7 +171,7 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
         error(errno, "invalid number '%s'", arg);
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
     }
@@ -204,7 +204,7 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
         error(errno, "invalid number '%s'", arg);
     }
 
-    if (end && *end) {
+    if (end == arg || *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
     }
-- 
2.43.0


From e5d275d6b86f1671132666f50d98ee7fce705593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 037/101] fix: zt_threadpool_kill: no lost wakeup, and the
 output threads outlive the input threads

---
 src/libzt/zt_threads.c | 25 +++++++++++++++++--------
 src/libzt/zt_threads.h |  1 +
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d42f58e..238f01f 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -280,7 +280,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (TAILQ_EMPTY(&tpool->oput_queue)) {
-            if (tpool->kill) {
+            if (tpool->kill_oput) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -294,7 +294,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (entry == NULL) {
-            if (tpool->kill == 1) {
+            if (tpool->kill_oput) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -517,18 +517,27 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     int k   = 1;
     int ret = 0;
 
+    /* signal all threads, and let them die; a thread may be about to wait,
+     * so this must not happen between its test and its wait */
+    zt_threads_lock(0, tpool->iput_mutex);
     tpool->kill = 1;
-
-    /* signal all threads, and let them die */
     zt_threads_cond_signal(tpool->iput_cond, 1);
-    zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->iput_mutex);
 
-    for (i = 0; i < tpool->min_threads; i++) {
-        if (_zt_threadpool_cbs.iput_loop) {
+    if (_zt_threadpool_cbs.iput_loop) {
+        for (i = 0; i < tpool->min_threads; i++) {
             zt_threads_join(tpool->iput_threads[i], NULL);
         }
+    }
 
-        if (_zt_threadpool_cbs.oput_loop) {
+    /* the output is complete only now */
+    zt_threads_lock(0, tpool->oput_mutex);
+    tpool->kill_oput = 1;
+    zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->oput_mutex);
+
+    if (_zt_threadpool_cbs.oput_loop) {
+        for (i = 0; i < tpool->min_threads; i++) {
             zt_threads_join(tpool->oput_threads[i], NULL);
         }
     }
diff --git a/src/libzt/zt_threads.h b/src/libzt/zt_threads.h
index 91b9133..9e755a3 100644
--- a/src/libzt/zt_threads.h
+++ b/src/libzt/zt_threads.h
@@ -91,6 +91,7 @@ struct zt_threadpool {
     int thread_count;
 
     int kill;
+    int kill_oput;
 
     TAILQ_HEAD(, zt_threadpool_entry) iput_queue;
     TAILQ_HEAD(, zt_threadpool_entry) oput_queue;
-- 
2.43.0


From fc2826e163ceba50c5cddb4b24802efa58f70dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 038/101] fix: zt_threadpool_set_callbacks: NULL restores the
 default finalizer, too

---
 src/libzt/zt_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 238f01f..a5d382f 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -229,6 +229,7 @@ zt_threadpool_set_callbacks(struct zt_threadpool_callbacks *cbs) {
         _zt_threadpool_cbs.init        = NULL;
         _zt_threadpool_cbs.iput_worker = NULL;
         _zt_threadpool_cbs.oput_worker = NULL;
+        _zt_threadpool_cbs.finalize    = NULL;
 
         return 0;
     }
-- 
2.43.0


From 4c2c314f056ad21f2621312d938353bc3630f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 039/101] fix: zt_threadpool_init: close the input pipe when
 the output pipe cannot be made

---
 src/libzt/zt_threads.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index a5d382f..9c50e58 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -581,8 +581,8 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     if (pipe_oput) {
         if (pipe(tpool->oput_fd_sigs) < 0) {
             if (pipe_iput) {
-                close(tpool->oput_fd_sigs[0]);
-                close(tpool->oput_fd_sigs[1]);
+                close(tpool->iput_fd_sigs[0]);
+                close(tpool->iput_fd_sigs[1]);
             }
 
             free(tpool);
-- 
2.43.0


From 8f3df733b6264ad381e1b97c9b75a89d3d49c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 040/101] fix: zt_log_lstrerror: use the text GNU strerror_r
 returns

---
 src/libzt/zt_log.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index b17559b..1dcd975 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -286,9 +286,20 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
     nfmt[llen]     = ':';
     nfmt[llen + 1] = ' ';
 
+#if defined(__GLIBC__) && defined(_GNU_SOURCE)
+    {
+        /* this strerror_r returns the text, which is not necessarily in the buffer */
+        char * text = strerror_r(errnum, nfmt + (llen + 2), 255 - 2);
+
+        if (text != nfmt + (llen + 2)) {
+            snprintf(nfmt + (llen + 2), 255 - 2, "%s", text);
+        }
+    }
+#else
     if (strerror_r(errnum, nfmt + (llen + 2), 255 - 2) != 0) {
       zt_log_lprintf(log, zt_log_crit, "Could not capture error string");
     }
+#endif
 
     va_start(ap, fmt);
     zt_log_lvprintf(log, level, nfmt, ap);
-- 
2.43.0


From 715ddc54105c83a8fe6a8bf2d7440ad1daaecbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 041/101] fix: zt_log: the default logger is not closed again
 at exit when it has been closed

---
 src/libzt/zt_log.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 1dcd975..18deb5b 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -29,11 +29,14 @@
 #include "zt_log/log_private.h"
 #include "zt_atexit.h"
 
+/* the logger created for want of a default, unless it has been closed */
+static zt_log_ty * forced = NULL;
+
 static void
 log_atexit(void * data) {
     zt_log_ty * logp = data;
 
-    if (logp) {
+    if (logp && logp == forced) {
         zt_log_close(logp);
     }
 }
@@ -64,7 +67,6 @@ struct zt_log_ctx_s {
 
 
 static zt_log_ty * log_default_ptr = NULL;
-static int         forced          = 0;
 
 static zt_log_ctx_ty *
 zt_log_get_ctx(void) {
@@ -101,7 +103,7 @@ zt_log_get_logger(void) {
                 fprintf(stderr, "Could not allocate stderr for logging\n");
                 exit(1);
             }
-            forced = 1;
+            forced = log_default_ptr;
             zt_atexit(log_atexit, log_default_ptr);
         }
 #ifdef HAVE_PTHREADS
@@ -318,6 +320,10 @@ zt_log_close(zt_log_ty * log) {
         zt_log_set_logger(NULL);
     }
 
+    if (log == forced) {
+        forced = NULL;
+    }
+
     if (log->vtbl->destructor) {
         log->vtbl->destructor(log);
     }
-- 
2.43.0


From 45749770edc1e932816f5d39d5af3b92e130cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 042/101] fix: zt_log_file: give the logger back when the file
 cannot be opened

---
 src/libzt/zt_log/log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index 1882afd..bc35985 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -86,6 +86,7 @@ zt_log_file(char * file, int fopts, int lopts) {
     }
     if (!this->file) {
         fprintf(stderr, "Could not open file %s: %s\n", file, strerror(errno));
+        zt_free(this);
         return NULL;
     }
 
-- 
2.43.0


From 59d3001750950458594c40d343a8596598fbf4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 043/101] fix: zt_log: program, host and file names are not
 formats

---
 src/libzt/zt_log/log_private.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 7a56223..493307b 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -62,6 +62,19 @@ zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     return result;
 }
 
+/* append text that is not part of a format to one */
+static void
+cat_text(char * buff, const char * text) {
+    buff += strlen(buff);
+    while (*text) {
+        if (*text == '%') {
+            *buff++ = '%';
+        }
+        *buff++ = *text++;
+    }
+    *buff = '\0';
+}
+
 char*
 zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, const char * function, zt_log_level level, unsigned int opts) {
     size_t len  = 0;
@@ -91,18 +104,18 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         if (t) {
             *t = '\0';
         }
-        len += strlen(sbuf) + 1;    /* sbuf + space */
+        len += strlen(sbuf) * 2 + 1;    /* sbuf + space */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, sbuf);
+        cat_text(buff, sbuf);
         if ((opts > ZT_LOG_WITH_SYSNAME)) {
             strcat(buff, " ");
         }
     }
 
     if (opts & ZT_LOG_WITH_PROGNAME) {
-        len += strlen(zt_progname(NULL, 0)); /* progname */
+        len += strlen(zt_progname(NULL, 0)) * 2; /* progname */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, zt_progname(NULL, 0));
+        cat_text(buff, zt_progname(NULL, 0));
     }
 
     if (opts & ZT_LOG_WITH_PID) {
@@ -138,9 +151,9 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         nlen += 10;    /* length of a int to str */
         nbuff = zt_calloc(char, nlen); /* mem_calloc(nlen, sizeof(char)); */
         sprintf(nbuff, ": in %s at (%s:%d)", function, file, line);
-        len  += nlen;
+        len  += nlen * 2;
         buff  = zt_realloc(char, buff, len);
-        strcat(buff, nbuff);
+        cat_text(buff, nbuff);
         zt_free(nbuff);
     }
     strcat(buff, "\n");
-- 
2.43.0


From eab921500f8ff587805ab4f946e6b1302cc6f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 044/101] fix: ipv4: searching a table with all 32 prefix
 lengths read past the list of them

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..5f2db50 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -265,7 +265,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         uint32_t addr_masked;
         uint32_t key;
 
-        bit_iter = tbl->in[i++];
+        bit_iter = (i < 32) ? tbl->in[i++] : 0;
 
         if (!bit_iter) {
             break;
-- 
2.43.0


From cb48dd45cfe975472d97271a653bd3be7b9b4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 045/101] fix: ipv4: text that is no address or prefix length
 was accepted, or read out of bounds

---
 src/libzt/zt_ipv4_tbl.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 5f2db50..37de577 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -351,7 +351,13 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     }
 
     if ((cp = strchr(str_cp, '/')) != NULL) {
-        bitlen = atoi(cp + 1);
+        if (cp[1] == 0 || cp[1 + strspn(cp + 1, "0123456789")] != 0) {
+            free(save);
+            free(str_cp);
+            return -1;
+        }
+
+        bitlen = (strlen(cp + 1) > 9) ? 32 : atoi(cp + 1);
 
         if ((cp - str_cp) > MAXLINE - 1) {
             free(save);
@@ -362,13 +368,26 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
         memcpy(save, str, cp - str_cp);
     } else {
         bitlen = 32;
-        memcpy(save, str, MAXLINE);
+
+        if (strlen(str) > MAXLINE - 1) {
+            free(save);
+            free(str_cp);
+            return -1;
+        }
+
+        strcpy(save, str);
     }
 
     if (bitlen > 32) {
         bitlen = 32;
     }
 
+    if (inet_addr(save) == INADDR_NONE && strcmp(save, "255.255.255.255") != 0) {
+        free(save);
+        free(str_cp);
+        return -1;
+    }
+
     *outaddr = ntohl(inet_addr(save));
     *outbitlen = bitlen;
 
-- 
2.43.0


From 823ee57ee57086434db7ab99c64784141de52f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 046/101] fix: ipv4: tables shared the pools of whichever table
 was found first, and lookups kept their address

---
 src/libzt/zt_ipv4_tbl.c | 66 +++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 37de577..a04ae8d 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -62,11 +62,27 @@ zt_ipv4_tbl_init(uint32_t size)
 }
 
 
-zt_ipv4_addr   *
-zt_ipv4_addr_frm_str(const char *netstr)
+/* a table's elements come from its own pools; without a table from any pool of that name */
+static void *
+ipv4_alloc(zt_ipv4_tbl * tbl, char *name, size_t size)
+{
+    zt_mem_pool *pool = NULL;
+
+    if (tbl) {
+        return zt_mem_pool_group_alloc(tbl->pools, size);
+    }
+
+    if (!(pool = zt_mem_pool_get(name))) {
+        return NULL;
+    }
+
+    return zt_mem_pool_alloc(pool);
+}
+
+static zt_ipv4_addr   *
+ipv4_addr_init(zt_ipv4_tbl * tbl, const char *netstr)
 {
     zt_ipv4_addr *addr = NULL;
-    zt_mem_pool  *pool = NULL;
     int           bitlen = 32;
     uint32_t      ipaddr;
 
@@ -74,15 +90,11 @@ zt_ipv4_addr_frm_str(const char *netstr)
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_addr"))) {
-        return NULL;
-    }
-
     if (zt_ipv4_str2net(netstr, &ipaddr, &bitlen)) {
         return NULL;
     }
 
-    if (!(addr = zt_mem_pool_alloc(pool))) {
+    if (!(addr = ipv4_alloc(tbl, "zt_ipv4_addr", sizeof(zt_ipv4_addr)))) {
         return NULL;
     }
 
@@ -95,26 +107,28 @@ zt_ipv4_addr_frm_str(const char *netstr)
     return addr;
 }
 
-zt_ipv4_node   *
-zt_ipv4_node_str_init(const char *netstr)
+zt_ipv4_addr   *
+zt_ipv4_addr_frm_str(const char *netstr)
+{
+    return ipv4_addr_init(NULL, netstr);
+}
+
+static zt_ipv4_node   *
+ipv4_node_init(zt_ipv4_tbl * tbl, const char *netstr)
 {
     zt_ipv4_node *node;
     zt_ipv4_addr *addr;
-    zt_mem_pool  *pool;
 
     if (!netstr) {
         return NULL;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node"))) {
-        return NULL;
-    }
-
-    if (!(node = zt_mem_pool_alloc(pool))) {
+    if (!(node = ipv4_alloc(tbl, "zt_ipv4_node", sizeof(zt_ipv4_node)))) {
         return NULL;
     }
 
-    if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+    if (!(addr = ipv4_addr_init(tbl, netstr))) {
+        zt_mem_pool_release((void **)&node);
         return NULL;
     }
 
@@ -124,11 +138,16 @@ zt_ipv4_node_str_init(const char *netstr)
     return node;
 }
 
+zt_ipv4_node   *
+zt_ipv4_node_str_init(const char *netstr)
+{
+    return ipv4_node_init(NULL, netstr);
+}
+
 int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -146,17 +165,13 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        if (!(hash_entry = ipv4_alloc(tbl, "zt_ipv4_node_hash", sizeof(zt_ipv4_node *) * tbl->sz))) {
             return -1;
         }
 
@@ -224,7 +239,7 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
         return tbl->any;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (!(ipv4_node = ipv4_node_init(tbl, netstr))) {
         return NULL;
     }
 
@@ -298,12 +313,13 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
         return NULL;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (!(ipv4_node = ipv4_node_init(tbl, netstr))) {
         return NULL;
     }
 
     matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
 
+    zt_mem_pool_release((void **)&ipv4_node->addr);
     zt_mem_pool_release((void **)&ipv4_node);
 
     return matched;
-- 
2.43.0


From dcadbf443cbf5cd912a94b8c19109b8f0ea81232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 047/101] fix: ipv4: destroying a table kept all of its memory

---
 src/libzt/zt_ipv4_tbl.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index a04ae8d..e4c85c7 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -14,13 +14,41 @@ static uint32_t netmask_tbl[] = {
     0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF
 };
 
+static void
+ipv4_nodes_release(zt_ipv4_node * node)
+{
+    while (node) {
+        zt_ipv4_node *next = node->next;
+
+        zt_mem_pool_release((void **)&node->addr);
+        zt_mem_pool_release((void **)&node);
+        node = next;
+    }
+}
+
 void
 zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
 {
+    uint32_t key;
+    int      i;
+
     if (!tbl) {
         return;
     }
 
+    /* a pool is only destroyed once all of its elements have been released */
+    ipv4_nodes_release(tbl->any);
+
+    for (i = 0; i < 32; i++) {
+        if (tbl->tbl[i]) {
+            for (key = 0; key < tbl->sz; key++) {
+                ipv4_nodes_release(tbl->tbl[i][key]);
+            }
+
+            zt_mem_pool_release((void **)&tbl->tbl[i]);
+        }
+    }
+
     if (tbl->pools) {
         zt_mem_pool_group_destroy(tbl->pools);
     }
@@ -161,6 +189,7 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         /*
          * this is a 0.0.0.0/0 network, set the any to this node
          */
+        node->next = tbl->any;
         tbl->any = node;
         return 0;
     }
-- 
2.43.0


From b2fa9b6835a84b092b67506cf6cbbb5df6ab79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 048/101] fix: base: an odd hexadecimal digit at the end was
 dropped silently

---
 src/libzt/zt_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 14f3e08..70f2b1b 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -528,6 +528,10 @@ _decode16(zt_base_definition_t * def, const unsigned char * in, const size_t byt
         }
     }
 
+    if (cnt > 0) {
+        result = -1;
+    }
+
     *out_bytes = obytes;
     return result;
 }
-- 
2.43.0


From 14f5e5f4c02d77613d02275218ecc9b1ecc6e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 049/101] fix: base: decoding without an output buffer but with
 a length wrote to NULL

---
 src/libzt/zt_base.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_base.c b/src/libzt/zt_base.c
index 70f2b1b..f9c90ab 100644
--- a/src/libzt/zt_base.c
+++ b/src/libzt/zt_base.c
@@ -664,6 +664,14 @@ zt_base_decode(zt_base_definition_t * def, const void * in, size_t in_bytes, voi
 
     outp = *((unsigned char **)out);
 
+    /* if there is no output then return just the size, as encoding does */
+    if (outp == NULL && *out_bytes != 0) {
+        int ret = (*out_bytes < ocount) ? -2 : 0;
+
+        *out_bytes = ocount;
+        return ret;
+    }
+
     if ((outp == NULL && *out_bytes == 0)) {
         /* dynamically allocate the buffer */
         if (!(outp = zt_calloc(unsigned char, ocount+1))) {
-- 
2.43.0


From 3c89a25c06c237ce1521bf0b8885165d72bcd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 050/101] fix: sha1: hashing overwrote the caller's data

---
 src/libzt/zt_sha1.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..87c40dc 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -56,11 +56,14 @@ _sha1_transform(uint32_t state[5], uint8_t buffer[64])
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
+    CHAR64LONG16   workspace;
     CHAR64LONG16 * block;
 
     /* uint32_t      block[80]; */
 
-    block = (CHAR64LONG16 *)buffer;
+    /* the rounds work in place: leave the callers data as it is */
+    memcpy(workspace.c, buffer, sizeof(workspace.c));
+    block = &workspace;
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From f678df2d8c39c785db4fed583a5926d0ab01817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 051/101] fix: sha1: the text of a digest was not terminated

---
 src/libzt/zt_sha1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 87c40dc..da40bfe 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -181,7 +181,8 @@ zt_sha1_data(void *data, size_t len, uint8_t digest[20])
 char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
-    zt_binary_to_hex(digest, 20, sha1, 41);
+    zt_binary_to_hex(digest, 20, sha1, 40);
+    sha1[40] = '\0';
     return sha1;
 }
 
-- 
2.43.0


From 5dafbdc35ba270fa773a6923762ddd6f3750359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 052/101] fix: uuid: text that is no uuid was accepted and gave
 an arbitrary one

---
 src/libzt/zt_uuid.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..ac46d85 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -337,6 +337,9 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
     zt_assert(uuidstr);
     zt_assert(uuid);
 
+    if (zt_uuid_isvalid(uuidstr, flags) != 0) {
+        return -1;
+    }
 
     if (flags == zt_uuid_std_fmt) {
         if (strlen(uuidstr) != UUID_STR_LEN) {
@@ -525,7 +528,11 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
             return -1; /* invalid character */
         }
 
-        v += n * (uint64_t)(powl(62, tlen - i - 1));
+        if (v > (UINT64_MAX - n) / 62) {
+            return -1; /* more than 64 bits */
+        }
+
+        v = v * 62 + n;
     }
 
     *out = v;
-- 
2.43.0


From de93fcc26ca07def69e79b5f20e575440a5fc72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 053/101] fix: uuid: a buffer larger than needed for a base 62
 text failed an assertion

---
 src/libzt/zt_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index ac46d85..094d09f 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -190,7 +190,7 @@ _zt_uuid_fillstr(zt_uuid_t* uuid, char* uuids, size_t uuids_size, zt_uuid_flags_
         int      ok2 = 0;
 
         /* extract the 2 64 bit numbers in the uuid */
-        zt_assert(uuids_size <= UUID_BASE62_STR_LEN + 1);
+        zt_assert(uuids_size >= UUID_BASE62_STR_LEN + 1);
 
         for (i = 0; i < 8; i++) {
             const int shift = (7 - i) * 8;
-- 
2.43.0


From 570ac14d268867dd96e3ae3018c56072f1fcb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 054/101] fix: uuid: threads, forked children and processes of
 the same second generated the same uuids

---
 src/libzt/zt_uuid.c | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 094d09f..46e8d36 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -32,9 +32,20 @@ static int base62_decode_int64(const char * in, size_t ilen, uint64_t * out);
 static pthread_key_t   ctx_key;
 static pthread_once_t  ctx_key_once = PTHREAD_ONCE_INIT;
 
+/* a forked child must not go on with its parents numbers */
+static void
+reset_ctx(void) {
+    zt_random_state * state = pthread_getspecific(ctx_key);
+
+    if (state) {
+        state->initialized = 0;
+    }
+}
+
 static void
 make_ctx_key(void) {
     (void)pthread_key_create(&ctx_key, free);
+    (void)pthread_atfork(NULL, NULL, reset_ctx);
 }
 #  define CTX_STATIC
 #else /* HAVE_PTHREADS */
@@ -62,19 +73,38 @@ zt_uuid4_get_ctx(void) {
     return state;
 }
 
+/* every context (one per thread) needs a seed of its own, different from that of any other process */
+static void
+uuid4_seed(zt_random_state * state) {
+    uint32_t  seed[12] = { 0 };
+    FILE    * f;
+
+    seed[0] = (uint32_t)time(NULL);
+    seed[1] = (uint32_t)clock();
+    seed[2] = (uint32_t)(uintptr_t)state;
+    seed[3] = (uint32_t)((uint64_t)(uintptr_t)state >> 32);
+
+    if ((f = fopen("/dev/urandom", "rb")) != NULL) {
+        if (fread(&seed[4], sizeof(seed[0]), 8, f) != 8) {
+            seed[4] = (uint32_t)clock();
+        }
+        fclose(f);
+    }
+
+    zt_random_initstate(state, seed, sizeof_array(seed));
+}
+
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
-    static zt_random_state  * state;
-    static int                rand_initialized  = 0;
+    zt_random_state         * state;
 
     zt_assert(uuid);
 
     state = zt_uuid4_get_ctx();
 
-    if (rand_initialized == 0) {
-        zt_random_srandom(state, (uint32_t)time(NULL));
-        rand_initialized = 1;
+    if (!state->initialized) {
+        uuid4_seed(state);
     }
 
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes, &v, 4);
-- 
2.43.0


From 8a38a69e5247ca4c0853c30f489dc5b539ae4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 055/101] fix: slices of an empty string held its terminator

---
 src/libzt/zt_cstr.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..818ad37 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -48,22 +48,19 @@
             }                             \
             zt_assert(i >= 0 && j < (ssize_t)len); \
         } else {                          \
+            /* nothing to refer to */     \
             i = 0;                        \
-            j = 0;                        \
+            j = -1;                       \
         }                                 \
 } while (0)
 
 /* #define IDXLEN(i, j) ((i) < (j) ? ((j) - (i)) + 1 : ((i) - (j)) + 1) */
 static INLINE size_t
 IDXLEN(ssize_t i, ssize_t j) {
-    ssize_t   r;
+    /* i <= j but for the empty slice [0:-1] (see CONVERT) */
+    ssize_t   r = (j - i) + 1;
 
-    if (i < j) {
-        r = (j - i) + 1;
-    } else {
-        r = (i - j) + 1;
-    }
-    zt_assert(r > 0);
+    zt_assert(r >= 0);
     return (size_t)r;
 }
 
@@ -489,7 +486,7 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
+    zt_assert(i >= 0);
 
     for (; i <= j; i++) {
         if (s[i] != '\0' && strchr(set, s[i])) {
@@ -513,7 +510,7 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
 
-    zt_assert(i >= 0 && i <= j);
+    zt_assert(i >= 0);
 
     for (orig = i; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-- 
2.43.0


From a889c371ba2e42b6a0c803f8e2a2ae19db9117e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 056/101] fix: zt_cstr_cmp ignored the last character of slices
 of one length

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 818ad37..cb4edb3 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -334,7 +334,7 @@ zt_cstr_cmp(const char *s1, ssize_t i1, ssize_t j1,
         return cond == 0 ? +1 : cond;
     }
 
-    return strncmp(s1, s2, j1 - i1);
+    return strncmp(s1, s2, IDXLEN(i1, j1));
 }
 
 /*!
-- 
2.43.0


From 1837f4c2fb7b61d0e7dc8772fd5882ca0716db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 057/101] fix: zt_cstr_map turned characters above 225 into the
 terminator

---
 src/libzt/zt_cstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index cb4edb3..267aa10 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -262,7 +262,10 @@ zt_cstr_map(const char *s, ssize_t i, ssize_t j,
                                190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
                                200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
                                210, 211, 212, 213, 214, 215, 216, 217, 218, 219,
-                               220, 221, 222, 223, 224, 225 };
+                               220, 221, 222, 223, 224, 225, 226, 227, 228, 229,
+                               230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
+                               240, 241, 242, 243, 244, 245, 246, 247, 248, 249,
+                               250, 251, 252, 253, 254, 255 };
 
     if (from && to) {
         while (*from && *to) {
-- 
2.43.0


From c6bdea76b104fff045a6d816fd25f2c901975f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 058/101] fix: zt_cstr_rspn and zt_cstr_rcspn skipped the first
 character

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 267aa10..934533b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -575,7 +575,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(s);
     zt_assert(accept);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strspn(&s[i], accept) == 0) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
@@ -591,7 +591,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(s);
     zt_assert(reject);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strcspn(&s[i], reject) == 0) {
             return i;                                      /* -1 for the first non matching char */
         }
-- 
2.43.0


From 859f7bca15fdb3138df9206a3270f448c8a117f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 059/101] fix: zt_cstr_strip added a newline past the end of
 text with one inside

---
 src/libzt/zt_cstr.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 934533b..5055321 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -552,17 +552,16 @@ zt_cstr_strip(char *str) {
         memmove(str, &str[len], (strlen(str) - len) + 1); /* +1 captures \0 */
 
         /* strip whitespace from the end of the string */
-        if (strchr(str, '\n') != NULL) {
-            nl = 1;
-        }
         len = zt_cstr_rspn(str, WHITESPACE "\n");
         len = strlen(str) - len;
-        if (len) {
-            if (nl) {
-                str[len++] = '\n';
-            }
-            str[len] = '\0';
+        /* a line stays a line */
+        if (strchr(&str[len], '\n') != NULL) {
+            nl = 1;
+        }
+        if (nl) {
+            str[len++] = '\n';
         }
+        str[len] = '\0';
     }
     return str;
 }
-- 
2.43.0


From 246fda474a36befa66c60c20c926ca8b58971a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 060/101] fix: zt_cstr_chomp read and wrote before an empty
 string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 5055321..d285de2 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -532,7 +532,7 @@ zt_cstr_chomp(char *str) {
         size_t    i = 0;
 
         i = strlen(str);
-        if (str[i - 1] == '\n') {
+        if (i > 0 && str[i - 1] == '\n') {
             str[i - 1] = '\0';
         }
     }
-- 
2.43.0


From 3822981932710821765765776ec8f11f288fff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 061/101] fix: zt_cstr_rany answered relative to the slice

---
 src/libzt/zt_cstr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index d285de2..092b50d 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -506,8 +506,6 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
  */
 ssize_t
 zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
-    ssize_t   orig;
-
     zt_assert(s);
     zt_assert(set);
 
@@ -515,9 +513,9 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     zt_assert(i >= 0);
 
-    for (orig = i; j >= i; j--) {
+    for (; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-            return j - orig;
+            return j;
         }
     }
 
-- 
2.43.0


From f8034b50526f47fb228ce6dad6cdf80ab6d156e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 062/101] fix: zt_cstr_basename of a path ending in a
 separator, suffixes without a dot or not at the end

---
 src/libzt/zt_cstr.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 092b50d..6716ef0 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -596,29 +596,44 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     return len;
 }
 
+/* the position of the last character of path before the seperators at its end, 0 for the root */
+static ssize_t
+path_end(const char *path) {
+    ssize_t   ps_len = strlen(PATH_SEPERATOR);
+    ssize_t   end    = (ssize_t)strlen(path) - 1;
+
+    while (end >= ps_len && strncmp(&path[end + 1 - ps_len], PATH_SEPERATOR, ps_len) == 0) {
+        end = end - ps_len;
+    }
+    return end;
+}
+
 char*
 zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix) {
     ssize_t   start;
     ssize_t   end;
+    size_t    slen;
 
     zt_assert(npath);
     zt_assert(path);
 
     memset(npath, '\0', len);
 
-    if ((start = zt_cstr_rfind(path, 0, -1, PATH_SEPERATOR)) != -1) {
+    /* leave out the seperators at the end */
+    end = path_end(path);
+
+    if ((start = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) != -1 && start < end) {
         start = start + strlen(PATH_SEPERATOR);
     } else {
         start = 0;
     }
 
     if (suffix) {
-        end = zt_cstr_rfind(path, start, -1, suffix);
-        if (end > 0 && path[end] == '.') {
-            end--;
+        slen = strlen(suffix);
+        /* a name that is all suffix stays */
+        if (start + (ssize_t)slen <= end && strncmp(&path[end + 1 - slen], suffix, slen) == 0) {
+            end = end - slen;
         }
-    } else {
-        end = -1;
     }
 
     zt_cstr_copy(path, start, end, npath, len);
-- 
2.43.0


From 11051ae540ec997d6369a92316305bbd26cff7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 063/101] fix: zt_cstr_dirname of the root, of a name in it,
 and of an empty path

---
 src/libzt/zt_cstr.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 6716ef0..70030b4 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -651,20 +651,21 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     memset(npath, '\0', len);
 
-    /* if the end of the path is the PATH_SEPERATOR then skip over it */
     ps_len = strlen(PATH_SEPERATOR);
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
-        end = end - ps_len;
-    }
 
-    if ((end = zt_cstr_rfind(path, 0, end, PATH_SEPERATOR)) == -1) {
+    /* if the end of the path is the PATH_SEPERATOR then skip over it */
+    if (*path == '\0' || (end = zt_cstr_rfind(path, 0, path_end(path), PATH_SEPERATOR)) == -1) {
         /* there is no path seperator */
         zt_cstr_copy(".", 0, -1, npath, len);
         return npath;
-    } else {
-        end = end - 1;
     }
 
+    /* and over those in front of the last name, but for the root */
+    while (end >= ps_len && strncmp(&path[end - ps_len], PATH_SEPERATOR, ps_len) == 0) {
+        end = end - ps_len;
+    }
+    end = end > 0 ? end - 1 : 0;
+
     zt_cstr_copy(path, 0, end, npath, len);
     return npath;
 }
-- 
2.43.0


From 0a2777da29a8942fa414b9981a0fc623565bfa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 064/101] fix: zt_cstr_path_append doubled the separator after
 the root and before nothing

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 70030b4..54482b4 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -684,16 +684,16 @@ zt_cstr_path_append(const char *path1, const char *path2) {
     len2    = strlen(path2);
     sep_len = strlen(PATH_SEPERATOR);
 
-    for (y = len1 - 1; y > 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {
+    for (y = len1 - 1; y >= 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {
         ;
     }
     for (x = 0; x < (ssize_t)len2 && strncmp(&path2[x], PATH_SEPERATOR, sep_len) == 0; x++) {
         ;
     }
 
-    rpath = zt_cstr_catv(path1, 0, y,
+    rpath = zt_cstr_catv(y < 0 ? "" : path1, 0, y,
                          PATH_SEPERATOR, 0, -1,
-                         path2, x, -1, NULL);
+                         &path2[x], 0, -1, NULL);
     return rpath;
 }
 
-- 
2.43.0


From f3a9b1eb7983988284921607bc8dc7342e7acb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 065/101] fix: zt_cstr_tok read before an empty string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 54482b4..65def81 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -992,7 +992,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = strdup(str);
 
-    if (str[strlen(str) - 1] == delim) {
+    if (*str != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From 13b75002070036063da68ef918a9b5cb53f2cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 066/101] fix: zt_hexdump dropped a last row of fifteen bytes

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 65def81..06d09c4 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -801,7 +801,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 873eb26187975e7d634f71a4939cd79bc776ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 067/101] fix: zt_hexdump_str stopped at the byte 255

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 06d09c4..cf77952 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -724,7 +724,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = (unsigned char)*(state->c + state->offt);
     state->offt += 1;
     return c;
 }
-- 
2.43.0


From a228fe51bb5d03a0ab964af527b56d84b19697c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 068/101] fix: zt_binary_to_hex wrote past a buffer of odd size

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index cf77952..da5e2d2 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -821,7 +821,7 @@ zt_binary_to_hex(void *data, size_t dlen, char *hex, size_t hlen) {
     size_t n;
     char * dptr = hex;
 
-    for (n = 0; (n < dlen) && ((n * 2) < hlen); n++, dptr += 2) {
+    for (n = 0; (n < dlen) && ((n * 2) + 1 < hlen); n++, dptr += 2) {
         uint8_t c = ((uint8_t *)data)[n];
         if (hex != NULL) {
             dptr[0] = HEX_DIGITS[((c >> 4) & 0xF)];
-- 
2.43.0


From 30c4741a3722561d80581b19e7ec1e95e261031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 069/101] fix: zt_hex_to_binary read past an odd number of
 digits, and did not tell a bad second digit

---
 src/libzt/zt_cstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index da5e2d2..e894d9b 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -879,7 +879,8 @@ zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {
             return 0;
         }
 
-        if ((c2 = hex_to_char(*hex++)) == -1) {
+        if (n + 1 == hlen || (c2 = hex_to_char(*hex++)) == -1) {
+            errno = EINVAL;
             return 0;
         } else {
             n++;
-- 
2.43.0


From 32ad0f12b775bcfea089035c2f5e14a19eb5a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 070/101] fix: zt_cstr_itoa wrote its terminator past the
 buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index e894d9b..a000771 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -1027,7 +1027,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc > bufsiz)) {
+    if ((s == NULL) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From e4e1883f4f91b0abe1e2e6043b60d50519bc2d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 071/101] fix: format the largest and the smallest int right

---
 src/libzt/zt_format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 21dbf4c..2cb954b 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -484,8 +484,8 @@ cvt_d(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
-    if (val == INT_MAX) {
-        m = INT_MAX + 1U; /* -1 */
+    if (val == INT_MIN) {
+        m = INT_MAX + 1U; /* -val is not an int */
     } else if (val < 0) {
         m = -val;
     } else {
-- 
2.43.0


From 163a0aa861bf2905b4972c25b5274ea0022dd8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 072/101] fix: the formatting functions return the length of
 the text, not the sum of its characters

---
 src/libzt/zt_format.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 2cb954b..bd37ceb 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -16,7 +16,8 @@ struct zt_fmt_obuf {
     do {                          \
         ssize_t    nn = (n);      \
         while (nn-- > 0) {        \
-            tlen += put((c), cl); \
+            put((c), cl);         \
+            tlen++;               \
         }                         \
     } while (0)
 
@@ -211,7 +212,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
         /* both % and ~ are control chars */
         if ((*fmt != '%' && *fmt != '~') ||
             (++fmt && (*fmt == '%' || *fmt == '~'))) {
-            tlen += put((unsigned char)*fmt++, cl);
+            put((unsigned char)*fmt++, cl);
+            tlen++;
         } else {
             unsigned char c, flags[256];
             ssize_t       width = INT_MIN;
@@ -322,7 +324,8 @@ size_t zt_fmt_vformat(zt_fmt_put_f put, void *cl,
     do {                                            \
         size_t    i;                                \
         for (i = 0; i < len; i++) {                 \
-            tlen += put((unsigned char)*str++, cl); \
+            put((unsigned char)*str++, cl);         \
+            tlen++;                                 \
         }                                           \
     } while (0)
 
@@ -401,16 +404,19 @@ zt_fmt_putd(const char *str, size_t len,
 
     if (flags['-']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
     } else if (flags['0']) {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
         pad(width - n, '0', tlen);
     } else {
         if (sign) {
-            tlen += put(sign, cl);
+            put(sign, cl);
+            tlen++;
         }
         pad(width - n, ' ', tlen);
     }
@@ -465,7 +471,8 @@ cvt_c(int code UNUSED, void * value,
     if (!flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-    tlen += put(c, cl);
+    put(c, cl);
+    tlen++;
     if (flags['-']) {
         pad(width - 1, ' ', tlen);
     }
-- 
2.43.0


From a72e99e9d0f96cb1154f19011a423246ab68bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 073/101] fix: pad a left justified string on the right

---
 src/libzt/zt_format.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index bd37ceb..afbb3b6 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -354,6 +354,10 @@ zt_fmt_puts(const char *str, size_t len,
 
     EMIT_STR(str, len, cl, tlen);
 
+    if (flags['-']) {
+        pad(width - len, ' ', tlen);
+    }
+
     return tlen;
 }
 
-- 
2.43.0


From 2ca37fec9aa3e2444f79c8db9f01895274317e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 074/101] fix: put a number's sign after the blanks before it,
 honour '+', and print nothing for 0 with precision 0

---
 src/libzt/zt_format.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index afbb3b6..bde5aea 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -381,6 +381,8 @@ zt_fmt_putd(const char *str, size_t len,
          *str == '+')) {
         sign = *str++;
         len--;
+    } else if (flags['+']) {
+        sign = '+';
     } else if (flags[' ']) {
         sign = ' ';
     } else {
@@ -397,6 +399,7 @@ zt_fmt_putd(const char *str, size_t len,
     } else if (precision == 0 &&
                len == 1 &&
                str[0] == '0') {
+        len = 0;
         n = 0;
     } else {
         n = len;
@@ -418,11 +421,11 @@ zt_fmt_putd(const char *str, size_t len,
         }
         pad(width - n, '0', tlen);
     } else {
+        pad(width - n, ' ', tlen);
         if (sign) {
             put(sign, cl);
             tlen++;
         }
-        pad(width - n, ' ', tlen);
     }
 
     pad(precision - len, '0', tlen);
-- 
2.43.0


From 72612e146c79262da5bd39a30f64384bd37ddb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 075/101] fix: a floating value's precision is not its least
 number of digits

---
 src/libzt/zt_format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index bde5aea..6002d4b 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -524,8 +524,8 @@ cvt_f(int code, void * value,
       unsigned char flags[],
       ssize_t width, ssize_t precision)
 {
-    char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
-    static char fmt[] = "%.dd?";
+    char        buf[1 + DBL_MAX_10_EXP + 1 + 1 + 99 + 1]; /* sign, digits, point, digits, end */
+    char        fmt[] = "%.dd?";
 
     if (precision < 0) {
         precision = 6;
@@ -543,7 +543,7 @@ cvt_f(int code, void * value,
     sprintf(buf, fmt, *(double *)value);
 
     return zt_fmt_putd(buf, strlen(buf), put, cl,
-                       flags, width, precision);
+                       flags, width, INT_MIN);
 }
 
 static size_t
-- 
2.43.0


From 10c04c6e72ea637ae63aa66c79a7da022ce09d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 076/101] fix: zt_fmt_sprintf writes no further than the size
 it is given

---
 src/libzt/zt_format.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 6002d4b..16a497d 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -168,8 +168,8 @@ zt_fmt_vsprintf(char *buf, size_t size, const char *fmt, va_list ap)
     cl.size = size;
 
     zt_fmt_vformat(zt_fmt_insert, &cl, fmt, ap);
-    zt_fmt_insert(0, &cl);
-    return cl.bp - cl.buf - 1;
+    *cl.bp = '\0';
+    return cl.bp - cl.buf;
 }
 
 char * zt_fmt_strprintf(const char *fmt, ...)
@@ -655,12 +655,10 @@ zt_fmt_insert(int c, void *cl)
 {
     struct zt_fmt_obuf * p = cl;
 
-    zt_assert(p->bp < p->buf + p->size);
-    /* if (p->bp >= p->buf + p->size) { */
-        /* TRY_THROW(zt_exception.format.overflow); */
-    /* } */
-
-    *p->bp++ = c;
+    /* what does not fit is cut off; the last place is for the end */
+    if (p->bp < p->buf + p->size - 1) {
+        *p->bp++ = c;
+    }
     return c;
 }
 
-- 
2.43.0


From 02932c590cbfc86342e14aa79c23b047900fe584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 077/101] fix: dividing signed numbers asserted on everything
 but a division by -1

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index c098de9..6c7329d 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -184,7 +184,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         cvtype _tmp;                                          \
         zt_assert(rhs != 0);                                  \
         if (ZT_INT_IS_SIGNED(lhs) && ZT_INT_IS_SIGNED(rhs)) { \
-            zt_assert(lhs != ZT_CONC(sutype, _MIN) && rhs == -1);\
+            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\
         }                                                     \
         if (ZT_INT_SAME_SIGN(lhs, rhs)) {                     \
             return lhs / rhs;                                 \
-- 
2.43.0


From a230200a6c547144844252075ec3dc7b4c42d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 078/101] fix: subtracting an unsigned number from itself is no
 underflow

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index 6c7329d..af1c48e 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -74,7 +74,7 @@ ZT_INT_SIGNED_ADD(signed long, long, LONG)
     INLINE static ltype UNUSED ZT_CONC3(zt_, sltype, _sub) (ltype lhs, \
                                                   ltype rhs) \
     {                                                        \
-        zt_assert(lhs > rhs);                                \
+        zt_assert(lhs >= rhs);                               \
         return lhs - rhs;                                    \
     }
 
-- 
2.43.0


From 1c7c44d01090f20774278346e1ea4ab8d135e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 079/101] fix: zt_time called the function once more than it
 was asked to

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From fdbd8970b929466c953076efd4ecbee3afc57523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 080/101] fix: calibration subtracted its own measurement from
 itself, and was always 0

---
 src/libzt/zt_time.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..bbf93ec 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -14,6 +14,7 @@
 #ifndef WIN32
 #include <sys/resource.h>
 #endif
+#include <string.h>
 
 #include "zt_time.h"
 #include "zt_log.h"
@@ -103,7 +104,12 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    struct time_result overhead;
+
+    /* zt_time takes the calibration off what it measures */
+    memset(&_calibration_time, 0, sizeof(_calibration_time));
+    zt_time(0, &overhead, NULL, NULL);
+    _calibration_time = overhead;
 }
 
 /*!
-- 
2.43.0


From 2218ea14b9315b3a05b369407812b92533713f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 081/101] fix: zt_mkdir tried for ever when the system would
 not make the directory

---
 src/libzt/zt_path.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1c54921..864f3f7 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -22,7 +22,6 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
 
     errno = 0;
 
-AGAIN:
     if (mkdir(path, mode) != 0) {
 
         if (errno == EEXIST) {
@@ -61,7 +60,11 @@ AGAIN:
             }
         }
 
-        goto AGAIN;
+        /* what can be there above it is there now */
+        if (mkdir(path, mode) != 0 && errno != EEXIST) {
+            zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
+            return -1;
+        }
     }
 
     return 0;
-- 
2.43.0


From a27254a46a4987947573f5fe62dc50c49f1d71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 082/101] fix: zt_mkdir took a file in the place of the
 directory for the directory

---
 src/libzt/zt_path.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 864f3f7..cff6947 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -8,6 +8,21 @@
 
 #include "zt.h"
 
+/* 0 when the existing path is a directory, -1 with errno otherwise */
+static int
+is_dir(const char * path) {
+    struct stat sbuf;
+
+    if (stat(path, &sbuf) != 0) {
+        return -1;
+    }
+    if (!S_ISDIR(sbuf.st_mode)) {
+        errno = EEXIST;
+        return -1;
+    }
+    return 0;
+}
+
 /* Create a directory, allowing for creation of intermediate directories as 
  * needed. Will leave directory structure partially created if intermediate 
  * directory creation fails. 
@@ -25,7 +40,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
     if (mkdir(path, mode) != 0) {
 
         if (errno == EEXIST) {
-            return 0;
+            return is_dir(path);
         }
 
         if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
@@ -61,7 +76,10 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
         }
 
         /* what can be there above it is there now */
-        if (mkdir(path, mode) != 0 && errno != EEXIST) {
+        if (mkdir(path, mode) != 0) {
+            if (errno == EEXIST) {
+                return is_dir(path);
+            }
             zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
             return -1;
         }
-- 
2.43.0


From accaf1219c6cbec3e0a5926d1f55c727092dc6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 083/101] fix: zt_mkdir failed when another process made a
 directory above it first

---
 src/libzt/zt_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index cff6947..2ffdab8 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -69,7 +69,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
                 continue;
             }
 
-            if (mkdir(cpath, mode) != 0) {
+            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {
                 /* Cannot proceed, return error */
                 return -1;
             }
-- 
2.43.0


From 96c86e9f89cbe145349ddae1c5cdfb9010aff163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 084/101] fix: zt_mkdir and zt_find_basedir overran their
 buffers with long paths

---
 src/libzt/zt_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 2ffdab8..f4fd483 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -61,7 +61,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
                 break;
             }
 
-            memcpy(cpath, path, MIN(sizeof(cpath), (size_t)offt));
+            memcpy(cpath, path, MIN(sizeof(cpath) - 1, (size_t)offt));
             offt += pslen;
 
             if (offt == pslen || stat(cpath, &sbuf) == 0) {
@@ -116,7 +116,7 @@ char *zt_find_basedir(const char * path, const char * trigger) {
 
     len = strlen(path);
     memset(lpath, 0, sizeof(lpath));
-    memcpy(lpath, path, MIN(len, sizeof(cpath)));
+    memcpy(lpath, path, MIN(len, sizeof(lpath) - 1));
 
     do {
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From 7962205d357f660e15d39ee4ab37ec06de3afab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 085/101] fix: a name with an empty part crashed
 zt_unit_run_by_name

---
 src/libzt/zt_unit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index c7a6d02..46a0a0d 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -356,7 +356,7 @@ zt_unit_run_by_name(struct zt_unit    * unit,
 
     targetv = str_split(name, ".", &count);
 
-    if (count <= 0 || count > 2) {
+    if (count <= 0 || count > 2 || targetv[count - 1] == NULL) {
         result = -1;
         goto done;
     }
-- 
2.43.0


From fc49c46b2c04016c850f0272e1bc84dbbc4a7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 086/101] fix: a test run again counted the assertions of its
 earlier runs

---
 src/libzt/zt_unit.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 46a0a0d..e9e32bb 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -262,6 +262,11 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
     zt_assert(test);
 
     test->success = FALSE;
+    test->assertions = 0;
+    test->exceptions = 0;
+    if (test->error) {
+        zt_free(test->error);
+    }
 
     yaml_dict(test->name, 4);
 
-- 
2.43.0


From 243edabb97077d77a2970a22d86486738c0e42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 087/101] fix: a test run by its name was missing from the
 totals

---
 src/libzt/zt_unit.c | 51 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index e9e32bb..d2115cb 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -189,13 +189,37 @@ zt_unit_run(struct zt_unit    * unit)
 }
 
 
+/* run a test and add its results to those of its suite and to the totals */
+static void
+run_and_count(struct zt_unit       * unit,
+              struct zt_unit_suite * suite,
+              struct zt_unit_test  * test)
+{
+    unit->tests++;
+
+    if (zt_unit_run_test(unit, suite, test) != TRUE) {
+        suite->failed += 1;
+        unit->failures += 1;
+    } else {
+        unit->successes += 1;
+        suite->succeeded += 1;
+    }
+    if (test->assertions == 0 && test->exceptions == 0) {
+        suite->empty++;
+        unit->empty++;
+    }
+    suite->assertions += test->assertions;
+    suite->exceptions += test->exceptions;
+    unit->assertions += test->assertions;
+    unit->exceptions += test->exceptions;
+}
+
 int
 zt_unit_run_suite(struct zt_unit    * unit,
                   struct zt_unit_suite     * suite)
 {
     zt_elist_t          * tmp;
     struct zt_unit_test * unit_test;
-    int                   result;
 
     unit->suite_count++;
 
@@ -203,25 +227,8 @@ zt_unit_run_suite(struct zt_unit    * unit,
     yaml_dict("Tests", 2);
 
     zt_elist_for_each(&suite->tests, tmp) {
-        unit->tests++;
-
         unit_test = zt_elist_data(tmp, struct zt_unit_test, test);
-        result = zt_unit_run_test(unit, suite, unit_test);
-        if (result != TRUE) {
-            suite->failed += 1;
-            unit->failures += 1;
-        } else {
-            unit->successes += 1;
-            suite->succeeded += 1;
-        }
-        if (unit_test->assertions == 0 && unit_test->exceptions == 0) {
-          suite->empty++;
-          unit->empty++;
-        }
-        suite->assertions += unit_test->assertions;
-        suite->exceptions += unit_test->exceptions;
-        unit->assertions += unit_test->assertions;
-        unit->exceptions += unit_test->exceptions;
+        run_and_count(unit, suite, unit_test);
     }
 
     if (suite->failed != 0) {
@@ -403,11 +410,7 @@ zt_unit_run_by_name(struct zt_unit    * unit,
         goto done;
     }
 
-    if (zt_unit_run_test(unit, unit_suite, unit_test) == FALSE) {
-        unit->failures += 1;
-    } else {
-        unit->successes += 1;
-    }
+    run_and_count(unit, unit_suite, unit_test);
 
 done:
     str_split_free(&targetv);
-- 
2.43.0


From 15d725e81cae5a19300e1fe808c577b52347f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 088/101] fix: zt_progpath looked for a program given with its
 directory in PATH

---
 src/libzt/zt_progname.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6416362..3195d99 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -118,7 +118,7 @@ zt_progpath(char *prog) {
         memset(_progpath, '\0', PATH_MAX);
         zt_cstr_dirname(_progpath, PATH_MAX, prog);
 
-        if(_progpath[0] == '\0' || strcmp(_progpath, ".") == 0) {
+        if(strstr(prog, PATH_SEPERATOR) == NULL) {
             /* the passed in prog did not include a path */
             char        * path;
             size_t        offt = 0;
@@ -180,7 +180,9 @@ zt_progpath(char *prog) {
             char      cwd[PATH_MAX+1];
 
             if(getcwd(cwd, PATH_MAX) != NULL) {
-                if (_progpath[0] != '/') {
+                if (strcmp(_progpath, ".") == 0) {
+                    zt_cstr_copy(cwd, 0, -1, _progpath, PATH_MAX);
+                } else if (_progpath[0] != '/') {
                     /* path is relative append and remove prog */
                     char      * tpath;
                     char      * pp = _progpath;
-- 
2.43.0


From 118f82b195cf635ad33c79b3866a43dfade7dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 089/101] fix: zt_progpath did not look in the last part of
 PATH

---
 src/libzt/zt_progname.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 3195d99..a89c6e1 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -147,7 +147,8 @@ zt_progpath(char *prog) {
                 ssize_t   sofft;
 
                 if ((sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR)) < 0) {
-                    break;
+                    /* nothing follows the last part */
+                    sofft = (ssize_t)len;
                 }
                 offt = (size_t)sofft;
                 tpath = zt_cstr_catv(path, base, offt-1,
-- 
2.43.0


From 18474a1e165cc4ff58a596d878ec9496e460512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 090/101] fix: an empty part of PATH was the whole of PATH to
 zt_progpath

---
 src/libzt/zt_progname.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index a89c6e1..765656c 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -151,6 +151,15 @@ zt_progpath(char *prog) {
                     sofft = (ssize_t)len;
                 }
                 offt = (size_t)sofft;
+                if (sofft == base) {
+                    /* an empty part is the current directory */
+                    if (stat(prog, &sbuf) == 0) {
+                        break;
+                    }
+                    base = offt+1;
+                    offt++;
+                    continue;
+                }
                 tpath = zt_cstr_catv(path, base, offt-1,
                                      PATH_SEPERATOR, 0, -1,
                                      prog, 0, -1, NULL);
-- 
2.43.0


From f62be013334df2c71975d3a885f5020c6a3afe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 091/101] fix: zt_daemonize closed descriptors for ever when
 there was no limit on them

---
 src/libzt/zt_daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index 7c2938b..99a9cfb 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -67,7 +67,7 @@ zt_daemonize( char *root, mode_t mask, int options UNUSED)
         for (i = 0; i < rlimits.rlim_cur; i++) {
             if (i > INT_MAX) {
                 /* int cast protection */
-                i = INT_MAX;
+                break;
             }
             close((int)i);
         }                                                  /* Close all of the filehandles */
-- 
2.43.0


From bddf037c1d7111d829e2fefb0cfb60c826031717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 092/101] fix: what was logged to a file before an abort was
 lost

---
 src/libzt/zt_log/log_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index bc35985..72e0bbc 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -56,6 +56,8 @@ print(zt_log_ty * log, zt_log_level level, const char * file, int line, const ch
 #endif /* WITH_THREADS */
 
     vfprintf(this->file, nfmt, ap);
+    /* the program may not live to close the file, zt_abort and zt_assert do not */
+    fflush(this->file);
 
 #ifdef WITH_THREADS
     pthread_mutex_unlock(&log->mutex);
-- 
2.43.0


From a9cf26ce549b97f4acee449e15d724ca8219d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 093/101] fix: zt_malloc and zt_realloc gave too little memory
 when the size overflowed

---
 src/libzt/zt_malloc.c | 10 ++++++++++
 src/zt.h              |  7 ++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_malloc.c b/src/libzt/zt_malloc.c
index 1defcc5..05fce8d 100644
--- a/src/libzt/zt_malloc.c
+++ b/src/libzt/zt_malloc.c
@@ -15,6 +15,16 @@
 #include "zt_assert.h"
 #include "zt_log.h"
 
+/* the size of num things, or more than there can be if it is too much for a size_t */
+size_t
+zt_total_p(size_t num, size_t size)
+{
+    if (size != 0 && num > (size_t)-1 / size) {
+        return (size_t)-1;
+    }
+    return num * size;
+}
+
 void_p
 zt_calloc_p(size_t num, size_t size)
 {
diff --git a/src/zt.h b/src/zt.h
index 2fb966c..a8afd5a 100644
--- a/src/zt.h
+++ b/src/zt.h
@@ -31,10 +31,10 @@
 
 extern char *memoryError;
 #define zt_callocs(size, num)     (zt_calloc_p ((num), (size)))
-#define zt_mallocs(size, num)     (zt_malloc_p ((num) * (size)))
+#define zt_mallocs(size, num)     (zt_malloc_p (zt_total_p ((num), (size))))
 #define zt_calloc(type, num)	((type *) zt_calloc_p ((num), sizeof(type)))
-#define zt_malloc(type, num)	((type *) zt_malloc_p ((num) * sizeof(type)))
-#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), (num) * sizeof(type)))
+#define zt_malloc(type, num)	((type *) zt_malloc_p (zt_total_p ((num), sizeof(type))))
+#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), zt_total_p ((num), sizeof(type))))
 #define zt_free(stale)   	  	       	  	   	 \
 do {							 \
    if (stale) { free ((void_p) stale);  stale = 0; }	 \
@@ -124,6 +124,7 @@ typedef char* void_p;
 /* These entry points to the API are guaranteed to be functions */
 #include <stdlib.h>
 
+extern size_t zt_total_p	(size_t num, size_t size);
 extern void * zt_calloc_p	(size_t num, size_t size);
 extern void * zt_malloc_p	(size_t num);
 extern void * zt_realloc_p (void * p, size_t num);
-- 
2.43.0


From 59ee9dcabb9b2f9769666f98a4004bc8886db3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 094/101] fix: ZT_BIT_UNSET with an unsigned bit cleared the
 upper half of a wider target

---
 src/libzt/zt_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index c1effd1..205dec8 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -163,7 +163,7 @@ BEGIN_C_DECLS
  * Description: unset bit on target
  */
 #define ZT_BIT_UNSET(target, bit) \
-    ((target) &= ~(bit))
+    ((target) &= ~((bit) | 0ULL))
 
 /*!
  * Name: ZT_BIT_ISSET
-- 
2.43.0


From 7d5e634b85e75a5cf5d4eb6a90461a2c585a3dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 095/101] fix: INDENT_PAD took a step that is an expression
 apart

---
 src/libzt/zt_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_macros.h b/src/libzt/zt_macros.h
index 205dec8..2f354ec 100644
--- a/src/libzt/zt_macros.h
+++ b/src/libzt/zt_macros.h
@@ -134,7 +134,7 @@ BEGIN_C_DECLS
  * Description: injects padding into a print statement
  * Exmaple: printf(BLANK "-a, --alpha" NL, INDENT_PATH(3, 5, 0))
  */
-#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * step) + (pad))), ""
+#define INDENT_PAD(lvl, step, pad) ((int)(((lvl) * (step)) + (pad))), ""
 
 /************ Apply Macros ************/
 
-- 
2.43.0


From 982afdda0e260a461664221b4624fa7b46aee580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 096/101] fix: zt_cfg_ini kept what it had read of a
 configuration it refuses

---
 src/libzt/zt_cfg/cfg_ini.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index e7c774d..197f3f6 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -44,8 +44,7 @@ zt_cfg_ini(char *file, int opts )
     cfg->filename = strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
-        free(cfg->filename);
-        free(cfg);
+        zt_cfg_priv_destructor(cfg);
         cfg = NULL;
     }
 
@@ -217,6 +216,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_insert_bvv(cfg, &bvv);
-- 
2.43.0


From e62c946a5f46dea0afec5e82676f7312803f1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 097/101] fix: a refused zt_cfg_set kept its copies of the
 names

---
 src/libzt/zt_cfg/cfg_private.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 11ccc75..20ab330 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -219,6 +219,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
                 char *variable_name, void *var, zt_cfg_type type)
 {
     struct cfg_bvv_ty bvv;
+    int               result = -1;
 
     bvv.block = strdup(block_name);
     bvv.variable = strdup(variable_name);
@@ -234,7 +235,7 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
                 zt_log_printf(zt_log_err, "Invalid value for type zt_cfg_bool in zt_cfg_set!  Must be a string of (true|yes|no|false).");
-                return -1;
+                goto refused;
             }
         /* FALLTHRU */
         case zt_cfg_string:
@@ -242,15 +243,17 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
-            return -1;
+            goto refused;
     }
 
     cfg_insert_bvv(cfg, &bvv);
+    result = 1;
 
+refused:
     free(bvv.block);
     free(bvv.variable);
     free(bvv.value);
-    return 1;
+    return result;
 }
 
 int
-- 
2.43.0


From 3f7497496a07e9b8cf4c153d439775e9bd0fd22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 098/101] fix: a string variable that got another value kept
 the string before it

---
 src/libzt/zt_cfg/cfg_private.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 20ab330..c572021 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -189,6 +189,9 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
         value->altered = 1;
     }
 
+    if (value->type == zt_cfg_string) {
+        free(value->v.s);
+    }
     value->type = get_type(bvv->value, &value->v);
 
     /* Check for refrences */
-- 
2.43.0


From 0dc13c00a0213d175c285eb4ae6e73d1597b4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:41 +0000
Subject: [PATCH 099/101] fix: a pool or heap whose name could not be allocated
 was handed out without one

---
 src/libzt/zt_mem.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index d86b93a..6a376c8 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -101,7 +101,10 @@ zt_mem_heap_init(char *name, size_t size)
         return NULL;
     }
 
-    heap->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((heap->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(heap);
+        return NULL;
+    }
     heap->size = size;
     return heap;
 }
@@ -213,7 +216,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
 
     zt_elist_reset(&pool->pool_list);
 
-    pool->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((pool->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(pool);
+        return NULL;
+    }
     pool->rcache = elts;
     pool->ncache = pcache * epp;
     pool->pcache = pcache;
@@ -635,7 +641,10 @@ zt_mem_set_init(char *name)
     zt_elist_reset(&set->set_list);
     zt_elist_reset(&set->elt_list);
 
-    set->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((set->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(set);
+        return NULL;
+    }
 
     return set;
 }
-- 
2.43.0


From 4cc53485ec3653edb1fed2b315525d65ec28c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:01 +0000
Subject: [PATCH 100/101] fix: one SHA-1 update of almost 4 GiB after a partial
 block overran the block buffer

---
 src/libzt/zt_sha1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index da40bfe..298f6bd 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -116,8 +116,8 @@ zt_sha1_init(zt_sha1_ctx *ctx)
 void
 zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
 {
-    uint32_t      i;
-    uint32_t      j;
+    size_t        i;
+    size_t        j;
     uint32_t      llen;
 
     /* FIXME: 64bit (or better unbounded) sha1_update */
-- 
2.43.0


From 9fa4fc257b44c6e5fb5eb15dd6227ed9b5ef3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:41 +0000
Subject: [PATCH 101/101] fix: the addresses of a dump started again after 4
 GiB

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index a000771..241ade0 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -767,7 +767,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
     size_t    bytes = 0;
     size_t    hpos = 0, cpos = 0;
     int       c = 0;
-    uint32_t  addr = 0L;
+    size_t    addr = 0;
     size_t    _addr = 0L;
     char      _txt[16+1];
     char      _hex[(16*3)+3];
-- 
2.43.0

