From b2cc1552a03dbc0f6e5d5141e52751d784e392e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 01/75] fix: cee_str_mk formats its arguments once, not a
 second time past the end of them

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 9e70323..9083bec 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1914,7 +1914,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
diff --git a/str.c b/str.c
index 458626b..df207c0 100644
--- a/str.c
+++ b/str.c
@@ -77,7 +77,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
-- 
2.43.0


From 33e11602a5066f2012f48a6f1f356cd8f3db6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 02/75] fix: a resized block becomes the end of its state's
 chain, without its old successor

---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..32cd886 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -6,6 +6,7 @@ static void S(chain) (struct S(header) * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
diff --git a/release/cee.c b/release/cee.c
index 9083bec..0001d9f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1390,6 +1390,7 @@ static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -1805,6 +1806,7 @@ static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2262,6 +2264,7 @@ static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st)
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2427,6 +2430,7 @@ static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2807,6 +2811,7 @@ static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3131,6 +3136,7 @@ static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3298,6 +3304,7 @@ static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3426,6 +3433,7 @@ static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state *
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3547,6 +3555,7 @@ static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3668,6 +3677,7 @@ static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st)
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3872,6 +3882,7 @@ static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state *
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4020,6 +4031,7 @@ static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4136,6 +4148,7 @@ static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4272,6 +4285,7 @@ static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4406,6 +4420,7 @@ static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL;
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
-- 
2.43.0


From b1b854c32a7668a699631153b7eb3038228db696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 03/75] fix: collection marks the list of keys that a map owns

---
 map.c         | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/map.c b/map.c
index ee52dd6..38904b8 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
diff --git a/release/cee.c b/release/cee.c
index 0001d9f..72284b9 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2525,6 +2525,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
-- 
2.43.0


From cdab5f76108ee6abacf5288d247831ae29e0b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 04/75] fix: a map's list of keys does not free keys that the
 map's policy keeps

---
 map.c         | 3 ++-
 release/cee.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index 38904b8..60acd00 100644
--- a/map.c
+++ b/map.c
@@ -85,7 +85,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the pairs own the keys, this list only remembers their order */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
diff --git a/release/cee.c b/release/cee.c
index 72284b9..b603118 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2542,7 +2542,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the pairs own the keys, this list only remembers their order */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
-- 
2.43.0


From 4a27f8e4a001ba36685eede1d6fe5c2d1cb21c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 05/75] fix: deleting a non-empty set passes its delete policy
 on instead of a null pointer

---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index b603118..f368e43 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2899,7 +2899,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index 88ca5ff..ccf7d5e 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From d90bc2cd2a5528375c30538af3fb56d7e568895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 06/75] fix: the set operations treat a null set as empty, as
 cee.h says

---
 release/cee.c | 4 ++++
 set.c         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index f368e43..5ed05ec 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2944,11 +2944,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
@@ -2995,6 +2997,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3027,6 +3030,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index ccf7d5e..9397c7f 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
@@ -147,6 +149,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -179,6 +182,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From 041116927f877d5699ed4250d699e983657803a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 07/75] fix: looking up and removing in a null map returns
 null, as cee.h says

---
 map.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index 60acd00..9b6c1fc 100644
--- a/map.c
+++ b/map.c
@@ -154,7 +154,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) * b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
@@ -180,7 +180,7 @@ static void cee_map_ordered_key_delete(struct S(header) *b, void *deleted_key){
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
diff --git a/release/cee.c b/release/cee.c
index 5ed05ec..2300bb1 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2611,7 +2611,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2637,7 +2637,7 @@ static void cee_map_ordered_key_delete(struct _cee_map_header *b, void *deleted_
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
-- 
2.43.0


From fc6dce2a41b94cfb5b48c57a4fab010c285b123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 08/75] fix: adding an element a set already holds does not
 count it again

---
 release/cee.c | 2 ++
 set.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 2300bb1..202581a 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2961,6 +2961,8 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
+    return;
   void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
 
   if (oldp == NULL)
diff --git a/set.c b/set.c
index 9397c7f..b23d77a 100644
--- a/set.c
+++ b/set.c
@@ -113,6 +113,8 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
+  if (musl_tfind(h, val, h->_, S(cmp)))
+    return;
   void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
   
   if (oldp == NULL)
-- 
2.43.0


From f70a32ce3e8f18e2cb1e9ad5ffd63de34387437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 09/75] fix: removing an element from a set gives up the set's
 reference to it

---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 202581a..84a9826 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3041,6 +3041,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index b23d77a..454fcdc 100644
--- a/set.c
+++ b/set.c
@@ -193,6 +193,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From db50af6c3ba006a2ab757290492c3bff60f3c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 10/75] fix: collection marks closures and the environments
 they hold

---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index 84a9826..d3da9fc 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4107,6 +4107,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From 16f7aeea19b34e236c7c58d3175066d678bab5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 11/75] fix: an environment counts the references it gives up
 when it is deleted

---
 env.c         | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..ac5f3af 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index d3da9fc..098c06f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4527,6 +4527,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
 
   return &h->_;
 }
-- 
2.43.0


From 1d0adfd253fd79b5b2752e4cceb4789aa5299a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 12/75] fix: iterating over an empty list returns 0

---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index 098c06f..738f3b9 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3857,7 +3857,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From dfce5bbf4f4403f807042062c05a858344573c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 13/75] fix: replacing a map's value counts exactly the
 references the map keeps

---
 map.c         | 5 +++++
 release/cee.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/map.c b/map.c
index 9b6c1fc..68bca0c 100644
--- a/map.c
+++ b/map.c
@@ -136,9 +136,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
 
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
+      cee_incr_indegree(b->del_policies._.val, new_value);
       t1->_[1] = new_value; 
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
+    /* t gives up value, which stays retained if t1 owns it */
+    if (b->del_policies._.val == CEE_DP_DEL_RC
+        || (value != new_value && value != old_value))
+      cee_decr_indegree(b->del_policies._.val, value);
     cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);    
     return old_value;
diff --git a/release/cee.c b/release/cee.c
index 738f3b9..ca4fa1e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2593,9 +2593,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
 
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
+      cee_incr_indegree(b->del_policies._.val, new_value);
       t1->_[1] = new_value;
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
+    /* t gives up value, which stays retained if t1 owns it */
+    if (b->del_policies._.val == CEE_DP_DEL_RC
+        || (value != new_value && value != old_value))
+      cee_decr_indegree(b->del_policies._.val, value);
     cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);
     return old_value;
-- 
2.43.0


From a53dc7cbced1b810bb4058bd9e4dd480cb6eb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 14/75] fix: an object can have more than 65535 counted
 references

---
 cee-common.c  | 2 +-
 cee.h         | 2 +-
 release/cee.c | 4 ++--
 release/cee.h | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index effb658..e0a0fe0 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -83,7 +83,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   return cs->in_degree;
 }
diff --git a/cee.h b/cee.h
index 22abddf..766d98d 100644
--- a/cee.h
+++ b/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
diff --git a/release/cee.c b/release/cee.c
index ca4fa1e..c8ae353 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -98,7 +98,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -1315,7 +1315,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   return cs->in_degree;
 }
diff --git a/release/cee.h b/release/cee.h
index 22abddf..766d98d 100644
--- a/release/cee.h
+++ b/release/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
-- 
2.43.0


From a24630104072be678683495a4f732c238d6b53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 15/75] fix: cee_str_strn terminates the string it makes

---
 release/cee.c | 1 +
 str.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index c8ae353..dd58434 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1903,6 +1903,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index df207c0..34df67d 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 69a9b6ab69c47c8bfc1a054d6c7e4059109c89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 16/75] fix: cee_str_mk_e offers the n bytes it was asked for

---
 release/cee.c | 3 +++
 str.c         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index dd58434..faaac7b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1964,7 +1964,9 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n) s = n;
   }
   else
     s = n;
@@ -1986,6 +1988,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
diff --git a/str.c b/str.c
index 34df67d..43ebc35 100644
--- a/str.c
+++ b/str.c
@@ -125,7 +125,9 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n) s = n;
   }
   else
     s = n;
@@ -147,6 +149,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
-- 
2.43.0


From 77b599010752db04ecb1291d90ea5d3da14a9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 17/75] fix: cee_str_add keeps its terminator inside the
 capacity and does not read the block it resized

---
 release/cee.c | 6 +++---
 str.c         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index faaac7b..01183ec 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2029,15 +2029,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct _cee_str_header * b = (struct _cee_str_header *)((void *)((char *)(str) - (__builtin_offsetof(struct _cee_str_header, _))));
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 43ebc35..8161d21 100644
--- a/str.c
+++ b/str.c
@@ -190,15 +190,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct S(header) * b = FIND_HEADER(str);
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From aad39c6a55aabf0dad482ecaf938a8ecc14a994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 18/75] fix: cee_str_ltrim and cee_str_rtrim remove every blank
 at their end

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 01183ec..c75832f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2098,7 +2098,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -2113,7 +2113,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index 8161d21..3a6afda 100644
--- a/str.c
+++ b/str.c
@@ -259,7 +259,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -274,7 +274,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From 4f34e20c386ba55592a024dda93a05fdfd045062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 19/75] fix: cee_str_ncat appends the bytes it is given

---
 release/cee.c | 10 +++++++++-
 str.c         | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index c75832f..68bfc7d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2070,7 +2070,15 @@ struct cee_str * cee_str_catf(struct cee_str * str, const char * fmt, ...) {
 }
 
 struct cee_str * cee_str_ncat(struct cee_str * str, char * s, size_t slen){
-  return NULL;
+  struct _cee_str_header * b = (struct _cee_str_header *)((void *)((char *)(str) - (__builtin_offsetof(struct _cee_str_header, _))));
+  size_t len = strlen((char *)str);
+  if( len + slen + 1 > b->capacity ){
+    b = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (slen + 1) ? (b->cs.mem_block_size): (slen + 1))));
+    b->capacity = b->cs.mem_block_size - sizeof(struct _cee_str_header);
+  }
+  memcpy(b->_ + len, s, slen);
+  b->_[len + slen] = '\0';
+  return (struct cee_str *)(b->_);
 }
 
 struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
diff --git a/str.c b/str.c
index 3a6afda..0c0cbd8 100644
--- a/str.c
+++ b/str.c
@@ -231,7 +231,15 @@ struct cee_str * cee_str_catf(struct cee_str * str, const char * fmt, ...) {
 }
 
 struct cee_str * cee_str_ncat(struct cee_str * str, char * s, size_t slen){
-  return NULL;
+  struct S(header) * b = FIND_HEADER(str);
+  size_t len = strlen((char *)str);
+  if( len + slen + 1 > b->capacity ){
+    b = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, slen + 1));
+    b->capacity = b->cs.mem_block_size - sizeof(struct S(header));
+  }
+  memcpy(b->_ + len, s, slen);
+  b->_[len + slen] = '\0';
+  return (struct cee_str *)(b->_);
 }
 
 struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
-- 
2.43.0


From 45cb55c0f799b12bf7e9d1c77eb46855e65ed943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 20/75] fix: str_replace_all allocates enough for its result
 and takes an empty pattern to occur nowhere

---
 release/cee.c | 6 +++---
 str.c         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 68bfc7d..ed66e04 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2170,12 +2170,12 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  size_t max_matches = old_len ? orig_len/old_len : 0;
+  char *new_str = malloc(orig_len + max_matches * new_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-    if( strncmp(str+i_src, old_substr, old_len) == 0 ){
+    if( old_len && strncmp(str+i_src, old_substr, old_len) == 0 ){
       for( int n = 0; n < new_len; n++ )
         new_str[i_dest+n] = new_substr[n];
       i_dest += new_len;
diff --git a/str.c b/str.c
index 0c0cbd8..6fdf755 100644
--- a/str.c
+++ b/str.c
@@ -331,12 +331,12 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  size_t max_matches = old_len ? orig_len/old_len : 0;
+  char  *new_str = malloc(orig_len + max_matches * new_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-    if( strncmp(str+i_src, old_substr, old_len) == 0 ){
+    if( old_len && strncmp(str+i_src, old_substr, old_len) == 0 ){
       for( int n = 0; n < new_len; n++ )
         new_str[i_dest+n] = new_substr[n];
       i_dest += new_len;
-- 
2.43.0


From c28ffce272546e359963d14c11182a86b2045553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 21/75] fix: str_replace_all_ext allocates enough for its
 result and takes an empty pattern to occur nowhere

---
 release/cee.c | 11 ++++-------
 str.c         | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index ed66e04..2942504 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2197,7 +2197,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -2215,7 +2215,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
 
-    if( pairs[i].old_len < min_old_len )
+    if( pairs[i].old_len && pairs[i].old_len < min_old_len )
       min_old_len = pairs[i].old_len;
 
     if( pairs[i].new_len > max_new_len )
@@ -2223,17 +2223,14 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len + (str_len/min_old_len) * max_new_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
   while( i_src < str_len ){
     used_pair = NULL;
     for( int x = 0; x < n_pairs; x++ ){
-      if( i_src + pairs[x].old_len <= str_len
+      if( pairs[x].old_len && i_src + pairs[x].old_len <= str_len
           && strncmp(str+i_src, pairs[x].old_needle, pairs[x].old_len) == 0 ){
         used_pair = pairs+x;
         break;
diff --git a/str.c b/str.c
index 6fdf755..763fbda 100644
--- a/str.c
+++ b/str.c
@@ -358,7 +358,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -376,7 +376,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
     
-    if( pairs[i].old_len < min_old_len )
+    if( pairs[i].old_len && pairs[i].old_len < min_old_len )
       min_old_len = pairs[i].old_len;
     
     if( pairs[i].new_len > max_new_len )
@@ -384,17 +384,14 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len + (str_len/min_old_len) * max_new_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
   while( i_src < str_len ){
     used_pair = NULL;
     for( int x = 0; x < n_pairs; x++ ){
-      if( i_src + pairs[x].old_len <= str_len
+      if( pairs[x].old_len && i_src + pairs[x].old_len <= str_len
           && strncmp(str+i_src, pairs[x].old_needle, pairs[x].old_len) == 0 ){
         used_pair = pairs+x;
         break;
-- 
2.43.0


From aa0a01ac3b5f7c28c164cbe20fb880bdd943a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 22/75] fix: linear search works on an array of elements of the
 given width, like lsearch

---
 musl-lsearch.c | 14 +++++++-------
 release/cee.c  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/musl-lsearch.c b/musl-lsearch.c
index faedb7a..acf5371 100644
--- a/musl-lsearch.c
+++ b/musl-lsearch.c
@@ -10,27 +10,27 @@
 void *musl_lsearch(const void *key, void *base, size_t *nelp, size_t width,
   int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(key, p + i * width) == 0)
+      return p + i * width;
   *nelp = n+1;
   /* b.o. here when width is longer than the size of key */
-  return memcpy(p[n], key, width);
+  return memcpy(p + n * width, key, width);
 }
 
 void *musl_lfind(const void *key, const void *base, size_t *nelp,
   size_t width, int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(key, p + i * width) == 0)
+      return p + i * width;
   return 0;
 }
diff --git a/release/cee.c b/release/cee.c
index 2942504..6d8ffa1 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1019,28 +1019,28 @@ void musl_remque(void *element)
 void *musl_lsearch(const void *key, void *base, size_t *nelp, size_t width,
   int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(key, p + i * width) == 0)
+      return p + i * width;
   *nelp = n+1;
   /* b.o. here when width is longer than the size of key */
-  return memcpy(p[n], key, width);
+  return memcpy(p + n * width, key, width);
 }
 
 void *musl_lfind(const void *key, const void *base, size_t *nelp,
   size_t width, int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(key, p + i * width) == 0)
+      return p + i * width;
   return 0;
 }
 /* AVL tree height < 1.44*log2(nodes+2)-0.3, MAXH is a safe upper bound.  */
-- 
2.43.0


From f27bd8fbc4b8c748c5f2bb8df79c3b243d851d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 23/75] fix: musl_tdelete tells deleting the root from finding
 nothing

---
 musl-tsearch.c | 2 +-
 release/cee.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/musl-tsearch.c b/musl-tsearch.c
index 1728d57..5cdf001 100644
--- a/musl-tsearch.c
+++ b/musl-tsearch.c
@@ -200,7 +200,7 @@ void *musl_tdelete(void * cxt, const void * key, void ** rootp,
   }
   /* freed tnode has at most one child, move it up and rebalance.  */
   if (parent == n)
-    parent = NULL;
+    parent = (struct S(tnode) *)rootp; /* non-null, not to be dereferenced */
   
   free(n);
   *a[--i] = child;
diff --git a/release/cee.c b/release/cee.c
index 6d8ffa1..c815af4 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1236,7 +1236,7 @@ void *musl_tdelete(void * cxt, const void * key, void ** rootp,
   }
   /* freed tnode has at most one child, move it up and rebalance.  */
   if (parent == n)
-    parent = NULL;
+    parent = (struct _cee_tsearch_tnode *)rootp; /* non-null, not to be dereferenced */
 
   free(n);
   *a[--i] = child;
-- 
2.43.0


From f992496df87cf980d89e95f50611968b1609eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 24/75] fix: an environment without variables does not hide its
 outer scopes

---
 env.c         | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/env.c b/env.c
index ac5f3af..ea531b9 100644
--- a/env.c
+++ b/env.c
@@ -73,7 +73,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
diff --git a/release/cee.c b/release/cee.c
index c815af4..d30d18c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4556,7 +4556,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
-- 
2.43.0


From 17d062e3876422ecb20d78b6e75cf092b9bc5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 25/75] fix: renaming a map's key keeps a pair whose value is
 null

---
 map.c         | 13 +++++++------
 release/cee.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/map.c b/map.c
index 68bca0c..3fd4a68 100644
--- a/map.c
+++ b/map.c
@@ -207,13 +207,14 @@ void* cee_map_remove(struct cee_map * m, void *key){
 }
 
 bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
-  if( old_key == NULL || new_key == NULL ) return false;
-  void *v = cee_map_remove(m, old_key);
-  if( v ){
-    cee_map_add(m, new_key, v);
-    return true;
-  }else
+  if( m == NULL || old_key == NULL || new_key == NULL ) return false;
+  struct S(header) *b = FIND_HEADER(m);
+  struct cee_tuple t = { old_key, 0 };
+  if( musl_tfind(b, &t, b->_, S(cmp)) == NULL )
     return false;
+  void *v = cee_map_remove(m, old_key);
+  cee_map_add(m, new_key, v);
+  return true;
 }
 
 static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const int depth) {
diff --git a/release/cee.c b/release/cee.c
index d30d18c..41d8cb5 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2673,13 +2673,14 @@ void* cee_map_remove(struct cee_map * m, void *key){
 }
 
 bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
-  if( old_key == NULL || new_key == NULL ) return false;
-  void *v = cee_map_remove(m, old_key);
-  if( v ){
-    cee_map_add(m, new_key, v);
-    return true;
-  }else
+  if( m == NULL || old_key == NULL || new_key == NULL ) return false;
+  struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
+  struct cee_tuple t = { old_key, 0 };
+  if( musl_tfind(b, &t, b->_, _cee_map_cmp) == NULL )
     return false;
+  void *v = cee_map_remove(m, old_key);
+  cee_map_add(m, new_key, v);
+  return true;
 }
 
 static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which, const int depth) {
-- 
2.43.0


From eb12b4caef20d09004e7597a51b37257b4082abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 26/75] fix: sv_chop_by_sv recognises a delimiter at the end
 and takes a view shorter than the delimiter whole

---
 strview.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strview.c b/strview.c
index 48c477b..25296d3 100644
--- a/strview.c
+++ b/strview.c
@@ -201,6 +201,10 @@ SVDEF String_View sv_chop_by_delim(String_View *sv, char delim)
 
 SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 {
+    if (thicc_delim.count > sv->count) {
+        return sv_chop_left(sv, sv->count);
+    }
+
     String_View window = sv_from_parts(sv->data, thicc_delim.count);
     size_t i = 0;
     while (i + thicc_delim.count < sv->count 
@@ -212,7 +216,7 @@ SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 
     String_View result = sv_from_parts(sv->data, i);
 
-    if (i + thicc_delim.count == sv->count) {
+    if (i + thicc_delim.count == sv->count && !(sv_eq(window, thicc_delim))) {
         // include last <thicc_delim.count> characters if they aren't 
         //  equal to thicc_delim
         result.count += thicc_delim.count; 
-- 
2.43.0


From 76b8f1b62603aae7d9452a7328b2b36bba759ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 27/75] fix: merging a list into itself (or a json array that
 the destination shares) terminates

---
 list.c        | 10 +++-------
 release/cee.c |  9 +++------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/list.c b/list.c
index 4be0a17..2650d78 100644
--- a/list.c
+++ b/list.c
@@ -143,13 +143,9 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int S(_add_v)(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, S(_add_v));
+  size_t i, n = cee_list_size(src); /* src may be dest */
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
diff --git a/release/cee.c b/release/cee.c
index 41d8cb5..84e5050 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3880,15 +3880,12 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int _cee_list__add_v(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
 
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, _cee_list__add_v);
+  size_t i, n = cee_list_size(src); /* src may be dest */
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
 
 struct _cee_tagged_header {
-- 
2.43.0


From d4693fd8bf85f610375e619c1319e1b3a7bdd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 28/75] fix: the json tokenizer reads nothing behind the end of
 its buffer

---
 cee-json/release/cee-json.c | 55 ++++++++++++++++++++---------------
 cee-json/tokenizer.c        | 57 ++++++++++++++++++++++---------------
 2 files changed, 66 insertions(+), 46 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..abc1dbe 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1923,11 +1923,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
 
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -2105,12 +2105,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end == t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -2128,10 +2128,14 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   }
   return false; /*  ill formed string */
 }
+/* is the character at s a digit that lies in front of e */
+static bool digit_at(char *s, char *e) {
+  return s < e && isdigit((unsigned char)*s);
+}
 
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
-  char *end = start;
+  char *end = start, * const buf_end = t->buf_end;
 
   bool is_integer = true, is_exponent = false;
   int offset_sign = 0;
@@ -2141,31 +2145,31 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end))
+  if (!digit_at(end, buf_end))
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end))
+  while (digit_at(++end, buf_end))
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (end < buf_end && '.' == *end) {
+    if (!digit_at(++end, buf_end))
       return false;
-    while (isdigit(*++end))
+    while (digit_at(++end, buf_end))
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (end < buf_end && ('e' == *end || 'E' == *end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (end < buf_end && ('+' == *end || '-' == *end))
       ++end;
-    if (!isdigit(*end))
+    if (!digit_at(end, buf_end))
       return false;
-    while (isdigit(*++end))
+    while (digit_at(++end, buf_end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -2174,19 +2178,24 @@ static bool parse_number(struct tokenizer *t) {
   }
 
   /* 5th STEP: convert string to number */
-  char *endptr=NULL;
+  /* the text of the number may end with the buffer, strtod needs a terminator */
+  char *num = malloc(end - start + 1), *endptr=NULL;
+  memcpy(num, start, end - start);
+  num[end - start] = '\0';
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(num, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(num, &endptr, 10);
   }
+  bool converted = num != endptr;
+  free(num);
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -2216,17 +2225,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -2245,7 +2254,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..baa39f1 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,5 +1,6 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
+#include <string.h>
 #include <ctype.h>
 #include "cee.h"
 #include "cee-json.h"
@@ -179,11 +180,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
   
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -361,12 +362,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end == t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -385,9 +386,14 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+/* is the character at s a digit that lies in front of e */
+static bool digit_at(char *s, char *e) {
+  return s < e && isdigit((unsigned char)*s);
+}
+
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
-  char *end = start;
+  char *end = start, * const buf_end = t->buf_end;
 
   bool is_integer = true, is_exponent = false;
   int offset_sign = 0;
@@ -397,31 +403,31 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end)) 
+  if (!digit_at(end, buf_end)) 
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end)) 
+  while (digit_at(++end, buf_end)) 
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (end < buf_end && '.' == *end) {
+    if (!digit_at(++end, buf_end))
       return false;
-    while (isdigit(*++end)) 
+    while (digit_at(++end, buf_end)) 
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (end < buf_end && ('e' == *end || 'E' == *end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (end < buf_end && ('+' == *end || '-' == *end))
       ++end;
-    if (!isdigit(*end)) 
+    if (!digit_at(end, buf_end)) 
       return false;
-    while (isdigit(*++end))
+    while (digit_at(++end, buf_end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -430,19 +436,24 @@ static bool parse_number(struct tokenizer *t) {
   }
 
   /* 5th STEP: convert string to number */
-  char *endptr=NULL;
+  /* the text of the number may end with the buffer, strtod needs a terminator */
+  char *num = malloc(end - start + 1), *endptr=NULL;
+  memcpy(num, start, end - start);
+  num[end - start] = '\0';
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(num, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(num, &endptr, 10);
   }
+  bool converted = num != endptr;
+  free(num);
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -472,17 +483,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -501,7 +512,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
-- 
2.43.0


From 281029b35024777b942ca17277f3dabf6b2532f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 29/75] fix: json integers beyond the signed 64-bit range
 become unsigned or, beyond that, real numbers

---
 cee-json/release/cee-json.c | 10 ++++++++++
 cee-json/tokenizer.c        | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index abc1dbe..e9fef06 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2188,7 +2188,17 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(num, &endptr, 10);
+    if (errno == ERANGE && '-' != *num) {
+      t->type = NUMBER_IS_U64;
+      errno = 0;
+      t->number.u64 = strtoull(num, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(num, &endptr);
+    }
   }
   bool converted = num != endptr;
   free(num);
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index baa39f1..99a8617 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -446,7 +447,17 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(num, &endptr, 10);
+    if (errno == ERANGE && '-' != *num) {
+      t->type = NUMBER_IS_U64;
+      errno = 0;
+      t->number.u64 = strtoull(num, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(num, &endptr);
+    }
   }
   bool converted = num != endptr;
   free(num);
-- 
2.43.0


From e14af566eef474538d87445c996bd017f618b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 30/75] fix: json numbers with a leading zero are rejected
 whatever follows their integer part

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/tokenizer.c        | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index e9fef06..196bcaa 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2151,6 +2151,9 @@ static bool parse_number(struct tokenizer *t) {
   /* 2nd STEP: skips until a non digit char found */
   while (digit_at(++end, buf_end))
     continue;
+  /* the integer part can't start with zero followed by n numbers (ex: 012, -023, 01.5) */
+  if ('0' == start[offset_sign] && (end-1) != (start+offset_sign))
+    return false;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (end < buf_end && '.' == *end) {
@@ -2172,9 +2175,6 @@ static bool parse_number(struct tokenizer *t) {
     while (digit_at(++end, buf_end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 99a8617..90c06b8 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -411,6 +411,10 @@ static bool parse_number(struct tokenizer *t) {
   while (digit_at(++end, buf_end)) 
     continue;
 
+  /* the integer part can't start with zero followed by n numbers (ex: 012, -023, 01.5) */
+  if ('0' == start[offset_sign] && (end-1) != (start+offset_sign))
+    return false;
+
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (end < buf_end && '.' == *end) {
     if (!digit_at(++end, buf_end))
@@ -431,9 +435,6 @@ static bool parse_number(struct tokenizer *t) {
     while (digit_at(++end, buf_end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number */
-- 
2.43.0


From 9d73286ad6cf093551b8fb536846d1af3c88c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 31/75] fix: a json string that ends after the first half of a
 surrogate pair is rejected

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/tokenizer.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 196bcaa..dc31f57 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2073,7 +2073,7 @@ second_iter:
 
   switch (state) {
   case UNESCAPING:
-      if (!utf8_validate(out_start, d))
+      if (second_surrogate_expected || !utf8_validate(out_start, d))
         goto return_err;
       else
       {
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 90c06b8..2101ea8 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -331,7 +331,7 @@ second_iter:
 
   switch (state) {
   case UNESCAPING:
-      if (!utf8_validate(out_start, d))
+      if (second_surrogate_expected || !utf8_validate(out_start, d))
         goto return_err;
       else
       {
-- 
2.43.0


From 41808cf5c5ee921664683a520ada869acf350f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 32/75] fix: pretty-printing json nested more than 127 levels
 deep indents every level

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/snprint.c          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index dc31f57..39892de 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1374,7 +1374,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -1430,7 +1430,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
 
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..338f578 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -68,7 +68,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
   
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
-- 
2.43.0


From ebe200be595caedff9413f45edae3c61e7844d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 33/75] fix: json nested as deep as the parser accepts is
 printed completely

---
 cee-json/release/cee-json.c | 3 ++-
 cee-json/snprint.c          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 39892de..09a343b 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1549,7 +1549,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /* one entry for each level that the parser accepts, one for a scalar, one never filled */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 512 + 2);
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 338f578..0c6802c 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -187,7 +187,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /* one entry for each level that the parser accepts, one for a scalar, one never filled */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 512 + 2);
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-- 
2.43.0


From ccf437b07a02bd4b06cd440ba8f3c87a3b3bad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 34/75] fix: cee_json_snprint writes no more than the size it
 is given

---
 cee-json/release/cee-json.c | 27 +++++++++++++++++++++++----
 cee-json/snprint.c          | 29 +++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 09a343b..528b833 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1540,9 +1540,10 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
 }
 
 /*
- * compute how many bytes are needed to serialize cee_json as a string
+ * compute how many bytes are needed to serialize cee_json as a string,
+ * and serialize it to buf when buf, which has room for all of it, is not NULL
  */
-ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+static ssize_t print_all (struct cee_state *st, char *buf, struct cee_json *j,
      enum cee_json_fmt f) {
   struct cee_tuple * cur;
   struct cee_json * cur_json;
@@ -1711,6 +1712,24 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
 }
 
 
+/*
+ * like snprintf: at most size bytes of buf are written, the last of them
+ * is a '\0', and the length of the complete text is returned
+ */
+ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+     enum cee_json_fmt f) {
+  ssize_t len = print_all(st, NULL, j, f);
+  if (buf == NULL || size == 0)
+    return len;
+  if ((size_t)len < size)
+    return print_all(st, buf, j, f);
+  char *all = cee_block_mk_nonzero(st, len + 1);
+  print_all(st, all, j, f);
+  memcpy(buf, all, size - 1);
+  buf[size - 1] = '\0';
+  cee_del(all);
+  return len;
+}
 /*
  * the memory allocated by this function is tracked by cee_state
  */
@@ -1719,10 +1738,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1/*\0*/);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return print_all(st, buf, j, f);
 }
 
 
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 0c6802c..da33f09 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -178,9 +178,10 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
 }
 
 /*
- * compute how many bytes are needed to serialize cee_json as a string
+ * compute how many bytes are needed to serialize cee_json as a string,
+ * and serialize it to buf when buf, which has room for all of it, is not NULL
  */
-ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+static ssize_t print_all (struct cee_state *st, char *buf, struct cee_json *j,
 			  enum cee_json_fmt f) {
   struct cee_tuple * cur;
   struct cee_json * cur_json;
@@ -348,6 +349,26 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   return offset;
 }
 
+/*
+ * like snprintf: at most size bytes of buf are written, the last of them
+ * is a '\0', and the length of the complete text is returned
+ */
+ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+			  enum cee_json_fmt f) {
+  ssize_t len = print_all(st, NULL, j, f);
+  if (buf == NULL || size == 0)
+    return len;
+  if ((size_t)len < size)
+    return print_all(st, buf, j, f);
+
+  char *all = cee_block_mk_nonzero(st, len + 1);
+  print_all(st, all, j, f);
+  memcpy(buf, all, size - 1);
+  buf[size - 1] = '\0';
+  cee_del(all);
+  return len;
+}
+
 
 /*
  * the memory allocated by this function is tracked by cee_state
@@ -357,10 +378,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1/*\0*/);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return print_all(st, buf, j, f);
 }
 
 
-- 
2.43.0


From 21fb6089dfb03f9388cdf541af159e304129ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 35/75] fix: a formatted key in a selector is copied from the
 argument, not from the index buffer

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 528b833..cf569ff 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1042,7 +1042,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..9d0a889 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -818,7 +818,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From e79614ee8ae4d6a73a9a8f4f136d546f6ce00767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 36/75] fix: a selector that ends where a step should follow
 selects nothing instead of reading past its end

---
 cee-json/release/cee-json.c | 2 ++
 cee-json/value.c            | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index cf569ff..60563d6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1009,6 +1009,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
         if (token[0] == '!' && o->t != CEE_JSON_NULL) goto notfound;
       }
+    } else if (next != JSEL_INVALID && *p == '\0') {
+      goto notfound; /* nothing follows the last specifier */
     } else if (next != JSEL_INVALID) {
       /* Otherwise accumulate characters in the current token, note that
        * the above check for JSEL_NEXT_INVALID prevents us from
diff --git a/cee-json/value.c b/cee-json/value.c
index 9d0a889..1d1060d 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -785,6 +785,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
         if (token[0] == '!' && o->t != CEE_JSON_NULL) goto notfound;
       }
+    } else if (next != JSEL_INVALID && *p == '\0') {
+      goto notfound; /* nothing follows the last specifier */
     } else if (next != JSEL_INVALID) {
       /* Otherwise accumulate characters in the current token, note that
        * the above check for JSEL_NEXT_INVALID prevents us from
-- 
2.43.0


From 77bf8b5bd6bb8c762b346618bef7d1687073eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 37/75] fix: a selector index that is not a number, or too
 large for one, selects nothing

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 60563d6..b9f82b5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -994,8 +994,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
-        if ((o = cee_json_array_get(o,idx)) == NULL)
+        char *end;
+        long idx = strtol(token,&end,10); /* cee_json API index is int. */
+        if (end == token || *end || idx != (int)idx) goto notfound;
+        if ((o = cee_json_array_get(o,(int)idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
         if (o->t != CEE_JSON_OBJECT) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index 1d1060d..36d7c16 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -770,8 +770,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
-        if ((o = cee_json_array_get(o,idx)) == NULL)
+        char *end;
+        long idx = strtol(token,&end,10); /* cee_json API index is int. */
+        if (end == token || *end || idx != (int)idx) goto notfound;
+        if ((o = cee_json_array_get(o,(int)idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
         if (o->t != CEE_JSON_OBJECT) goto notfound;
-- 
2.43.0


From 15cc1ea4ad0c31b3cd01fcbce5932fdd874a7b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 38/75] fix: the number type test of a selector accepts every
 kind of number

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b9f82b5..66304db 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1005,7 +1005,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && NULL == cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index 36d7c16..21d5c5d 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -781,7 +781,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && NULL == cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
-- 
2.43.0


From fec36987325935dce9f7b3ce9e9b7487f871c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 39/75] fix: converting a member to an integer looks at the
 member, not at the object

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 66304db..cf3c423 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -574,13 +574,15 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return false;
 
   struct cee_json *old_val = cee_json_object_get(j, key);
+  if (NULL == old_val)
+    return false;
   int64_t i64 = 0;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    /* the old value may be shared with other documents */
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index 21d5c5d..5c7d4f4 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -350,13 +350,15 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return false;
   
   struct cee_json *old_val = cee_json_object_get(j, key);
+  if (NULL == old_val)
+    return false;
   int64_t i64 = 0;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    /* the old value may be shared with other documents */
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
-- 
2.43.0


From a24d483d8a00c38f2c32525779bb2e1e46197890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 40/75] fix: a numeric string too large for 64 bits is not
 converted to another number

---
 cee-json/release/cee-json.c | 16 ++++++----------
 cee-json/value.c            | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index cf3c423..2870d06 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -555,17 +555,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
-    if (ip) *ip = i;
-    return 0;
-  }
-  if (scanned > 1) {
+  char *end;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end == s || *end || errno == ERANGE)
     return 1;
-  }
-  return 1;
+  if (ip) *ip = i;
+  return 0;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
diff --git a/cee-json/value.c b/cee-json/value.c
index 5c7d4f4..4632cb2 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -331,17 +331,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
-    if (ip) *ip = i;
-    return 0;
-  }
-  if (scanned > 1) {
+  char *end;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end == s || *end || errno == ERANGE)
     return 1;
-  }
-  return 1;
+  if (ip) *ip = i;
+  return 0;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
-- 
2.43.0


From 7b7c01abe384ae5ff3f41c4f33d73791b61bd1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 41/75] fix: listify of an object takes the state of the
 object's map

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 2870d06..dd6b7a8 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -277,7 +277,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
diff --git a/cee-json/value.c b/cee-json/value.c
index 4632cb2..8266126 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -53,7 +53,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
-- 
2.43.0


From 47ec0adda6e2a9bf9f3222265c9acd060f889090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 42/75] fix: appending under a key that holds a number, boolean
 or null turns it into an array

---
 cee-json/release/cee-json.c | 3 ++-
 cee-json/value.c            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index dd6b7a8..52d4164 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -646,7 +646,8 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index 8266126..f6e2ebc 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -422,7 +422,8 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From 0d5dddaf838c83eaa2bfe5d420106811beccc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 43/75] fix: concatenating a json array with itself terminates

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/value.c            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 52d4164..ba9215e 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -842,8 +842,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index f6e2ebc..19fa08f 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -618,8 +618,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
-- 
2.43.0


From 4ebfa63450061884f18c9f8063067e81e19630de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 44/75] fix: cee_json_escape_string escapes control characters
 completely and stays within dest_size

---
 cee-json/release/cee-json.c | 38 ++++++++++++++++++++-----------------
 cee-json/value.c            | 38 ++++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index ba9215e..e221e95 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1082,32 +1082,36 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
 size_t cee_json_escape_string(const char *s, size_t s_size,
                               char *dest, size_t dest_size,
                               char **next_dest_p, size_t *next_dest_size){
-  int j = 0, c, i;
+  size_t i, n, j = 0/*needed*/, w = 0/*written*/;
+  int c;
+  char e[8];
   for( i = 0; i < s_size; i++ ){
     c = s[i];
+    e[0] = '\\', n = 2;
     switch( c ){
-    case '"' : dest[j] = '\\', dest[j+1] = '"', j+= 2; break;
-    case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
-    case '\b': dest[j] = '\\', dest[j+1] = 'b', j+= 2; break;
-    case '\f': dest[j] = '\\', dest[j+1] = 'f', j+= 2; break;
-    case '\n': dest[j] = '\\', dest[j+1] = 'n', j+= 2; break;
-    case '\r': dest[j] = '\\', dest[j+1] = 'r', j+= 2; break;
-    case '\t': dest[j] = '\\', dest[j+1] = 't', j+= 2; break;
+    case '"' : e[1] = '"'; break;
+    case '\\': e[1] = '\\'; break;
+    case '\b': e[1] = 'b'; break;
+    case '\f': e[1] = 'f'; break;
+    case '\n': e[1] = 'n'; break;
+    case '\r': e[1] = 'r'; break;
+    case '\t': e[1] = 't'; break;
     default:
-      if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
-      }else{
-        dest[j] = c, j++;
-      }
+      if( '\x00' <= c && c <= '\x1f' )
+        n = snprintf(e, sizeof(e), "\\u%04x", (unsigned char)c);
+      else
+        e[0] = c, n = 1;
     }
+    /* stop at the first escape that does not fit */
+    if( j == w && n <= dest_size - w )
+      memcpy(dest + w, e, n), w += n;
+    j += n;
   }
   if( next_dest_size )
-    *next_dest_size = dest_size - j;
+    *next_dest_size = dest_size - w;
 
   if( next_dest_p )
-    *next_dest_p = dest + j;
+    *next_dest_p = dest + w;
 
   return j;
 }
diff --git a/cee-json/value.c b/cee-json/value.c
index 19fa08f..c53af5f 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -858,32 +858,36 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
 size_t cee_json_escape_string(const char *s,  size_t s_size,
                               char *dest, size_t dest_size,
                               char **next_dest_p, size_t *next_dest_size){
-  int j = 0, c, i;
+  size_t i, n, j = 0/*needed*/, w = 0/*written*/;
+  int c;
+  char e[8];
   for( i = 0; i < s_size; i++ ){
     c = s[i];
+    e[0] = '\\', n = 2;
     switch( c ){
-    case '"' : dest[j] = '\\', dest[j+1] = '"',  j+= 2; break;
-    case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
-    case '\b': dest[j] = '\\', dest[j+1] = 'b',  j+= 2; break;
-    case '\f': dest[j] = '\\', dest[j+1] = 'f',  j+= 2; break;
-    case '\n': dest[j] = '\\', dest[j+1] = 'n',  j+= 2; break;
-    case '\r': dest[j] = '\\', dest[j+1] = 'r',  j+= 2; break;
-    case '\t': dest[j] = '\\', dest[j+1] = 't',  j+= 2; break;
+    case '"' : e[1] = '"';  break;
+    case '\\': e[1] = '\\'; break;
+    case '\b': e[1] = 'b';  break;
+    case '\f': e[1] = 'f';  break;
+    case '\n': e[1] = 'n';  break;
+    case '\r': e[1] = 'r';  break;
+    case '\t': e[1] = 't';  break;
     default:
-      if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
-      }else{
-        dest[j] = c, j++;
-      }
+      if( '\x00' <= c && c <= '\x1f' )
+        n = snprintf(e, sizeof(e), "\\u%04x", (unsigned char)c);
+      else
+        e[0] = c, n = 1;
     }
+    /* stop at the first escape that does not fit */
+    if( j == w && n <= dest_size - w )
+      memcpy(dest + w, e, n), w += n;
+    j += n;
   }
   if( next_dest_size )
-    *next_dest_size = dest_size - j;
+    *next_dest_size = dest_size - w;
 
   if( next_dest_p )
-    *next_dest_p = dest + j;
+    *next_dest_p = dest + w;
 
   return j;
 }
-- 
2.43.0


From c351e12d603c963dcce4f60d385dd3dc72d95756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 45/75] fix: loading json from a descriptor that cannot be read
 fails instead of parsing an uninitialized buffer

---
 cee-json/release/cee-json.c | 13 +++++++++----
 cee-json/value.c            | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index e221e95..714e756 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -854,10 +854,15 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof,
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  if( fstat(fd, &buf) || S_ISDIR(buf.st_mode) )
+    buf.st_size = 0;
+  off_t size = 0, capacity = buf.st_size;
+  char * b = malloc(capacity);
+  ssize_t n = 0;
+  while( b && size < capacity && (n = read(fd, b + size, capacity - size)) > 0 )
+    size += n;
+  if( n < 0 )
+    size = 0;
 
   int line = 0;
   struct cee_json * j = NULL;
diff --git a/cee-json/value.c b/cee-json/value.c
index c53af5f..02fd26f 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -630,10 +630,15 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  if( fstat(fd, &buf) || S_ISDIR(buf.st_mode) )
+    buf.st_size = 0;
+  off_t size = 0, capacity = buf.st_size;
+  char * b = malloc(capacity);
+  ssize_t n = 0;
+  while( b && size < capacity && (n = read(fd, b + size, capacity - size)) > 0 )
+    size += n;
+  if( n < 0 )
+    size = 0;
 
   int line = 0;
   struct cee_json * j = NULL;
-- 
2.43.0


From 6ba010855cd7919f8321f897dc3e16934557b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 46/75] fix: an integer that does not fit an int is not
 silently truncated to one

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 714e756..428cdce 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -394,7 +394,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if (i != (int)i)
+      return ERANGE;
+    *r = (int)i;
     return 0;
   }
   else
diff --git a/cee-json/value.c b/cee-json/value.c
index 02fd26f..ed90e8e 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -170,7 +170,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if (i != (int)i)
+      return ERANGE;
+    *r = (int)i;
     return 0;
   }
   else
-- 
2.43.0


From a186d31ab7bc4704efa7a8e5f6f890f8a5775ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 47/75] fix: a buffer that does not parse leaves no state
 behind

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 428cdce..58114c6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -911,6 +911,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
diff --git a/cee-json/value.c b/cee-json/value.c
index ed90e8e..f4ba5f8 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -687,6 +687,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
-- 
2.43.0


From cb9b6743415e9952263cb4e4569152ef431d74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 48/75] fix: merging json files reports that the result could
 not be written

---
 cee-json/cee_json_merge.c   | 4 ++--
 cee-json/release/cee-json.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..ea5e8f2 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -51,9 +51,9 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  bool saved = cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return saved ? 0 : 1;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 58114c6..967d1ef 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2367,11 +2367,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  bool saved = cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return saved ? 0 : 1;
 }
 
 #endif
-- 
2.43.0


From f262372611b000ce2f987cc18de5960f5cd21ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 49/75] fix: a statement with an unbound parameter was left
 open

---
 sqlite3/cee-sqlite3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..862ba15 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,9 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          sqlite3_finalize(sql_stmt);
+          if( sql_stmt_pp )
+            *sql_stmt_pp = NULL;
           return SQLITE_ERROR;
         }
       }
@@ -420,6 +423,7 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
   if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
+    sqlite3_finalize(stmt);
     if( status ){
       accept_result(state, status, &result);
       cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-- 
2.43.0


From b2d00e95f6e605c8a9999de54da6ee104fee4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 50/75] fix: a select failing after its first row never ended

---
 sqlite3/cee-sqlite3.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 862ba15..e452a8b 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -422,7 +422,14 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
-  if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
+    if( f(cls, state, info, stmt) ){
+      sqlite3_finalize(stmt);
+      return SQLITE_DONE;
+    }
+    rc = sqlite3_step(stmt);
+  }
+  if( rc != SQLITE_DONE ){
     sqlite3_finalize(stmt);
     if( status ){
       accept_result(state, status, &result);
@@ -431,13 +438,6 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
     }
     return rc;
   }
-  while( rc != SQLITE_DONE ){
-    if( f(cls, state, info, stmt) ){
-      sqlite3_finalize(stmt);
-      return SQLITE_DONE;
-    }
-    rc = sqlite3_step(stmt);
-  }
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From 8fefd3fcd4c073dc3085df2f555e70f2029f9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 51/75] fix: binding a json value left the null flag and size
 of the previous value in place

---
 sqlite3/cee-sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index e452a8b..a2c4504 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -638,6 +638,7 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         return 0;
       }
 
+      data[i].is_null = 0;
       switch( info[i].type ){
       case CEE_SQLITE3_UNDEF:
         if( p->errors )
@@ -670,6 +671,7 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_TEXT:
         if( (data[i].value = cee_json_to_str(value)->_) ){
+          data[i].size = 0;
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
-- 
2.43.0


From 46e20f29b2ea5f34e0823ebcbe36ce87181a09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 52/75] fix: update_if_exists reported the changes of the whole
 connection as updated rows

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index a2c4504..e8e1e87 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -370,7 +370,7 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
                          cs->db_name, rc, update, sqlite3_errmsg(db));
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
-                              sqlite3_total_changes(db));
+                              sqlite3_changes(db));
   }
   return rc;
 }
-- 
2.43.0


From 0ea53d88eadc9e887499c73ffcff5479ed7727b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 53/75] fix: update_or_insert inserted when looking for the row
 failed

---
 sqlite3/cee-sqlite3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index e8e1e87..258c997 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -260,6 +260,9 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
     rc = cee_sqlite3_bind_run_sql(cs, info, data, update, NULL, status);
     if( rc != SQLITE_DONE )
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, update, sqlite3_errmsg(db));
+  }else if( rc != SQLITE_DONE ){
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   }else{
     char *insert = stmts->insert_dynamic ? stmts->insert_stmt_x : stmts->insert_stmt;
     rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
-- 
2.43.0


From ec6aee93ce65e1f95457d48c022c9edea7380b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 54/75] fix: delete reported the rows of an earlier statement
 when it failed

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 258c997..61a506d 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -323,7 +323,7 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
 		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
+  else if( key )
     cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
   else
     cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
-- 
2.43.0


From c88a286b16c7556f0fc0d2ce5ce40ca32d0b44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 55/75] fix: cee_json_to_bind_info gave every remaining
 variable the first key

---
 sqlite3/cee-sqlite3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 61a506d..a84063c 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1056,6 +1056,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break;
   }
   return 0;
 }
-- 
2.43.0


From 80c39e8bbb6c5b2e72568b9eeae77d768145eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 56/75] fix: row ids beyond int were reported truncated

---
 sqlite3/cee-sqlite3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index a84063c..154229e 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -270,7 +270,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -294,7 +294,7 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -597,7 +597,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From 4cad7b8636c04bfecdc6f43b55c6ff3701e1b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 57/75] fix: insert gave no row id to a caller without a status

---
 sqlite3/cee-sqlite3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 154229e..ab03189 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -299,9 +299,9 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
       cee_json_object_set_i64(result, key, row_id);
     else
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
-    if( id )
-      *id = row_id;
   }
+  if( rc == SQLITE_DONE && id )
+    *id = sqlite3_last_insert_rowid(db);
   return rc;
 }
 
-- 
2.43.0


From 6113f7fd3746206c3c4504d7596998d160bfe9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 58/75] fix: select_as returned a bare array when the caller
 had no status yet

---
 sqlite3/cee-sqlite3.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index ab03189..f095104 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1015,12 +1015,8 @@ cee_sqlite3_select_as(struct cee_sqlite3 *cs,
     return ret;
   }
 
-  if( status ){
-    if( *status )
-      cee_json_object_append(*status, key, array);
-    else
-      *status = array;
-  }
+  accept_result(cs->state, status, &result);
+  cee_json_object_append(result, key, array);
   return ret;
 }
 
-- 
2.43.0


From 00684268bfc5a95aa2b7755cdba699eed778997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 59/75] fix: select1_as crashed when no row was selected

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index f095104..afc5688 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -985,7 +985,7 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   }
 
   accept_result(cs->state, status, &result);
-  if( status ){
+  if( status && one ){
     struct cee_json *old = cee_json_object_get(*status, key);
     if( old )
       cee_json_merge(old, one);
-- 
2.43.0


From 9f7211cecbbfb294363aa6839c048b1d36c55dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 60/75] fix: a failing select crashed when its rows were to
 extend an array

---
 sqlite3/cee-sqlite3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index afc5688..72e51c5 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -435,6 +435,7 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE ){
     sqlite3_finalize(stmt);
     if( status ){
+      *status = NULL; /* an array has no place for the error */
       accept_result(state, status, &result);
       cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
       cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-- 
2.43.0


From 65afc188ddf48e61eb23b79e2a8d159fa2fc1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 61/75] fix: insert_op crashed without a status

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 72e51c5..0baa0cc 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -899,7 +899,8 @@ int cee_sqlite3_insert_op(struct cee_sqlite3 *cs,
                                       op->stmts,
                                       status,
                                       cee_sqlite3_insert_wrapper);
-  cee_json_object_rename(*status, "last_insert_rowid", "id");
+  if( status )
+    cee_json_object_rename(*status, "last_insert_rowid", "id");
   return rc;
 }
 
-- 
2.43.0


From 33d14e9d2c2f9c72e5ba6f058cb8b4db22bf4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 62/75] fix: operations ran with part of the input when a value
 had the wrong type

---
 sqlite3/cee-sqlite3.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 0baa0cc..df3857c 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -829,6 +829,11 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
       cee_segfault();
     aaa.info = cee_json_to_bind_info(json);
   }
+  if( cee_json_select(aaa.errors, "[0]") ){
+    if( result )
+      cee_json_object_set(result, "error", aaa.errors);
+    return SQLITE_ERROR;
+  }
   compose_dyn_stmts(json, &aaa);
 
   if( stmts->update_template ){
@@ -867,10 +872,7 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
     cee_del(aaa.unused);
 
   cee_json_object_set(result, "debug", debug);
-  if( cee_json_select(aaa.errors, "[0]") )
-    cee_json_object_set(result, "error", aaa.errors);
-  else
-    cee_del(aaa.errors);
+  cee_del(aaa.errors);
 
   return rc;
 }
-- 
2.43.0


From b0367c626ae04e6b0210d2dcd49dd8e4be04e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 63/75] fix: a blob given as json crashed when the caller
 wanted no errors

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index df3857c..7be9cd5 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -688,7 +688,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
                                    info[i].col_name);
         return 1;
       }
-- 
2.43.0


From e13a4187701ffeb55e2ec6a900a7a72ec5f54aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 64/75] fix: update did not report that there was no row to
 update

---
 sqlite3/cee-sqlite3.c | 55 +++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 7be9cd5..4e45243 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -331,26 +331,11 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
 }
 
 
-int cee_sqlite3_update(struct cee_sqlite3 *cs,
-                       struct cee_sqlite3_bind_info *info,
-                       struct cee_sqlite3_bind_data *data,
-                       struct cee_sqlite3_stmt_strs *stmts,
-                       struct cee_json **status)
-{
-  int rc;
-  rc = cee_sqlite3_update_if_exists(cs, info, data, stmts, status);
-  if( rc == SQLITE_OK )
-    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
-                       cs->db_name, rc, stmts->select_stmt,
-                       sqlite3_errmsg(cs->db));
-  return rc;
-}
-
-int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
-                                struct cee_sqlite3_bind_info *info,
-                                struct cee_sqlite3_bind_data *data,
-                                struct cee_sqlite3_stmt_strs *stmts,
-                                struct cee_json **status){
+static int update_existing(struct cee_sqlite3 *cs,
+                           struct cee_sqlite3_bind_info *info,
+                           struct cee_sqlite3_bind_data *data,
+                           struct cee_sqlite3_stmt_strs *stmts,
+                           struct cee_json **status, bool *found){
   int rc;
   struct cee_json *result = NULL;
   sqlite3 *db = cs->db;
@@ -358,6 +343,7 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
   accept_result(cs->state, status, &result);
 
   rc = cee_sqlite3_bind_run_sql(cs, info, data, stmts->select_stmt, NULL, status);
+  *found = rc == SQLITE_ROW;
   if( rc == SQLITE_ROW ){
     char *update = stmts->update_stmt ? stmts->update_stmt : stmts->update_stmt_x;
     if( !update ){
@@ -378,6 +364,35 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
   return rc;
 }
 
+int cee_sqlite3_update(struct cee_sqlite3 *cs,
+                       struct cee_sqlite3_bind_info *info,
+                       struct cee_sqlite3_bind_data *data,
+                       struct cee_sqlite3_stmt_strs *stmts,
+                       struct cee_json **status)
+{
+  bool found;
+  int rc = update_existing(cs, info, data, stmts, status, &found);
+  if( !found )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt,
+                       rc == SQLITE_DONE ? "no row to update" : sqlite3_errmsg(cs->db));
+  return rc;
+}
+
+int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
+                                struct cee_sqlite3_bind_info *info,
+                                struct cee_sqlite3_bind_data *data,
+                                struct cee_sqlite3_stmt_strs *stmts,
+                                struct cee_json **status){
+  bool found;
+  int rc = update_existing(cs, info, data, stmts, status, &found);
+  if( !found && rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt,
+                       sqlite3_errmsg(cs->db));
+  return rc;
+}
+
 static bool
 dont_return_colum(struct cee_sqlite3_bind_info *info, char *colum_name)
 {
-- 
2.43.0


From 5bbf86820e53f5486278b06bb963619ee45549db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 65/75] fix: select_op always crashed when its result was
 wanted

---
 sqlite3/cee-sqlite3.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 4e45243..4803baa 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -965,12 +965,23 @@ cee_sqlite3_select_op(struct cee_sqlite3 *cs,
                      struct cee_sqlite3_db_op *op,
                      struct cee_json *json,
                      struct cee_json **status) {
-  return cee_sqlite3_generic_opcode(cs, json,
-                                    op->info,
-                                    op->data,
-                                    op->stmts,
-                                    status,
-                                    cee_sqlite3_select_wrapper);
+  /* the result is an array, it has no place for the keys of generic_opcode */
+  struct cee_sqlite3_bind_info *info = op->info;
+  struct cee_json *errors = NULL, *result = NULL, *error;
+  if( info == NULL )
+    info = cee_json_to_bind_info(json);
+  else
+    cee_sqlite3_bind_data_from_json(info, op->data, json, NULL, NULL, &errors);
+
+  if( errors && (error = cee_json_select(errors, "[0]")) ){
+    if( status ){
+      *status = NULL;
+      accept_result(cs->state, status, &result);
+      cee_json_set_error(status, "SQL:%s:%s", cs->db_name, cee_json_to_str(error)->_);
+    }
+    return SQLITE_ERROR;
+  }
+  return cee_sqlite3_select(cs, info, op->data, op->stmts->select_stmt, status);
 }
 
 
-- 
2.43.0


From 2e7baa5b1d25e90d056369c6ba9027788397a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 66/75] fix: next_int cut long queries and overflowed after the
 largest int

---
 sqlite3/cee-sqlite3.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 4803baa..5b20b22 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <alloca.h>
+#include <limits.h>
 
 void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool transaction){
   sqlite3 *db = NULL;
@@ -1111,9 +1112,8 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  char *qx = cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                        int_column_name, from_clause)->_;
 
   struct cee_json *input = NULL, *max_value = NULL;
   cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
@@ -1124,7 +1124,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 
   if( (max_value = cee_json_select(input, ".max_value:n")) ){
     int int_value = 0;
-    if( !cee_json_to_intx(max_value, &int_value) )
+    if( !cee_json_to_intx(max_value, &int_value) && int_value < INT_MAX )
       return int_value + 1;
   }else if( cee_json_select(input, ".max_value:!") ){
     /* no rows */
-- 
2.43.0


From a0ab1aa79371a5b98934b313f7b0dd8e1e55a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 67/75] fix: inserting objects of 50 or more keys overran the
 stack

---
 sqlite3/cee-sqlite3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 5b20b22..772f8e0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1139,7 +1139,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info;
   int idx;
 };
 
@@ -1196,6 +1196,8 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   struct insert_columns_values one_ctx = {0};
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
+  one_ctx.info = cee_block_mk(state, (cee_map_size(cee_json_to_object(one)) + 1)
+                                     * sizeof(struct cee_sqlite3_bind_info));
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
   size = snprintf(NULL, 0, "insert into %s (%s) values (%s);",
                   p->table_name,
-- 
2.43.0


From 81e68dd16694e08e2cf3fbb42b8a4e73e5b548c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 68/75] fix: joining bound the value of another object for
 int64 columns and values of another type

---
 sqlite3/join.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..a799ecc 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -30,9 +30,12 @@ static int join_one (void *ctx, void *elem, int idx) {
                                info[i].col_name, info[i].var_name);
       return 1; /* stop */
     }
+    item->is_null = 0;
     switch( value->t ){
       case CEE_JSON_I64:
-        if( cee_json_to_intx(value, &item->i) ){
+        if( info[i].type == CEE_SQLITE3_INT64 )
+          cee_json_to_i64x(value, &item->i64);
+        else if( info[i].type != CEE_SQLITE3_INT || cee_json_to_intx(value, &item->i) ){
           cee_json_object_set_strf(
             one, "error", "failed to convert json key %s's value to int",
             info[i].col_name);
@@ -40,7 +43,14 @@ static int join_one (void *ctx, void *elem, int idx) {
         }
         break; /* switch */
       case CEE_JSON_STRING:
+        if( info[i].type != CEE_SQLITE3_TEXT ){
+          cee_json_object_set_strf(
+            one, "error", "json key %s's value is a string, %s is not",
+            info[i].col_name, info[i].var_name);
+          return 1; /* stop */
+        }
         item->value = cee_json_to_str(value)->_;
+        item->size = 0;
         break; /* switch */
       case CEE_JSON_NULL:
         cee_json_object_set_strf(
-- 
2.43.0


From 5ca45be442bce7e441dc2c10b1eaeef8ec18bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 69/75] fix: drop_all_tables makes an open connection forget
 the dropped tables

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 772f8e0..05de7e6 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -68,7 +68,7 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
 void cee_sqlite3_drop_all_tables(sqlite3 **db, char *db_file){
   char *stmt = "PRAGMA writable_schema = 1;\n"
     "delete from sqlite_master where type in ('table', 'index', 'trigger');\n"
-    "PRAGMA writable_schema = 0;\n";
+    "PRAGMA writable_schema = RESET;\n"; /* also forgets the cached schema */
   cee_sqlite3_init_db(db, db_file, stmt, true);
 }
 
-- 
2.43.0


From ab3d143035345f081e6186db9bff81cbd1256dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 70/75] fix: cee_sqlite3_init_db closes a database that cannot
 be opened and reports its own error

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 05de7e6..d7daba9 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -13,7 +13,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From 1c4c75d32e9dcc213f3f2c6f47b73e2b9aef7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 71/75] fix: printing the settings of databases wrote beyond
 buffers that are too small

---
 sqlite3/cee_dbm.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index d526b0e..305c822 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -83,20 +83,24 @@ int cee_dbm_db_info_load(char *start, size_t size, struct cee_dbm_db_info *info)
 }
 #endif
 
+/* what is left of a buffer after offset bytes of text; nothing if it is full */
+#define REST(buf, size, offset) \
+  ((offset) < (size) ? (buf) + (offset) : NULL), ((offset) < (size) ? (size) - (offset) : 0)
+
 size_t cee_dbm_path_info_snprint(char *buf, size_t size, struct cee_dbm_path_info *s){
   size_t offset = 0;
-  offset += snprintf(buf+offset, size-offset, "schema_script_path:%s, ", s->schema_script_path);
-  offset += snprintf(buf+offset, size-offset, "data_script_path:%s, ", s->data_script_path);
-  offset += snprintf(buf+offset, size-offset, "db_file_path:%s, ", s->db_file_path);
+  offset += snprintf(REST(buf, size, offset), "schema_script_path:%s, ", s->schema_script_path);
+  offset += snprintf(REST(buf, size, offset), "data_script_path:%s, ", s->data_script_path);
+  offset += snprintf(REST(buf, size, offset), "db_file_path:%s, ", s->db_file_path);
   return offset;
 }
 
 size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *s){
   size_t offset = 0;
   offset += snprintf(buf, size, "db_kind:%s, ", s->kind);
-  offset += snprintf(buf+offset, size-offset, "create_version:%d, ", s->create_version);
-  offset += snprintf(buf+offset, size-offset, "recreate_db:%s, ", s->recreate_db ? "true":"false");
-  offset += snprintf(buf+offset, size-offset, "restore_db:%s, ", s->restore_db ? "true":"false");
+  offset += snprintf(REST(buf, size, offset), "create_version:%d, ", s->create_version);
+  offset += snprintf(REST(buf, size, offset), "recreate_db:%s, ", s->recreate_db ? "true":"false");
+  offset += snprintf(REST(buf, size, offset), "restore_db:%s, ", s->restore_db ? "true":"false");
   return offset;
 }
 
-- 
2.43.0


From 7278fdbf6388568e2bbc2de8129f18fbdf968d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 72/75] fix: the texts of path and database infos were written
 beyond buffers that are too small

---
 sqlite3/cee_dbm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 305c822..3e2b071 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -333,14 +333,17 @@ void cee_dbm_path_info2str(struct cee_dbm_path_info *info, size_t buf_size, char
   size_t remaining_size = buf_size, n;
   char *next = buf;
   n = snprintf(next, remaining_size, "schema_script_path:%s, ",  info->schema_script_path);
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 
   n = snprintf(next, remaining_size, "data_script_path:%s, ",  info->data_script_path);
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 
   n = snprintf(next, remaining_size, "db_file_path:%s",  info->db_file_path);
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 }
@@ -349,30 +352,36 @@ void cee_dbm_db_info2str(struct cee_dbm_db_info *info, size_t buf_size, char *bu
   size_t remaining_size = buf_size, n;
   char *next = buf;
   n = snprintf(next, remaining_size, "kind:%s, ",  info->kind);
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 
   n = snprintf(next, remaining_size, "file:%s, ",  info->file);
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 
   n = snprintf(next, remaining_size, "recreate_db:%s, ",
                info->recreate_db ? "true":"false");
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 
   n = snprintf(next, remaining_size, "restore_db:%s, ",
                info->restore_db ? "true":"false");
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 
   n = snprintf(next, remaining_size, "create_version:%d, ",
                info->create_version);
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 
   n = snprintf(next, remaining_size, "final_version:%d",
                info->final_version);
+  if( n >= remaining_size ) return; /* the buffer is full */
   remaining_size -= n;
   next += n;
 }
-- 
2.43.0


From 1746db7e393c0529d4408e1ac88601d9d7271948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 73/75] fix: cee_dbm_path_info_normalize replaces $HOME only at
 the start of a path and stays within the path

---
 sqlite3/cee_dbm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 3e2b071..ea7f804 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -106,9 +106,9 @@ size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *
 
 static void replace_home_env(char path[128], char *home_dir){
   char buf[128];
-  if( strstr(path, "$HOME") ){
-    int n = snprintf(buf, sizeof buf, "%s%s", home_dir, path + strlen("$HOME"));
-    memcpy(path, buf, n+1);
+  if( strncmp(path, "$HOME", strlen("$HOME")) == 0 ){
+    snprintf(buf, sizeof buf, "%s%s", home_dir, path + strlen("$HOME"));
+    memcpy(path, buf, strlen(buf)+1);
   }
 }
 
-- 
2.43.0


From a365a54fe3c0b6396a34d00d1ef5ac96e1dc50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 74/75] fix: cee_dbm_db_init makes the directory before it
 opens the log in it

---
 sqlite3/cee_dbm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index ea7f804..3ce5eb2 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -221,7 +221,6 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
                      int *db_version){
   struct cee_sqlite3 log_cs = {0};
   char log[256];
-  open_dbm_log(path_info, &log_cs.db);
 
   char db_script[128];
   char db_file[128], *kind = s->kind;
@@ -233,9 +232,6 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   else
     snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, s->file);
 
-  snprintf(log, sizeof log, "%s", db_file);
-  add_log(&log_cs, kind, "open", log);
-
   char *x, dir[128];
   if( (x = rindex(db_file, '/')) ){
     snprintf(dir, sizeof dir, "%.*s", x - db_file, db_file);
@@ -246,6 +242,10 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
     }
   }
 
+  open_dbm_log(path_info, &log_cs.db);
+  snprintf(log, sizeof log, "%s", db_file);
+  add_log(&log_cs, kind, "open", log);
+
   snprintf(db_script, sizeof db_script, "%s/%s_create.%d.sql",
            path_info->schema_script_path, s->kind, s->create_version);
   if( access(db_file, F_OK) == 0 ){
-- 
2.43.0


From d508043cfb27db6af7dac6e534c6c1557af51702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 75/75] fix: cee_dbm_db_backup closes the log when the database
 is missing

---
 sqlite3/cee_dbm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 3ce5eb2..3a02b7b 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -410,6 +410,7 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
   if( access(db_file, F_OK) != 0 ){
     snprintf(log, sizeof log, "%s does not exist", db_file);
     add_log(&log_cs, kind, "backup_failed", log);
+    sqlite3_close(log_cs.db);
     return false;
   }
 
-- 
2.43.0

