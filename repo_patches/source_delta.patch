From 9726684814f567959c1d69336ce6f80fd87a9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:02 +0000
Subject: [PATCH 01/41] fix: metac_recursive_iterator_free accepts NULL as the
 other iterator functions do

metac_new_recursive_iterator returns NULL when memory is exhausted; every
walker passes that result to metac_recursive_iterator_free unconditionally.
---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 4d4738a..e1c9f0d 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -85,6 +85,9 @@ metac_recursive_iterator_t * metac_new_recursive_iterator(void * p_in) {
 }
 
 void metac_recursive_iterator_free(metac_recursive_iterator_t * p_iterator) {
+    if (p_iterator == NULL) {
+        return;
+    }
     metac_cleanup_recursive_iterator_entry(&p_iterator->recursive_iterator_entry);
     free(p_iterator);
 }
-- 
2.43.0


From 3e899c84f08922b4b9ef13338ac6f74c86302b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:02 +0000
Subject: [PATCH 02/41] fix: forget the last dependency once the iterator's
 queue is empty

create_and_append_dep asserts last_dep == NULL for an empty queue, so a task
that queued dependencies again after having dequeued all of them aborted.
---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index e1c9f0d..4d36eba 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -287,6 +287,9 @@ void * metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_
     recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);
     assert(metac_r_iter_state_is_end(p_entry->state));
     LIST_REMOVE(p_entry, links);
+    if (LIST_EMPTY(&p_iterator->p_current->deps)) {
+        p_iterator->p_current->last_dep = NULL;
+    }
 
     void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
     metac_recursive_iterator_entry_free(p_entry);
-- 
2.43.0


From 7ede097d451ae7c4da318ba67550d6c1083346f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:02 +0000
Subject: [PATCH 03/41] fix: metac_entry_cdecl must not finish a failed task
 again

When the text of a typedef or base type could not be allocated the task was
failed and then completed, which trips the iterator's assertion.
---
 src/entry_cdecl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 49547cc..931929f 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -62,6 +62,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 char * res = dsprintf("%s %%s",p->name);
                 if (res == NULL) {
                     metac_recursive_iterator_fail(p_iter);
+                    continue;
                 }
                 metac_recursive_iterator_done(p_iter, res);
                 continue;
-- 
2.43.0


From aa3ada3e4d80de1c54f96d1c4438fc29cb4453d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:02 +0000
Subject: [PATCH 04/41] fix: metac_entry_cdecl released partially built text
 twice

If extending the list of members or parameters failed, the old text was
released right away and once more by the failure handling.
---
 src/entry_cdecl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 931929f..3af4b2c 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -319,11 +319,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (res != NULL) {
                                 free(res);
                             }
+                            res = new_res;
                             if (new_res == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            res = new_res;
                         }
                         if (failure != 0) {
                             if (res != NULL) {
@@ -421,11 +421,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 if (param != NULL) {
                                     free(param);
                                 }
+                                params = new_params;
                                 if (new_params == NULL) {
                                     failure = 1;
                                     break;
                                 }
-                                params = new_params;
                             }
                         }
                         if (failure != 0){
@@ -532,11 +532,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (param != NULL) {
                                 free(param);
                             }
+                            params = new_params;
                             if (new_params == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            params = new_params;
                         }
                         if (failure != 0) {
                             if (params != NULL) {
-- 
2.43.0


From 9e61e12ad48745a310f6f50f878dea76ce72baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:02 +0000
Subject: [PATCH 05/41] fix: metac_entry_cdecl drains the queue before failing
 a function type

A function (type) whose declaration could not be built failed with parameter
declarations still queued: their text leaked and the iterator aborted.
---
 src/entry_cdecl.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 3af4b2c..62428a9 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -383,7 +383,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subprogram_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -435,7 +435,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // append type_pattern with (%s)
@@ -469,6 +469,16 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
+                    case 2: { // fail-cleanup
+                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                            if (type_pattern != NULL){
+                                free(type_pattern);
+                            }
+                        }
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                 }
             }
             break;
@@ -495,7 +505,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subroutine_type_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                metac_recursive_iterator_set_state(p_iter, 2);
                                 continue;
                             }
                         }
@@ -545,7 +555,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            metac_recursive_iterator_set_state(p_iter, 2);
                             continue;
                         }
                         // append type_pattern with (%s)
@@ -577,6 +587,16 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         metac_recursive_iterator_done(p_iter, res);
                         continue;
                     }
+                    case 2: { // fail-cleanup
+                        while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+                            char * type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
+                            if (type_pattern != NULL){
+                                free(type_pattern);
+                            }
+                        }
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
                 }
             }break;
             default: {
-- 
2.43.0


From 631b8ed18ba88ce43d241efe1213f1db71a4e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 06/41] fix: metac_value_delete accepts NULL

The tag handlers hand it member and parameter values that could not be
created (they create, look at the name, delete), and
metac_value_with_call_params_delete passes its argument on unchecked.
---
 src/value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value.c b/src/value.c
index 1d15d06..01f6b70 100644
--- a/src/value.c
+++ b/src/value.c
@@ -788,6 +788,9 @@ metac_value_t * metac_new_value_from_value(metac_value_t * p_val) {
 }
 
 void metac_value_delete(metac_value_t * p_val) {
+    if (p_val == NULL) {
+        return;
+    }
     // cleanup entry if it's dynamic (init creates a copy of dynamic entries)
     if (metac_entry_is_dynamic(p_val->p_entry)!=0){
         metac_entry_delete(p_val->p_entry);
-- 
2.43.0


From 53fb378ac3a0b0473de809b0dfc6159f5ec8731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 07/41] fix: parameter queries on a NULL value fail instead of
 crashing

metac_value_parameter_count and metac_value_parameter_new_item looked into the
value before checking it; metac_handle_printf_format reaches that with a
hierarchy that has no value.
---
 src/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value.c b/src/value.c
index 01f6b70..5922cdd 100644
--- a/src/value.c
+++ b/src/value.c
@@ -679,7 +679,7 @@ metac_flag_t metac_value_has_parameter_load(metac_value_t * p_val) {
 }
 
 metac_num_t metac_value_parameter_count(metac_value_t * p_val) {
-    _check_(metac_entry_has_parameter_load(p_val->p_entry) == 0, 0);
+    _check_(metac_value_has_parameter_load(p_val) == 0, 0);
 
 
     metac_parameter_storage_t * p_pload = p_val->addr;
@@ -689,7 +689,7 @@ metac_num_t metac_value_parameter_count(metac_value_t * p_val) {
 }
 
 metac_value_t * metac_value_parameter_new_item(metac_value_t * p_val, metac_num_t id) {
-    _check_(metac_entry_has_parameter_load(p_val->p_entry) == 0, 0);
+    _check_(metac_value_has_parameter_load(p_val) == 0, 0);
 
  
     // we have checked metac_entry_has_parameter_load in the beginning, so it's unspecified or va_list
-- 
2.43.0


From fadb4ae0c7db1553ca4975e9813a20ac699240ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 08/41] fix: metac_new_value_with_call_params releases the
 storage if the value can not be created

---
 src/value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value.c b/src/value.c
index 5922cdd..5915d2e 100644
--- a/src/value.c
+++ b/src/value.c
@@ -805,6 +805,9 @@ metac_value_t * metac_new_value_with_call_params(metac_entry_t *p_entry) {
     metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
     if (p_param_storage != NULL) {
         p_val = metac_new_value(p_entry, p_param_storage);
+        if (p_val == NULL) {
+            metac_parameter_storage_delete(p_param_storage);
+        }
     }
     return p_val;
 }
-- 
2.43.0


From 0cb7675b0b82342262fbf236b792da40500a2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 09/41] fix: metac_handle_printf_format lost the format
 parameter when the entry has no such parameter

---
 src/entry_tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index abe4eec..319fc19 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -800,6 +800,7 @@ int metac_handle_printf_format(metac_value_walker_hierarchy_t *p_hierarchy, meta
     metac_value_t *p_param_val = metac_value_parameter_new_item(p_val, p_ev->va_list_param_id -1 /* use previous param */);
 
     if (p_va_list_entry == NULL) {
+        metac_value_delete(p_param_val);
         return -(EINVAL);
     }
 
-- 
2.43.0


From e599a59f74b21aceb870405e48f15834a33cb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 10/41] fix: metac_tag_map_set_tag lost the copied tag string
 when the map could not grow

---
 src/entry_tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 319fc19..ebed8ef 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -227,6 +227,9 @@ static int _tag_map_set_tag(metac_tag_map_t * p_tag_map,
     metac_entry_tag_t *p_prev_tag = NULL;
     
     if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry, (void*)p_local_tag, (void**)&p_prev_tag) != 0) {
+        if (p_local_tag->p_tagstring != NULL) {
+            free(p_local_tag->p_tagstring);
+        }
         free(p_local_tag);
         return -(EFAULT);
     }
-- 
2.43.0


From 9479da51d7df20e89ae4dc3260bb89b71e0165b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 11/41] fix: hashmapPut reports no previous value when memory
 allocation fails

The header promises *p_res = NULL in that case; it was left unset.
---
 src/hashmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index 8a73998..4d43085 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -197,6 +197,9 @@ int hashmapPut(Hashmap* map, void* key, void* value, void ** p_res) {
         if (current == NULL) {
             *p = createEntry(key, hash, value);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             map->size++;
-- 
2.43.0


From c0079dc0b87135be9dcb746dc454fc384e86ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:56 +0000
Subject: [PATCH 12/41] fix: appending a nested parameter storage reports when
 it can not be allocated

The check looked at p_entry (already used above) instead of the new storage,
so a parameter without storage was appended and success reported.
---
 src/value_with_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4ba049e..225063a 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -151,7 +151,7 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
     assert(metac_entry_is_unspecified_parameter(p_entry) != 0 || metac_entry_is_va_list_parameter(p_entry) != 0);
 
     metac_parameter_storage_t * p_inner_param_storage = metac_new_parameter_storage();
-    _check_(p_entry == NULL, -(ENOMEM));
+    _check_(p_inner_param_storage == NULL, -(ENOMEM));
 
     metac_parameter_t * p_param = _parameter_storage_append_by_buffer(p_param_storage,
         0,
-- 
2.43.0


From a72a5d661f635a2eca6a5816af50190a6f78d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:56 +0000
Subject: [PATCH 13/41] fix: wrapping parameters lost the value of a va_list or
 ... parameter without a handler

---
 src/value_with_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 225063a..4c99e1f 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -302,8 +302,8 @@ static void _handle_subprogram(
                 if (local != 0){
                     va_end(local_cntr.parameters);
                 }
-                metac_value_delete(ev.p_return_value);
             }
+            metac_value_delete(ev.p_return_value);
         } else { /* normal param */
             void * addr = NULL;
 
-- 
2.43.0


From 73f16f37cfdfb76f067ac055d71da8a4df16c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:56 +0000
Subject: [PATCH 14/41] fix: wrapping parameters must not release a buffer that
 belongs to the storage

If a structure could not be taken from va_list its buffer was released, and
released again together with the parameter storage that still refers to it.
---
 src/value_with_args.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4c99e1f..e440ff8 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -430,8 +430,7 @@ static void _handle_subprogram(
 
                         if (addr != NULL) {
                             if (metac_entry_struct_va_arg(p_param_type_entry, p_va_list_container, addr) == 0) {
-                                free(addr);
-                                addr = NULL;
+                                addr = NULL; // the buffer stays with p_subprog_load
                                 break;
                             }
                         }
-- 
2.43.0


From 213106f6887969ba55992034b80adf46bfd49f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:56 +0000
Subject: [PATCH 15/41] fix: wrapping parameters reported success without
 wrapping anything when out of memory

---
 src/value_with_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index e440ff8..3a4a760 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -474,7 +474,7 @@ static metac_value_t * _value_parameter_wrap(metac_value_t * p_val, metac_tag_ma
         }
     }
     // check iterator result
-    int failed = 0;
+    int failed = (p_iter == NULL);
     metac_recursive_iterator_get_out(p_iter, NULL, &failed);
     if (failed != 0) {
         metac_value_delete(p_val);
-- 
2.43.0


From e6bab9fd71b13dce9365290c291f95630ccd3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:18 +0000
Subject: [PATCH 16/41] fix: metac_value_string_ex fails when a part of the
 value can not be queued

Values that could not be queued leaked, and the text was built without the
missing members, elements or parameters as if they did not exist.
---
 src/value_string.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 2844c7c..725486e 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -238,7 +238,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 continue;                        
                             }
                             /* try to process everything as array */
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val) != 0) {
+                                metac_value_delete(p_arr_val);
+                                metac_recursive_iterator_fail(p_iter);
+                                continue;
+                            }
                             metac_recursive_iterator_set_state(p_iter, 1);
                             continue;
                         }
@@ -326,8 +330,10 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    if (ev.p_return_value != NULL) {
-                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                    if (ev.p_return_value != NULL &&
+                                        metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value) != 0) {
+                                        metac_value_delete(ev.p_return_value);
+                                        failure = 1;
                                     }
                                 }
                             }
@@ -339,7 +345,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
+                                metac_value_delete(p_memb_val);
+                                failure = 1;
+                                break;
+                            }
                         }
                     }
                     if (failure != 0) {
@@ -508,7 +518,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
+                            metac_value_delete(p_el_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (p_non_flexible != NULL) {
                         metac_value_delete(p_non_flexible);
@@ -605,7 +619,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val) != 0) {
+                            metac_value_delete(p_param_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
-- 
2.43.0


From 50a7fcf42dd7c0cecca8311a2b1141f15ac0e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:18 +0000
Subject: [PATCH 17/41] fix: metac_value_string_ex released the wrong string
 when a parameter type can not be printed

The text built so far was released here and again by the failure handling,
while the text of the current parameter was lost.
---
 src/value_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 725486e..4851006 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -651,7 +651,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_cdecl = metac_entry_cdecl(metac_value_entry(p_param_val));
                             metac_value_delete(p_param_val);
                             if (param_cdecl == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -659,7 +659,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_type = dsprintf(param_cdecl, "");
                             free(param_cdecl);
                             if (param_type == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
-- 
2.43.0


From 101d63a89b00996e933a3231d5057dfdaf739ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 18/41] fix: metac_new_value_memory_map_ex lost its copy of the
 value when out of memory

---
 src/value_deep.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/value_deep.c b/src/value_deep.c
index 1e44f49..28540bc 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -336,12 +336,14 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
 
     struct metac_memory_map *p_map = calloc(1, sizeof(*p_map));
     if (p_map == NULL) {
+        metac_value_delete(p_val);
         return NULL;
     }
     if (p_map_mode->memory_block_mode == METAC_MMODE_dag) {
         p_map->p_addr_ptr_val_to_memory_entry = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
         if (p_map->p_addr_ptr_val_to_memory_entry == NULL) {
             free(p_map);
+            metac_value_delete(p_val);
             return NULL;
         }
     }
-- 
2.43.0


From 40d54e313a740a5e032db33df9075ec2e6128e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 19/41] fix: metac_new_value_memory_map_ex fails when a part of
 the value can not be queued

Parts that could not be queued were lost and the map was built without
them. A pointer whose map entry could not be allocated failed with its
target still queued, which aborts in the iterator. A union that can not be
handled left the inner switch and was processed as if it were a pointer.
---
 src/value_deep.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 28540bc..22601fc 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -405,14 +405,17 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                             continue;
                                         }
                                         if (ev.p_return_value != NULL) {
-                                            metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value);
+                                            if (metac_recursive_iterator_create_and_append_dep(p_iter, ev.p_return_value) != 0) {
+                                                metac_value_delete(ev.p_return_value);
+                                                metac_recursive_iterator_fail(p_iter);
+                                                continue;
+                                            }
                                             children_count = 1;
                                         }
                                     }
                                 }
                                 if (children_count == 0 && p_map_mode->union_mode == METAC_UNION_fail) {
                                     failure = 1;
-                                    break;
                                 }
                             }
                         } else { /* structs, classes must go over all members */
@@ -422,7 +425,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     failure = 1;
                                     break;
                                 }
-                                metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val);
+                                if (metac_recursive_iterator_create_and_append_dep(p_iter, p_memb_val) != 0) {
+                                    metac_value_delete(p_memb_val);
+                                    failure = 1;
+                                    break;
+                                }
                                 ++children_count;
                             }
                         }
@@ -478,7 +485,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 failure = 1;
                                 break;
                             }
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val);
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p_el_val) != 0) {
+                                metac_value_delete(p_el_val);
+                                failure = 1;
+                                break;
+                            }
                             ++children_count;
                         }
 
@@ -684,12 +695,19 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         continue;                        
                     }
                     /* finally we have p_arr_val which will be the child */
-                    metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val);
                     struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 1);
                     if (p_memory_entry == NULL) {
+                        metac_value_delete(p_arr_val);
                         metac_recursive_iterator_fail(p_iter);
                         continue;                 
                     }
+                    if (metac_recursive_iterator_create_and_append_dep(p_iter, p_arr_val) != 0) {
+                        metac_value_delete(p_arr_val);
+                        p_memory_entry->p_val = NULL; // p_in stil must exist if we fail
+                        metac_memory_entry_delete(p_memory_entry);
+                        metac_recursive_iterator_fail(p_iter);
+                        continue;
+                    }
 
                     metac_recursive_iterator_set_context(p_iter, p_memory_entry);
                     metac_recursive_iterator_set_state(p_iter, 1);
@@ -775,7 +793,11 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             failure = 1;
                             break;
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p_param_val) != 0) {
+                            metac_value_delete(p_param_val);
+                            failure = 1;
+                            break;
+                        }
                     }
                     if (failure != 0) {
                         metac_recursive_iterator_set_state(p_iter, 2);  /* failure cleanup */
-- 
2.43.0


From f6085e0ec9927d6f54225512768859d7becc9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 20/41] fix: metac_new_value_memory_map_ex read deleted entries
 after a part of the value failed

When one member fails, the entries of its subtree are deleted, but the
address map still had them. A later member pointing to the same address
then read the deleted entry.
---
 src/value_deep.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 22601fc..ac60857 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -348,6 +348,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
         }
     }
 
+    metac_flag_t has_failed = 0; /* once something failed the map refers to deleted entries and must not be used */
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
@@ -556,6 +557,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    has_failed = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
@@ -720,6 +722,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                     metac_value_t * p_memb_val = NULL;
                     struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
                     if (p_member_memory_entry == NULL) {
+                        has_failed = 1;
                         if (p_memb_val != NULL) {
                             metac_value_delete(p_memb_val);
                         }
@@ -738,7 +741,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                     p_memory_entry->pp_children[0] = p_member_memory_entry;
                     p_member_memory_entry->p_parent = p_memory_entry;
                     /* if in DAG mode - keep also info about new entries where pointers point in hashmap*/
-                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL && has_failed == 0) {
                         void * addr = metac_value_addr(p_member_memory_entry->p_val);
 
                         if (hashmapContainsKey(p_map->p_addr_ptr_val_to_memory_entry, addr) != 0) {
@@ -747,6 +750,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 (struct metac_memory_entry *)hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, addr);
                             if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size) {
                                 if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                    has_failed = 1;
                                     // p_in stil must exist if we fail
                                     if (p_memory_entry->p_val == p) {
                                         p_memory_entry->p_val = NULL;
@@ -758,6 +762,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             }
                         } else {
                             if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                has_failed = 1;
                                 // p_in stil must exist if we fail
                                 if (p_memory_entry->p_val == p) {
                                     p_memory_entry->p_val = NULL;
@@ -847,6 +852,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    has_failed = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
-- 
2.43.0


From 9fb3d4d5dc8ccf7c7ba4a326757b059baa4808b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 21/41] fix: metac_value_memory_map_delete accepts NULL

---
 src/value_deep.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value_deep.c b/src/value_deep.c
index ac60857..daee5cb 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -219,6 +219,9 @@ static bool addr_ptr_key_equals(void* keyA, void* keyB) {
 }
 
 void metac_value_memory_map_delete(struct metac_memory_map * p_map) {
+    if (p_map == NULL) {
+        return;
+    }
     if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
         hashmapFree(p_map->p_addr_ptr_val_to_memory_entry);
     }
-- 
2.43.0


From b8ba8dcbc48417188f28d74c74c07b667dc085d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 22/41] fix: metac_memory_entry_delete leaked entries when out
 of memory

Deleting went through an iterator, which allocates: without memory nothing
or only a part was released. Walk over the parent links instead.
---
 src/value_deep.c | 50 +++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index daee5cb..69d91fc 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -174,41 +174,27 @@ void metac_memory_entry_delete(struct metac_memory_entry * p_memory_entry) {
     if (p_memory_entry == NULL) {
         return;
     }
-    metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_memory_entry);
-    for (struct metac_memory_entry * p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter); p != NULL;
-        p = (struct metac_memory_entry *)metac_recursive_iterator_next(p_iter)) {
-        int state = metac_recursive_iterator_get_state(p_iter);
-        switch (state) {
-            case METAC_R_ITER_start: {
-                if (p->p_val != NULL) {
-                    metac_value_delete(p->p_val);
-                }
-                if (p->children_count == 0) {
-                    assert(p->pp_children == NULL);
-                    free(p);
-                    metac_recursive_iterator_done(p_iter, NULL);
-                    continue;
-                }
-                for (metac_num_t i = 0; i < p->children_count; ++i) {
-                    if (p->pp_children[i] != NULL) {
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
-                    }
-                }
-                metac_recursive_iterator_set_state(p_iter, 1);
-                continue;
-            }
-            case 1: {
-                while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
-                    metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
-                }
-                free(p->pp_children);
-                free(p);
-                metac_recursive_iterator_done(p_iter, NULL);
-                continue;
+    /* children are detached one by one, p_parent leads back. releasing memory must not need memory */
+    struct metac_memory_entry * p = p_memory_entry;
+    p->p_parent = NULL;
+    while (p != NULL) {
+        if (p->children_count > 0) {
+            --p->children_count;
+            struct metac_memory_entry * p_child = p->pp_children[p->children_count];
+            if (p_child != NULL) {
+                p_child->p_parent = p;
+                p = p_child;
             }
+            continue;
+        }
+        struct metac_memory_entry * p_parent = p->p_parent;
+        if (p->p_val != NULL) {
+            metac_value_delete(p->p_val);
         }
+        free(p->pp_children);
+        free(p);
+        p = p_parent;
     }
-    metac_recursive_iterator_free(p_iter);
 }
 
 static int addr_ptr_key_hash(void* key) {
-- 
2.43.0


From 82fba4d1c2896a8092ad9280b08320b76982f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 23/41] fix: metac_value_copy_ex must release preallocated
 blocks with free_fn

---
 src/value_deep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 69d91fc..c39631d 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -973,7 +973,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
             return false;
         }
         if (hashmapPut(p_context->src_to_dst, key, dst, NULL) != 0) {
-            free(dst);
+            p_context->free_fn(dst);
             p_context->preallocation_failed = 1;
             return false;
         }
-- 
2.43.0


From 48aa95ac456e0257f3d1838ad4d8ba1dac2aad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:29 +0000
Subject: [PATCH 24/41] fix: metac_value_copy_ex in tree mode releases
 everything it allocated when it fails

Only the block of the failed pointer was released - with libc's free instead
of free_fn; blocks allocated for its already copied siblings or for a
destination that can not be set were lost.
---
 src/value_deep.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index c39631d..ed0612b 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1061,13 +1061,14 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         return NULL;
     }
 
+    /* keeps all allocated blocks (in tree mode by their own address) to release them if we fail */
+    context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
+    if (context.src_to_dst == NULL) {
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;   
+    }
     if (p_mode->memory_block_mode != METAC_MMODE_tree) {
         /* preparations are needed for that mode - we need to allocate memory for all allocatable blocks */
-        context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
-        if (context.src_to_dst == NULL) {
-            metac_value_memory_map_delete(context.p_map);
-            return NULL;   
-        }
         hashmapForEach(context.p_map->p_addr_ptr_val_to_memory_entry, _value_copy_preallocate, &context);
 
         if (context.preallocation_failed != 0) {
@@ -1109,6 +1110,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
+                                if (hashmapPut(context.src_to_dst, p_dst_children_addr_override, p_dst_children_addr_override, NULL) != 0) {
+                                    free_fn(p_dst_children_addr_override);
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
                                 break;
                             case METAC_MMODE_dag:
                             default:
@@ -1245,13 +1251,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
-                            /*need to free memory in that case */
-                            assert(p->children_count == 1);
-                            void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
-                            assert(p_dst_children_addr_override != NULL);
-                            free (p_dst_children_addr_override);
-                        }
                         metac_value_delete((metac_value_t*)p_children->private_data);
                         p_children->private_data = NULL;
                     }
-- 
2.43.0


From 1ad385dada942a540420ec0b0049770eddeed306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:29 +0000
Subject: [PATCH 25/41] fix: metac_value_copy_ex fails when it runs out of
 memory in the middle

Children without a destination value aborted or crashed, children that
could not be queued were not copied and the copy was reported as complete.
---
 src/value_deep.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index ed0612b..76d9b04 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1217,32 +1217,54 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         continue;   
                     }
 
+                    metac_flag_t failure = 0;
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
                         if (p->pp_children[i] != NULL) {
-                            p->pp_children[i]->private_data = metac_parameter_storage_new_param_value(p_dst_param_storage, i);
-                            metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                            metac_value_t * p_param_val = metac_parameter_storage_new_param_value(p_dst_param_storage, i);
+                            if (p_param_val == NULL) {
+                                failure = 1;
+                                break;
+                            }
+                            if (metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]) != 0) {
+                                metac_value_delete(p_param_val);
+                                failure = 1;
+                                break;
+                            }
+                            p->pp_children[i]->private_data = p_param_val;
                         }
                     }
-                    metac_recursive_iterator_set_state(p_iter, 1);
+                    metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2 /* failure cleanup */);
                     continue;
                 }
                 /* complex types will be covered here: */
+                metac_flag_t failure = 0;
                 for (metac_num_t i = 0; i < p->children_count; ++i) {
                     if (p->pp_children[i] != NULL) {
+                        metac_value_t * p_child_val;
                         if (p->children_count == 1 && p_dst_children_addr_override != NULL) {
-                            p->pp_children[i]->private_data = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), p_dst_children_addr_override);
+                            p_child_val = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), p_dst_children_addr_override);
                         } else {
                             metac_size_t delta = metac_value_addr(p->pp_children[i]->p_val) - metac_value_addr(p->p_val);
-                            p->pp_children[i]->private_data = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), metac_value_addr(p_dst_val) + delta);
+                            p_child_val = metac_new_value(metac_value_entry(p->pp_children[i]->p_val), metac_value_addr(p_dst_val) + delta);
                         }
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]);
+                        if (p_child_val == NULL) {
+                            failure = 1;
+                            break;
+                        }
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p->pp_children[i]) != 0) {
+                            metac_value_delete(p_child_val);
+                            failure = 1;
+                            break;
+                        }
+                        p->pp_children[i]->private_data = p_child_val;
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2 /* failure cleanup */);
                 continue;
             }
-            case 1: {
-                int gfail = 0;
+            case 1:
+            default: {
+                int gfail = (state != 1);
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p_children = NULL;
@@ -1264,7 +1286,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
             }
         }
     }
-    int fail = 0;
+    int fail = 1; /* if there is no iterator */
     metac_recursive_iterator_get_out(p_iter, NULL, &fail);
     metac_recursive_iterator_free(p_iter);
 
-- 
2.43.0


From 489c29990962e8fb2cb58767a88893b2b9966148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:29 +0000
Subject: [PATCH 26/41] fix: metac_value_equal_ex reports a failure when it
 runs out of memory

Children that could not be queued were not compared, and without an
iterator any two values were equal.
---
 src/value_deep.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 76d9b04..58f410f 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1404,20 +1404,25 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
                     }
                 }
                 /* complex types will be covered here: */
+                metac_flag_t failure = 0;
                 for (metac_num_t i = 0; i < p1->children_count; ++i) {
                     assert(p1->pp_children[i] != NULL && p2->pp_children[i] != NULL);
                     if (p1->pp_children[i] != NULL && p2->pp_children[i] != NULL) {
                         p1->pp_children[i]->private_data = p2->pp_children[i];
-                        metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]);
+                        if (metac_recursive_iterator_create_and_append_dep(p_iter, p1->pp_children[i]) != 0) {
+                            p1->pp_children[i]->private_data = NULL;
+                            failure = 1;
+                            break;
+                        }
                     }
                 }
-                metac_recursive_iterator_set_state(p_iter, 1);
+                metac_recursive_iterator_set_state(p_iter, failure == 0 ? 1 : 2 /* failure cleanup */);
                 continue;
 
             }
             case 1:
             default: {
-                int gfail = 0;
+                int gfail = (state != 1);
                 while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                     int fail = 0;
                     struct metac_memory_entry *p1_children = NULL;
@@ -1440,7 +1445,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
         }
     }
-    int fail = 0;
+    int fail = 1; /* if there is no iterator */
     metac_recursive_iterator_get_out(p_iter, NULL, &fail);
     metac_recursive_iterator_free(p_iter);
 
-- 
2.43.0


From 8e7a88c11a5a58b5f61170ab4b1136af592e0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:29 +0000
Subject: [PATCH 27/41] fix: metac_handle_printf_format wrote %s arguments
 beyond the parameter's buffer

The buffer had the size of a pointer, but the whole string was copied.
The entry was also lost when the buffer could not be allocated.
---
 src/printf_format.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 53aa508..c429fb0 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -206,7 +206,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                                 return -(EFAULT);
                             }
 
-                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, sizeof(p)) != 0) {
+                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
+                                metac_entry_delete(p_param_with_len_entry);
                                 return -(EFAULT);
                             }
                             metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
-- 
2.43.0


From 3bdcb8fc3c1f771240856c0258611e27348481a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:37 +0000
Subject: [PATCH 28/41] fix: parameter storage and memory entry queries reject
 NULL as the other functions do

---
 src/value_deep.c      | 2 +-
 src/value_with_args.c | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 58f410f..be868ea 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -136,7 +136,7 @@ pseudo entry
 
 /* get n'th parent (to work with loop_level) */
 struct metac_memory_entry * metac_memory_entry_parent(struct metac_memory_entry * p_memory_entry, int n) {
-    if (n < 0) {
+    if (p_memory_entry == NULL || n < 0) {
         return NULL;
     }
     while (n > 0) {
diff --git a/src/value_with_args.c b/src/value_with_args.c
index 3a4a760..c5f3199 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -167,6 +167,8 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
 }
 
 int metac_parameter_storage_copy(metac_parameter_storage_t * p_src_param_storage, metac_parameter_storage_t * p_dst_param_storage) {
+    _check_(p_src_param_storage == NULL || p_dst_param_storage == NULL, -(EINVAL));
+
     metac_parameter_t * p_param = NULL;
     LIST_FOREACH(p_param, &p_src_param_storage->list, links) {
         if (p_param->size != 0) {
@@ -197,6 +199,8 @@ int metac_parameter_storage_copy(metac_parameter_storage_t * p_src_param_storage
 }
 
 metac_value_t * metac_parameter_storage_new_param_value(metac_parameter_storage_t * p_param_storage, metac_num_t id) {
+    _check_(p_param_storage == NULL, NULL);
+
     metac_num_t current = 0;
     metac_parameter_t * p_param = NULL;
     LIST_FOREACH(p_param, &p_param_storage->list, links) {
-- 
2.43.0


From f59c0e26209cdcb2c11edd35a382943b97d36e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:03 +0000
Subject: [PATCH 29/41] fix: metac_new_value_with_call_result fails when the
 result can not be allocated

---
 src/value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value.c b/src/value.c
index 5915d2e..e4aa6d6 100644
--- a/src/value.c
+++ b/src/value.c
@@ -838,6 +838,7 @@ metac_value_t * metac_new_value_with_call_result(metac_entry_t * p_entry) {
         _check_(res_sz <= 0, NULL);
 
         void * p_res_mem = calloc(1, res_sz);
+        _check_(p_res_mem == NULL, NULL);
         p_res_value = metac_new_value(p_res_entry, p_res_mem);
         if (p_res_value == NULL) {
             free(p_res_mem);
-- 
2.43.0


From 1028608777e687b719261982abd3fcd58d593f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:04 +0000
Subject: [PATCH 30/41] fix: don't skip the character behind a printf specifier

"%d%s" lost the second specifier because the loop moved on by one more
character after the parser had already moved behind the first one, and
%% advanced the parameter index although it takes no parameter.
---
 src/printf_format.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index c429fb0..43f678e 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -116,7 +116,10 @@ size_t metac_count_format_specifiers(const char *format) {
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
             num_specifiers++;
+            } else if (format[pos] == '%') { // %%
+                pos++;
             }
+            continue; // pos is already behind the specifier
         }
         pos++;
     }
@@ -334,8 +337,11 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         return -(EFAULT);
                     }
                 }
+                ++param_id;
+            } else if (format[pos] == '%') { // %%
+                ++pos;
             }
-            ++param_id;
+            continue; // pos is already behind the specifier
         }
         ++pos;
     }
-- 
2.43.0


From d9c41ed4c3d70da3d0e50063bcc8f804a3576508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:04 +0000
Subject: [PATCH 31/41] fix: printf flags: ' ' is not '0', width and precision
 are decimal

The space flag was recorded as the zero flag, and with that flag width
and precision were read as octal numbers ("%010d" gave 8).
---
 src/printf_format.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 43f678e..8b66084 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -37,7 +37,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         } else if (format[*pos] == '0') {
             p_specifier->flags.oct = 1;
         } else if (format[*pos] == ' ') {
-            p_specifier->flags.oct = 1;
+            p_specifier->flags.space = 1;
         } else {
             break;
         }
@@ -48,11 +48,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
     p_specifier->format_len = 0;
     while (*pos < strlen(format) && isdigit(format[*pos])) {
         metac_num_t d = format[*pos] - '0';
-        if (p_specifier->flags.oct != 0) {
-            p_specifier->format_len = p_specifier->format_len * 8 + d;
-        } else {
-            p_specifier->format_len = p_specifier->format_len * 10 + d;
-        }
+        p_specifier->format_len = p_specifier->format_len * 10 + d;
         (*pos)++;
     }
 
@@ -63,11 +59,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         (*pos)++;
         while (*pos < strlen(format) && isdigit(format[*pos])) {
             metac_num_t d = format[*pos] - '0';
-            if (p_specifier->flags.oct != 0) {
-                p_specifier->precision = p_specifier->precision * 8 + d;
-            } else {
-                p_specifier->precision = p_specifier->precision * 10 + d;
-            }
+            p_specifier->precision = p_specifier->precision * 10 + d;
             (*pos)++;
         }
     }
-- 
2.43.0


From 2d173a5846d57f6489c1502a8a0ba858e371e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:20 +0000
Subject: [PATCH 32/41] fix: tag handlers fail when the value they have to
 deliver can not be created

count_by, zero_ended_string, container_of, ptr_cast and union_member_select reported success without
a value, so the caller silently continued with its default (1 element / no member).
---
 src/entry_tag.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index ebed8ef..1e87283 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -401,6 +401,9 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         if (metac_value_has_members(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(EFAULT);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -413,11 +416,14 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 }
                 metac_value_delete(p_sibling_val);
                 p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
             }
         } else if (metac_value_has_parameter_load(p_parent_val) != 0) {
             for (metac_num_t i = 0; i < metac_value_parameter_count(p_parent_val); ++i) {
                 metac_value_t *p_sibling_val = metac_value_parameter_new_item(p_parent_val, i);
+                if (p_sibling_val == NULL) {
+                    return -(EFAULT);
+                }
                 if (metac_value_name(p_sibling_val) == NULL ||
                     strcmp(metac_value_name(p_sibling_val), p_cnxt->counter_sibling_entry_name) !=0 ) {
                     metac_value_delete(p_sibling_val);
@@ -430,7 +436,7 @@ int metac_handle_count_by(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 }
                 metac_value_delete(p_sibling_val);
                 p_ev->p_return_value = metac_new_element_count_value(p_val, content_len);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
             }
         } else {
             return -(EFAULT);
@@ -465,7 +471,7 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         }
         metac_num_t content_len = strlen(ptr) + 1;
         p_ev->p_return_value =  metac_new_element_count_value(p_val, content_len);
-        return 0;
+        return (p_ev->p_return_value != NULL)?0:-(EFAULT);
     }    
     return 0;
 }
@@ -501,16 +507,17 @@ int metac_handle_container_of(metac_value_walker_hierarchy_t *p_hierarchy, metac
         }
         metac_value_t *p_ptr_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
         void * p = NULL;
-        if (metac_value_pointer(p_ptr_val, &p) == 0) {
-            p = p - p_cnxt->member_offset;
-            metac_value_t * p_container_ptr_val =  metac_new_value(p_cnxt->p_coontainer_entry, &p);
-            if (p_container_ptr_val == NULL) {
-                return -(ENOMEM);
-            }
-            p_ev->p_return_value = metac_new_element_count_value(p_container_ptr_val, 1);
-            metac_value_delete(p_container_ptr_val);
-            return 0;
+        if (metac_value_pointer(p_ptr_val, &p) != 0) {
+            return -(EFAULT);
+        }
+        p = p - p_cnxt->member_offset;
+        metac_value_t * p_container_ptr_val =  metac_new_value(p_cnxt->p_coontainer_entry, &p);
+        if (p_container_ptr_val == NULL) {
+            return -(ENOMEM);
         }
+        p_ev->p_return_value = metac_new_element_count_value(p_container_ptr_val, 1);
+        metac_value_delete(p_container_ptr_val);
+        return (p_ev->p_return_value != NULL)?0:-(EFAULT);
     }
     return 0;
 }
@@ -604,6 +611,9 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
 
                 for (metac_num_t i = 0; i < metac_value_member_count(p_parent_val); ++i) {
                     metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, i);
+                    if (p_sibling_val == NULL) {
+                        return -(EFAULT);
+                    }
                     if (metac_value_name(p_sibling_val) == NULL ||
                         strcmp(metac_value_name(p_sibling_val),p_cnxt->sibling_selector_fieldname) !=0 ) {
                         metac_value_delete(p_sibling_val);
@@ -638,7 +648,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                         }
                     }
                     p_ev->p_return_value = metac_new_value_by_member_id(p_val, id);
-                    return 0;
+                    return (p_ev->p_return_value != NULL)?0:-(EFAULT);
                 }
             }
             break;
@@ -649,7 +659,7 @@ int metac_handle_union_member_select(metac_value_walker_hierarchy_t *p_hierarchy
                     return -(EINVAL);
                 }
                 p_ev->p_return_value = metac_new_value_by_member_id(p_val, p_cnxt->permanent_id);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
             }
             break;
         }
@@ -782,7 +792,7 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
                 }
                 p_ev->p_return_value = metac_new_element_count_value(p_cast_ptr_val, content_count);
                 metac_value_delete(p_cast_ptr_val);
-                return 0;
+                return (p_ev->p_return_value != NULL)?0:-(EFAULT);
             }
         }
     }
-- 
2.43.0


From 6f14c62771cb6d2b51c37d051e5ec07d61d6a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:09 +0000
Subject: [PATCH 33/41] fix: deliver the location of members that have no bit
 offset

---
 src/entry.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entry.c b/src/entry.c
index 362a2cb..e6272c6 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -449,6 +449,10 @@ int metac_entry_member_bitfield_offsets(metac_entry_t *p_memb_entry,
         // out
         *p_byte_offset = _data_bit_offset >> 3;
         *p_bit_offset = _data_bit_offset & 0x7;
+    } else { /* no bit location - the member starts at the beginning of its first byte */
+        *p_bit_size = p_memb_entry->member_info.p_bit_size != NULL?(*p_memb_entry->member_info.p_bit_size): 0;
+        *p_byte_offset = p_memb_entry->member_info.byte_offset;
+        *p_bit_offset = 0;
     }
 
     return 0;
-- 
2.43.0


From 0b0fa2b26efd02429e9f5af0d00d02d97dbf31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:49 +0000
Subject: [PATCH 34/41] fix: read and write bit-fields of 32 bits and wider
 with masks of the accessed type's width

---
 src/value.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/value.c b/src/value.c
index e4aa6d6..20a3e1e 100644
--- a/src/value.c
+++ b/src/value.c
@@ -111,6 +111,9 @@ static metac_flag_t _entry_bitfield_supported(metac_encoding_t encoding) {
     return 1;
 }
 
+/* _type_ (unsigned) with the lowest _bits_ (1 .. its width) bits set */
+#define _bit_mask_(_type_, _bits_) ((_type_)((_type_)~(_type_)0 >> (8 * sizeof(_type_) - (_bits_))))
+
 /**
  * read bitfield to normal var
  * Note: base_addr pointing on the beginning of structure; 
@@ -125,6 +128,7 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
     uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 8 * var_size || bit_offset > 8 * var_size - bit_size, -(EINVAL));
 
      /* TODO: Caution: this has been tested only with little-endian machines*/
     if (IS_LITTLE_ENDIAN) {
@@ -143,10 +147,10 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
 #define _read_(_type_) \
     do{ \
         _type_ data = *((_type_*)base_addr); \
-        data = (data >> bit_offset) & ((1 << bit_size) - 1); \
+        data = (data >> bit_offset) & _bit_mask_(_type_, bit_size); \
         \
-        if ((correct_sign) && (data & (1 << (bit_size-1)))) { \
-            data = ((-1) << ((bit_size))) ^ data; \
+        if ((correct_sign) && (data & ((_type_)1 << (bit_size-1)))) { \
+            data |= (_type_)~_bit_mask_(_type_, bit_size); \
         } \
         *((_type_*)p_var) = data; \
     } while(0)
@@ -180,6 +184,7 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 8 * var_size || bit_offset > 8 * var_size - bit_size, -(EINVAL));
 
      /* TODO: Caution: this has been tested only with little-endian machines*/
     if (IS_LITTLE_ENDIAN) {
@@ -198,8 +203,9 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
 
 #define _write_(_type_) \
     do { \
-        _type_ data = ((*(_type_*)p_var) & ((1 << bit_size) - 1)) << bit_offset; \
-        *((_type_*)base_addr) = *((_type_*)base_addr) & (~(((1 << bit_size) - 1) << bit_offset )) | data;\
+        _type_ mask = _bit_mask_(_type_, bit_size); \
+        _type_ data = ((*(_type_*)p_var) & mask) << bit_offset; \
+        *((_type_*)base_addr) = (*((_type_*)base_addr) & ~(mask << bit_offset)) | data;\
     } while (0)
 
     if (var_size == sizeof(unsigned char)) {
-- 
2.43.0


From abc60f5f3f2568a62565379cd766d1be1d890297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:56 +0000
Subject: [PATCH 35/41] fix: read and write enumerations that are bit-fields,
 and unsigned ones without sign extension

---
 src/value.c | 100 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 23 deletions(-)

diff --git a/src/value.c b/src/value.c
index 20a3e1e..d91d594 100644
--- a/src/value.c
+++ b/src/value.c
@@ -478,6 +478,45 @@ struct metac_type_enumerator_info const * metac_value_enumeration_info(metac_val
     return metac_entry_enumeration_info(p_final_entry, id);
 }
 
+/* big enough for an enumeration of any size */
+union _enumeration_data {
+    char _char;
+    short _short;
+    int _int;
+    long _long;
+    long long _llong;
+};
+
+/* compilers use a signed type only if there is a negative constant */
+static metac_flag_t _enumeration_is_signed(metac_entry_t * p_final_entry) {
+    metac_num_t count = metac_entry_enumeration_info_size(p_final_entry);
+    for (metac_num_t i = 0; i < count; ++i) {
+        struct metac_type_enumerator_info const * p_info = metac_entry_enumeration_info(p_final_entry, i);
+        if (p_info != NULL && p_info->const_value < 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
+/* 1 if p_val is a bit-field - *p_base_addr is the beginning of the structure then, 0 if not, negative in case of error */
+static int _value_is_bitfield(metac_value_t * p_val, void ** p_base_addr) {
+    if (metac_entry_kind(p_val->p_entry) != METAC_KND_member) {
+        return 0;
+    }
+    struct metac_member_raw_location_info bitfields_raw_info;
+    if (metac_entry_member_raw_location_info(p_val->p_entry, &bitfields_raw_info) != 0) {
+        return -(EFAULT);
+    }
+    if (bitfields_raw_info.p_bit_offset == NULL &&
+        bitfields_raw_info.p_bit_size == NULL &&
+        bitfields_raw_info.p_data_bit_offset == NULL) {
+        return 0;
+    }
+    *p_base_addr = p_val->addr - bitfields_raw_info.byte_offset;
+    return 1;
+}
+
 int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
     _check_(p_var == NULL, -(EINVAL));
 
@@ -490,24 +529,37 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return -(EFAULT);
     }
 
+    metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
+    union _enumeration_data data = {0};
+    void * p_addr = p_val->addr;
+    void * base_addr = NULL;
+    int bitfield = _value_is_bitfield(p_val, &base_addr);
+    _check_(bitfield < 0, bitfield);
+    if (bitfield != 0) {
+        _check_(enum_byte_size > sizeof(data), -(ENOTSUP));
+        int err = _entry_bitfield_read(p_val->p_entry, base_addr, &data, enum_byte_size, is_signed);
+        _check_(err != 0, err);
+        p_addr = &data;
+    }
+
     if (enum_byte_size == sizeof(char)) {
-        *p_var = *(char*)p_val->addr;
+        *p_var = (is_signed != 0) ? *(signed char*)p_addr : *(unsigned char*)p_addr;
         return 0;
     }
     if (enum_byte_size == sizeof(short)){
-        *p_var = *(short*)p_val->addr;
+        *p_var = (is_signed != 0) ? *(short*)p_addr : *(unsigned short*)p_addr;
         return 0;
     }
     if (enum_byte_size == sizeof(int)){
-        *p_var = *(int*)p_val->addr;
+        *p_var = (is_signed != 0) ? (metac_const_value_t)*(int*)p_addr : (metac_const_value_t)*(unsigned int*)p_addr;
         return 0;
     }
     if (enum_byte_size == sizeof(long)){
-        *p_var = *(long*)p_val->addr;
+        *p_var = *(long*)p_addr;
         return 0;
     }
     if (enum_byte_size == sizeof(long long)){
-        *p_var = *(long long*)p_val->addr;
+        *p_var = *(long long*)p_addr;
         return 0;
     }
     return -(ENOTSUP);
@@ -528,27 +580,29 @@ int metac_value_set_enumeration(metac_value_t * p_val, metac_const_value_t var)
         return -(EFAULT);
     }
 
+    union _enumeration_data data = {0};
+    void * base_addr = NULL;
+    int bitfield = _value_is_bitfield(p_val, &base_addr);
+    _check_(bitfield < 0, bitfield);
+    void * p_addr = (bitfield != 0) ? (void*)&data : p_val->addr;
+
     if (enum_byte_size == sizeof(char)) {
-        *(char*)p_val->addr = (char)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *(short*)p_val->addr = (short)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *(int*)p_val->addr = (int)var;
-        return 0;
+        *(char*)p_addr = (char)var;
+    } else if (enum_byte_size == sizeof(short)){
+        *(short*)p_addr = (short)var;
+    } else if (enum_byte_size == sizeof(int)){
+        *(int*)p_addr = (int)var;
+    } else if (enum_byte_size == sizeof(long)){
+        *(long*)p_addr = (long)var;
+    } else if (enum_byte_size == sizeof(long long)){
+        *(long long*)p_addr = (long long)var;
+    } else {
+        return -(ENOTSUP);
     }
-    if (enum_byte_size == sizeof(long)){
-        *(long*)p_val->addr = (long)var;
-        return 0;
+    if (bitfield != 0) {
+        return _entry_bitfield_write(p_val->p_entry, base_addr, &data, enum_byte_size);
     }
-    if (enum_byte_size == sizeof(long long)){
-        *(long long*)p_val->addr = (long long)var;
-        return 0;
-    }
-    return -(ENOTSUP);
+    return 0;
 }
 
 int metac_value_equal_enumeration(metac_value_t *p_val1, metac_value_t *p_val2) {
-- 
2.43.0


From a91e49712a2c54a7f16e58036d9729084e83c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:09 +0000
Subject: [PATCH 36/41] fix: continue with the next category if the external
 tag map has no tag for the entry

---
 src/entry_tag.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 1e87283..0c627d5 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -182,8 +182,7 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
             }
         }
         if (p_tag_map->p_categories[i].p_map == NULL) {
-            assert(0);
-            continue;
+            continue; /* category with external map which doesn't have anything for this entry */
         }
 
         metac_entry_tag_t *p_tag = (metac_entry_tag_t *)hashmapGet(p_tag_map->p_categories[i].p_map, (void*)p_entry);
-- 
2.43.0


From b484d6cfbbfafec02ca05ca20d1eed5ca14bdb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:54 +0000
Subject: [PATCH 37/41] fix: METAC_ZERO_ENDED_STRING for flexible char arrays,
 as documented

---
 src/entry_tag.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 0c627d5..f5ddd03 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -452,17 +452,25 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
         
         metac_value_t *p_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
-        if (p_val == NULL || metac_value_is_pointer(p_val) == 0) {
+        if (p_val == NULL) {
             return -(EFAULT);
         }
-        metac_entry_t *p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+        metac_flag_t is_flex_array = metac_value_has_elements(p_val);
+        if (is_flex_array == 0 && metac_value_is_pointer(p_val) == 0) {
+            return -(EFAULT);
+        }
+        metac_entry_t *p_target_entry = metac_entry_final_entry((is_flex_array != 0)?
+            metac_entry_element_entry(metac_value_entry(p_val)):
+            metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
         if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type ||
             metac_entry_name(p_target_entry) == NULL || strcmp(metac_entry_name(p_target_entry), "char") != 0) {
             return -(EFAULT);
         }
 
         char * ptr = NULL;
-        if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
+        if (is_flex_array != 0) {
+            ptr = (char *)metac_value_addr(p_val);
+        } else if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
             return -(EFAULT);
         }
         if (ptr == NULL) {
-- 
2.43.0


From 218fee2973284e0901fce9accfb94f628471d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:28 +0000
Subject: [PATCH 38/41] fix: report a failure to build a member's name instead
 of declaring the member without a name

---
 src/entry_cdecl.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 62428a9..d37d003 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -296,6 +296,13 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                     name = dsprintf("%s",
                                         p->structure_type_info.members[i].name);        
                                 }
+                                if (name == NULL) {
+                                    if (type_pattern != NULL) {
+                                        free(type_pattern);
+                                    }
+                                    failure = 1;
+                                    break;
+                                }
                             }
                             // build field out of returned pattern and field name (can be absent)
                             char *field = trim_trailing_spaces(dsprintf((
-- 
2.43.0


From b16d07026e6cd745ce13d85ee9fcbf66c3e35de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 39/41] fix: metac_value_copy_ex left the destination's old
 pointer where the source has NULL

---
 src/value_deep.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/value_deep.c b/src/value_deep.c
index be868ea..cd51bd8 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1180,6 +1180,14 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
+                    } else {
+                        /* what is left are NULL pointers - don't leave there what dst had before */
+                        void *v_src = NULL;
+                        if (metac_value_pointer(p->p_val, &v_src) != 0 ||
+                            (v_src == NULL && metac_value_set_pointer(p_dst_val, NULL) != 0)) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
                     }
                 }else if (metac_value_is_enumeration(p->p_val)) {
                     if (metac_value_copy_enumeration(p->p_val, p_dst_val) == NULL) {
-- 
2.43.0


From 13c724976810e77433c2276f9205184fae00eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 40/41] fix: MergeAll reports the failure of a merge instead of
 going on with nothing

---
 pkg/override/override.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/override/override.go b/pkg/override/override.go
index c5e70cd..0b2aaa9 100644
--- a/pkg/override/override.go
+++ b/pkg/override/override.go
@@ -48,7 +48,10 @@ func MergeAll(in *map[string]interface{}, overrides []string) (*map[string]inter
 			return nil, err
 		}
 		// support only merge so far
-		in, _ = Merge(in, overrideUnstr)
+		in, err = Merge(in, overrideUnstr)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return in, nil
 }
-- 
2.43.0


From 292dd8c40f3f802df9b959bf89adadebaca974e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 41/41] fix: an override without content overrides nothing
 instead of panicking

---
 pkg/override/override.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/override/override.go b/pkg/override/override.go
index 0b2aaa9..f2d2a7b 100644
--- a/pkg/override/override.go
+++ b/pkg/override/override.go
@@ -62,6 +62,10 @@ func Merge(in *map[string]interface{}, override *map[string]interface{}) (*map[s
 	//return in, nil
 	merge := true
 	v := *override
+	if v == nil {
+		// e.g. the text of the override is `null'
+		v = map[string]interface{}{}
+	}
 
 	// Using c.Values directly when coalescing a table can cause problems where
 	// the original c.Values is altered. Creating a deep copy stops the problem.
-- 
2.43.0

