From 89eb748e03fb2b88af7dede4722554633a7a7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:39 +0000
Subject: [PATCH 001/142] fix: compressed stored fields larger than the zip
 buffer

The (de)compression loops never reset the output window and read the whole
compressed field into a fixed buffer, so a field whose raw or compressed size
exceeds ZIP_BUFFER_SIZE aborted, overflowed the stack or came back corrupt.
---
 c/src/index.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 289a1b7..d1532af 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1266,14 +1266,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, buf_in, zip_len);
+        is_read_bytes(is, buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = inflate(&zstrm, Z_NO_FLUSH);
             assert(ret != Z_STREAM_ERROR);  /* state not clobbered */
@@ -1286,14 +1286,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != Z_STREAM_END && zstrm.avail_out == 0);
     } while (ret != Z_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)inflateEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, uchar, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1356,14 +1356,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, (uchar *)buf_in, zip_len);
+        is_read_bytes(is, (uchar *)buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = BZ2_bzDecompress(&zstrm);
             assert(ret != BZ_SEQUENCE_ERROR);  /* state not clobbered */
@@ -1372,14 +1372,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != BZ_STREAM_END && zstrm.avail_out == 0);
     } while (ret != BZ_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)BZ2_bzDecompressEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, char, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1849,15 +1849,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = deflate(&zstrm, Z_FINISH); /* no bad return value */
         assert(ret != Z_STREAM_ERROR) ;  /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != Z_STREAM_END);
     assert(zstrm.avail_in == 0);         /* all input will be used */
 
     /* clean up */
@@ -1877,15 +1877,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = (char *)data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = BZ2_bzCompress(&zstrm, BZ_FINISH); /* no bad return value */
         assert(ret != BZ_SEQUENCE_ERROR);        /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, (uchar *)out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != BZ_STREAM_END);
     assert(zstrm.avail_in == 0);       /* all input will be used */
 
     /* clean up */
-- 
2.43.0


From 98931a6aad101177ed48f54b1092e9fdd1a12ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:39 +0000
Subject: [PATCH 002/142] fix: read the offset count of an empty term vector

fw_add_postings writes an offset count even for a field without terms, but
fr_read_term_vector did not consume it, so the vectors that follow it in
fr_get_tv were read out of step.
---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index d1532af..227c0a6 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1722,6 +1722,10 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
             }
         }
     }
+    else if (fi_store_offsets(fi)) {
+        /* an empty term vector still has its (zero) offset count written */
+        (void)is_read_vint(fdt_in);
+    }
     return tv;
 }
 
-- 
2.43.0


From b72bcae17a8e524c0cb2f968a2c9239b7280ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:39 +0000
Subject: [PATCH 003/142] fix: count postings correctly when skipping with a
 small skip interval

With a skip interval of 1 or 2 a skip point can have document number 0, which
stde_skip_to mistook for 'no skip point yet'.  The posting count was then too
small and the enumerator ran past the end of the postings.
---
 c/src/index.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 227c0a6..38798ac 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3009,7 +3009,7 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
         int last_skip_doc;
         off_t last_frq_ptr;
         off_t last_prx_ptr;
-        int num_skipped;
+        int last_skip_count;
 
         if (NULL == stde->skip_in) {
             stde->skip_in = is_clone(stde->frq_in);/* lazily clone */
@@ -3025,17 +3025,13 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
         last_skip_doc = stde->skip_doc;
         last_frq_ptr = is_pos(stde->frq_in);
         last_prx_ptr = -1;
-        num_skipped = -1 - (stde->count % stde->skip_interval);
-        //printf("%d, %d, %d, %d\n", last_skip_doc, last_frq_ptr, last_prx_ptr, num_skipped);
+        last_skip_count = stde->skip_count;
 
         while (target_doc_num > stde->skip_doc) {
             last_skip_doc = stde->skip_doc;
             last_frq_ptr = stde->frq_ptr;
             last_prx_ptr = stde->prx_ptr;
-
-            if (0 != stde->skip_doc && stde->skip_doc >= stde->doc_num) {
-                num_skipped += stde->skip_interval;
-            }
+            last_skip_count = stde->skip_count;
 
             if (stde->skip_count >= stde->num_skips) {
                 break;
@@ -3055,7 +3051,8 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
             stde->seek_prox(stde, last_prx_ptr);
 
             stde->doc_num = last_skip_doc;
-            stde->count += num_skipped;
+            /* the n-th skip point lies just before posting n * skip_interval */
+            stde->count = last_skip_count * stde->skip_interval - 1;
         }
     }
 
-- 
2.43.0


From 761611105ac42038715d20ec24e8fc2ebc36c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:13 +0000
Subject: [PATCH 004/142] fix: truncate untokenized terms of exactly
 MAX_WORD_SIZE bytes

A 255 byte term needs 256 bytes with its terminator, one more than the term
buffers of the term enumerators and the term vector reader have.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 38798ac..c1f4001 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5623,7 +5623,7 @@ Hash *dw_invert_field(DocWriter *dw,
         for (i = 0; i < df_size; i++) {
             int len = df->lengths[i];
             char *data_ptr = df->data[i];
-            if (len > MAX_WORD_SIZE) {
+            if (len >= MAX_WORD_SIZE) {
                 len = MAX_WORD_SIZE - 1;
                 data_ptr = (char *)memcpy(buf, df->data[i], len);
             }
-- 
2.43.0


From 54863c25c515f388d0d294a8ea36dbdc449349c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:28 +0000
Subject: [PATCH 005/142] fix: max_field_length is the maximum number of terms
 added to a field

It allowed one term too many, and one more for every further value of a
multi-valued field.
---
 c/src/index.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index c1f4001..6b8263e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5585,7 +5585,8 @@ Hash *dw_invert_field(DocWriter *dw,
             TokenStream *ts = a_get_ts(a, df->name, df->data[i]);
             /* ts->reset(ts, df->data[i]); no longer being called */
             if (store_offsets) {
-                while (NULL != (tk = ts->next(ts))) {
+                while (num_terms < dw->max_field_length
+                       && NULL != (tk = ts->next(ts))) {
                     pos += tk->pos_inc;
                     /* if for some reason pos gets set to some number less
                      * than 0 the we'll start pos at 0 */
@@ -5597,19 +5598,16 @@ Hash *dw_invert_field(DocWriter *dw,
                     dw_add_offsets(dw, pos,
                                    start_offset + tk->start,
                                    start_offset + tk->end);
-                    if (num_terms++ >= dw->max_field_length) {
-                        break;
-                    }
+                    num_terms++;
                 }
             }
             else {
-                while (NULL != (tk = ts->next(ts))) {
+                while (num_terms < dw->max_field_length
+                       && NULL != (tk = ts->next(ts))) {
                     pos += tk->pos_inc;
                     dw_add_posting(mp, curr_plists, fld_plists, doc_num,
                                    tk->text, tk->len, pos);
-                    if (num_terms++ >= dw->max_field_length) {
-                        break;
-                    }
+                    num_terms++;
                 }
             }
             ts_deref(ts);
-- 
2.43.0


From 0ff02f2adeb3b31e8eebe721d4ecf3e29c171cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:23 +0000
Subject: [PATCH 006/142] fix: term_vectors of an index without term vector
 fields

The segment reader only creates its thread-local key when some field stores
term vectors, but sr_term_vectors used the key regardless.
---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 6b8263e..c068f0d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4569,6 +4569,10 @@ static TermVector *sr_term_vector(IndexReader *ir, int doc_num,
 static Hash *sr_term_vectors(IndexReader *ir, int doc_num)
 {
     FieldsReader *fr;
+    if (!SR(ir)->fr_bucket) {
+        /* no field of this index stores term vectors */
+        return h_new_ptr((free_ft)&tv_destroy);
+    }
     if (!SR(ir)->fr || NULL == (fr = sr_fr(SR(ir)))) {
         return NULL;
     }
-- 
2.43.0


From d361a9e953660757f839ff4e6d30ca5aef569d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:23 +0000
Subject: [PATCH 007/142] fix: lazy_df_get_bytes starting at the separator
 between two values

For a compressed multi-valued field, a range that begins exactly on the space
between two values lost that space.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index c068f0d..d43e1ee 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1438,7 +1438,7 @@ void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
         int cur_start = 0, buf_start = 0, cur_end, i, copy_start, copy_len;
         for (i = 0; i < self->size; i++) {
             cur_end = cur_start + self->data[i].length;
-            if (start < cur_end) {
+            if (start <= cur_end) {
                 copy_start = start > cur_start ? start - cur_start : 0;
                 copy_len = cur_end - cur_start - copy_start;
                 if (copy_len >= len) {
-- 
2.43.0


From a183c6fc475fcfa6d87302938471743749c84754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 008/142] fix: term buffer of the segment merger is one term
 too small

The term infos writer looks back at index_interval + 1 earlier terms.  With
terms of very different lengths the circular buffer wrapped onto a term that
was still needed, which corrupted the merged term dictionary.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index d43e1ee..8d7d182 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6085,7 +6085,7 @@ static void sm_merge_terms(SegmentMerger *sm)
      * term put in the index with the next one. So the size of the buffer must
      * by index_interval + 2. */
     sm->term_buf_ptr = 0;
-    sm->term_buf_size = (sm->config->index_interval + 1) * MAX_WORD_SIZE;
+    sm->term_buf_size = (sm->config->index_interval + 2) * MAX_WORD_SIZE;
     sm->term_buf = ALLOC_N(char, sm->term_buf_size + MAX_WORD_SIZE);
 
     sm->queue = pq_new(sm->seg_cnt, (lt_ft)&smi_lt, NULL);
-- 
2.43.0


From dae1932ce7acef6524a2391834e1e84643fc3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:37 +0000
Subject: [PATCH 009/142] fix: ramo_write_to read one buffer pointer too far

When the buffered length is an exact multiple of BUFFER_SIZE the last buffer
may not exist.
---
 c/src/ram_store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6052fb1..9226c01 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -247,6 +247,7 @@ void ramo_write_to(OutStream *os, OutStream *other_o)
     last_buffer_offset = rf->len % BUFFER_SIZE;
     for (i = 0; i <= last_buffer_number; i++) {
         len = (i == last_buffer_number ? last_buffer_offset : BUFFER_SIZE);
+        if (len == 0) break; /* length is a multiple of BUFFER_SIZE */
         os_write_bytes(other_o, rf->buffers[i], len);
     }
 }
-- 
2.43.0


From 4aed488a48d4ffa180647538f7e06c787fba44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:01 +0000
Subject: [PATCH 010/142] fix: seeking a multi-segment TermDocEnum to a missing
 term

It kept the current segment enumerator, so next went on with the documents of
the previously sought term.
---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 8d7d182..3659a36 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3299,6 +3299,8 @@ static void mtde_seek(TermDocEnum *tde, int field_num, const char *term)
     }
     else {
         memset(mtde->state, 0, mtde->ir_cnt);
+        mtde->ptr = mtde->ir_cnt;
+        mtde->curr_tde = NULL;
     }
 }
 
-- 
2.43.0


From b1a8769a5cbc3433c1b182cd005e860dc3e9c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:01 +0000
Subject: [PATCH 011/142] fix: positions after re-seeking a TermPosEnum

Seeking through a TermEnum did not move the position stream, and positions
left unread before the seek were skipped in the new term's stream.
---
 c/src/index.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 3659a36..b452a96 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3133,6 +3133,7 @@ static void stpe_seek_ti(SegmentTermDocEnum *stde, TermInfo *ti)
         stde_seek_ti(stde, ti);
         is_seek(stde->prx_in, ti->prx_ptr);
     }
+    stde->prx_cnt = 0;
 }
 
 static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
@@ -3140,7 +3141,16 @@ static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
     SegmentTermDocEnum *stde = STDE(tde);
     TermInfo *ti = tir_get_ti_field(stde->tir, field_num, term);
     stpe_seek_ti(stde, ti);
-    stde->prx_cnt = 0;
+}
+
+static void stpe_seek_te(TermDocEnum *tde, TermEnum *te)
+{
+#ifdef DEBUG
+    if (te->set_field != &ste_set_field) {
+        RAISE(ARG_ERROR, "Passed an incorrect TermEnum type");
+    }
+#endif
+    stpe_seek_ti(STDE(tde), &(te->curr_ti));
 }
 
 static bool stpe_next(TermDocEnum *tde)
@@ -3204,6 +3214,7 @@ TermDocEnum *stpe_new(TermInfosReader *tir,
 
     /* TermDocEnum methods */
     tde->seek                = &stpe_seek;
+    tde->seek_te             = &stpe_seek_te;
     tde->next                = &stpe_next;
     tde->read                = &stpe_read;
     tde->next_position       = &stpe_next_position;
-- 
2.43.0


From 74b99e05adbebbe82e5832f90f2b614d7e53a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:09 +0000
Subject: [PATCH 012/142] fix: a lock is only released by the one who holds it

Closing or releasing a Lock, asking whether the index is locked, failing to
open an IndexWriter or closing a Store removed the lock file of another
writer.
---
 c/include/store.h |  1 +
 c/src/fs_store.c  | 19 ++++++++++---------
 c/src/ram_store.c | 10 +++++++++-
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/c/include/store.h b/c/include/store.h
index 34ba0ee..af6a5c8 100644
--- a/c/include/store.h
+++ b/c/include/store.h
@@ -150,6 +150,7 @@ struct FrtLock
     int (*obtain)(FrtLock *lock);
     int (*is_locked)(FrtLock *lock);
     void (*release)(FrtLock *lock);
+    bool is_held; /* true if this object obtained the lock */
 };
 
 typedef struct FrtCompoundStore
diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index b57a697..52c9643 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -209,18 +209,13 @@ static void fs_clear_all(Store *store)
 }
 
 /**
- * Destroy the store.
+ * Destroy the store. Locks held through this store are released when
+ * store_destroy closes them.
  *
  * @param p the store to destroy
- * @raise IO_ERROR if there is an error deleting the locks
  */
 static void fs_destroy(Store *store)
 {
-    TRY
-        fs_clear_locks(store);
-    XCATCHALL
-        HANDLED();
-    XENDTRY
     free(store->dir.path);
     store_destroy(store);
 }
@@ -365,6 +360,7 @@ static int fs_lock_obtain(Lock *lock)
     }
     if (f >= 0) {
         close(f);
+        lock->is_held = true;
         return true;
     }
     else {
@@ -389,7 +385,11 @@ static int fs_lock_is_locked(Lock *lock)
 
 static void fs_lock_release(Lock *lock)
 {
-    remove(lock->name);
+    /* never remove a lock file which belongs to someone else */
+    if (lock->is_held) {
+        remove(lock->name);
+        lock->is_held = false;
+    }
 }
 
 static Lock *fs_open_lock_i(Store *store, const char *lockname)
@@ -403,12 +403,13 @@ static Lock *fs_open_lock_i(Store *store, const char *lockname)
     lock->obtain = &fs_lock_obtain;
     lock->release = &fs_lock_release;
     lock->is_locked = &fs_lock_is_locked;
+    lock->is_held = false;
     return lock;
 }
 
 static void fs_close_lock_i(Lock *lock)
 {
-    remove(lock->name);
+    fs_lock_release(lock);
     free(lock->name);
     free(lock);
 }
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 9226c01..a81cab8 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -383,6 +383,9 @@ static int ram_lock_obtain(Lock *lock)
     if (ram_exists(lock->store, lock->name)) {
         ret = false;
     }
+    else {
+        lock->is_held = true;
+    }
     ram_touch(lock->store, lock->name);
     return ret;
 }
@@ -394,7 +397,11 @@ static int ram_lock_is_locked(Lock *lock)
 
 static void ram_lock_release(Lock *lock)
 {
-    ram_remove(lock->store, lock->name);
+    /* never remove a lock file which belongs to someone else */
+    if (lock->is_held) {
+        ram_remove(lock->store, lock->name);
+        lock->is_held = false;
+    }
 }
 
 static Lock *ram_open_lock_i(Store *store, const char *lockname)
@@ -407,6 +414,7 @@ static Lock *ram_open_lock_i(Store *store, const char *lockname)
     lock->obtain = &ram_lock_obtain;
     lock->release = &ram_lock_release;
     lock->is_locked = &ram_lock_is_locked;
+    lock->is_held = false;
     return lock;
 }
 
-- 
2.43.0


From 8bb3b68dca7ced9620c4695fac7bf5a59d583306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:09 +0000
Subject: [PATCH 013/142] fix: a refused modification left the reader locked or
 allowed to write

ir_acquire_write_lock kept the Lock it could not obtain, so that the next
modification went ahead without it, and its exceptions left the reader's
mutex locked.
---
 c/src/index.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index b452a96..a05848d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3905,6 +3905,8 @@ static void ir_acquire_write_lock(IndexReader *ir)
     if (NULL == ir->write_lock) {
         ir->write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
         if (!ir->write_lock->obtain(ir->write_lock)) {/* obtain write lock */
+            close_lock(ir->write_lock);
+            ir->write_lock = NULL;
             RAISE(LOCK_ERROR, "Could not obtain write lock when trying to "
                               "write changes to the index. Check that there "
                               "are no stale locks in the index. Look for "
@@ -3986,10 +3988,13 @@ int ir_doc_freq(IndexReader *ir, Symbol field, const char *term)
 static void ir_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->set_norm_i(ir, doc_num, field_num, val);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->set_norm_i(ir, doc_num, field_num, val);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
@@ -4036,20 +4041,26 @@ uchar *ir_get_norms_into(IndexReader *ir, Symbol field, uchar *buf)
 void ir_undelete_all(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->undelete_all_i(ir);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->undelete_all_i(ir);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_delete_doc(IndexReader *ir, int doc_num)
 {
     if (doc_num >= 0 && doc_num < ir->max_doc(ir)) {
         mutex_lock(&ir->mutex);
-        ir->acquire_write_lock(ir);
-        ir->delete_doc_i(ir, doc_num);
-        ir->has_changes = true;
-        mutex_unlock(&ir->mutex);
+        TRY
+            ir->acquire_write_lock(ir);
+            ir->delete_doc_i(ir, doc_num);
+            ir->has_changes = true;
+        XFINALLY
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
 }
 
-- 
2.43.0


From 7612b9e444ca7dee551b2909b03b6e5f2aa0304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:09 +0000
Subject: [PATCH 014/142] fix: a reader of an empty index always claimed to be
 the latest

---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index a05848d..eff0ca1 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4956,6 +4956,9 @@ static bool mr_is_latest_i(IndexReader *ir)
 {
     int i;
     const int mr_reader_cnt = MR(ir)->r_cnt;
+    if (ir->is_owner) { /* the segments of one index, perhaps none at all */
+        return (sis_read_current_version(ir->store) == ir->sis->version);
+    }
     for (i = 0; i < mr_reader_cnt; i++) {
         if (!ir_is_latest(MR(ir)->sub_readers[i])) {
             return false;
-- 
2.43.0


From 1b031ac9838f670d9ea5667cfe2737427058bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:58 +0000
Subject: [PATCH 015/142] fix: iw_add_readers brought deleted documents back

The deletions were looked for in a file which has not existed since the
deletion files got a generation in their names.
---
 c/src/index.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index eff0ca1..61d1041 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6577,15 +6577,6 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
     sprintf(file_name, "%s.fdx", sr_segment);
     fdx_in = store_in->open_input(store_in, file_name);
 
-    sprintf(file_name, "%s.del", sr_segment);
-    if (store_in->exists(store_in, file_name)) {
-        OutStream *del_out;
-        InStream *del_in = store_in->open_input(store_in, file_name);
-        sprintf(file_name, "%s.del", segment);
-        del_out = store_out->new_output(store_out, file_name);
-        is2os_copy_bytes(del_in, del_out, is_length(del_in));
-    }
-
 
     if (map) {
         int i;
@@ -6744,6 +6735,17 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
     }
 }
 
+static void iw_cp_deleted_docs(IndexWriter *iw, SegmentReader *sr,
+                               SegmentInfo *si)
+{
+    if (NULL != sr->deleted_docs) {
+        char file_name[SEGMENT_NAME_MAX_LENGTH];
+        si->del_gen++;
+        fn_for_generation(file_name, si->name, "del", si->del_gen);
+        bv_write(sr->deleted_docs, iw->store, file_name);
+    }
+}
+
 static void iw_cp_map_files(IndexWriter *iw, SegmentReader *sr,
                             SegmentInfo *si)
 {
@@ -6803,6 +6805,7 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
     else {
         iw_cp_files(iw, sr, si);
     }
+    iw_cp_deleted_docs(iw, sr, si);
 }
 
 static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
-- 
2.43.0


From 276b0f2e813fcd5fbd25b779c8a81b4acc75527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:29 +0000
Subject: [PATCH 016/142] fix: iw_add_readers lost norms the source reader had
 not committed

---
 c/src/index.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 61d1041..2e7267d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6710,7 +6710,6 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
     int i;
     FieldInfos *fis = IR(sr)->fis;
     const int field_cnt = fis->size;
-    InStream *norms_in;
     OutStream *norms_out;
     Store *store_out = iw->store;
     char file_name_in[SEGMENT_NAME_MAX_LENGTH];
@@ -6719,18 +6718,15 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
     for (i = 0; i < field_cnt; i++) {
         if (fi_has_norms(fis->fields[i])
             && si_norm_file_name(sr->si, file_name_in, i)) {
-            Store *store = (sr->si->use_compound_file
-                            && sr->si->norm_gens[i] == 0) ? sr->cfs_store
-                                                          : IR(sr)->store;
             int field_num = map ? map[i] : i;
+            /* the reader may have norms which it hasn't committed yet */
+            uchar *norms = IR(sr)->get_norms(IR(sr), i);
 
-            norms_in = store->open_input(store, file_name_in);
             si_advance_norm_gen(si, field_num);
             si_norm_file_name(si, file_name_out, field_num);
             norms_out = store_out->new_output(store_out, file_name_out);
-            is2os_copy_bytes(norms_in, norms_out, is_length(norms_in));
+            os_write_bytes(norms_out, norms, SR_SIZE(sr));
             os_close(norms_out);
-            is_close(norms_in);
         }
     }
 }
-- 
2.43.0


From 59eccb02af902fca05cc216882c815446ca11efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:44 +0000
Subject: [PATCH 017/142] fix: memory pool allocations larger than a chunk

With max_buffered_docs larger than chunk_size the norms of the buffered
documents were written past the end of the chunk.
---
 c/src/mempool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/mempool.c b/c/src/mempool.c
index d438227..f25a2e5 100644
--- a/c/src/mempool.c
+++ b/c/src/mempool.c
@@ -41,6 +41,9 @@ INLINE void *mp_alloc(MemoryPool *mp, int size)
             }
             mp->buffers[mp->buf_pointer] = (char *)emalloc(mp->chunk_size);
         }
+        if (size > mp->chunk_size) {
+            REALLOC_N(mp->buffers[mp->buf_pointer], char, size);
+        }
         p = mp->curr_buffer = mp->buffers[mp->buf_pointer];
         mp->pointer = size;
     }
-- 
2.43.0


From 20ae7060822de17c37cb58b6b546d59742100f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:32 +0000
Subject: [PATCH 018/142] fix: fall back to segments_0 when segments_1 is
 incomplete

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 2e7267d..8ec05ff 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -974,10 +974,10 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
             /* TODO:LOG "primary Exception on '" + segmentFileName + "': " +
              * err + "'; will retry: retry=" + retry + "; gen = " + gen */
 
-            if (!retry && gen > 1) {
+            if (!retry && gen > 0) {
                 /* This is our first time trying this segments file (because
                  * retry is false), and, there is possibly a segments_(N-1)
-                 * (because gen > 1).  So, check if the segments_(N-1) exists
+                 * (because gen > 0).  So, check if the segments_(N-1) exists
                  * and try it if so: */
                 char prev_seg_file_name[SEGMENT_NAME_MAX_LENGTH];
                 segfn_for_generation(prev_seg_file_name, gen - 1);
-- 
2.43.0


From be7b8bc13435c7d0f872866d056cf425870fda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:50 +0000
Subject: [PATCH 019/142] fix: opening a writer kept a broken segments file and
 deleted the good one

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 8ec05ff..13bb0e4 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3861,7 +3861,7 @@ void deleter_find_deletable_files(Deleter *dlr)
     /* Then go through all files in the Directory that are Ferret index files,
      * and add to deletable if they are not referenced by the current segments
      * info: */
-    sis_curr_seg_file_name(dfa.curr_seg_file_name, store);
+    segfn_for_generation(dfa.curr_seg_file_name, sis->generation);
 
     store->each(store, &deleter_find_deletable_files_i, &dfa);
     h_destroy(dfa.current);
-- 
2.43.0


From bef03130fbce22b0b1acfbb7e79ffde4bf192446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 020/142] fix: an incomplete segments file made every reader
 look out of date

---
 c/src/index.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 13bb0e4..16c26da 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1168,19 +1168,13 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
 
 static void sis_read_ver_i(Store *store, FindSegmentsFile *fsf)
 {
-    InStream *is;
-    u64 version = 0;
-    char seg_file_name[SEGMENT_NAME_MAX_LENGTH];
+    u64 version;
 
-    segfn_for_generation(seg_file_name, (u64)fsf->generation);
-    is = store->open_input(store, seg_file_name);
-
-    TRY
-        is_read_u32(is); // format
-        version = is_read_u64(is);
-    XFINALLY
-        is_close(is);
-    XENDTRY
+    /* read the whole file: a file which was only partly written does not
+     * hold the current version */
+    sis_read_i(store, fsf);
+    version = fsf->ret.sis->version;
+    sis_destroy(fsf->ret.sis);
 
     fsf->ret.uint64 = version;
 }
-- 
2.43.0


From fe048f00d10c844f184ff8bde22fbc9ffb3e4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:57 +0000
Subject: [PATCH 021/142] fix: committing a reader could delete the segments
 file it had just written

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 16c26da..0ad7dd5 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4128,7 +4128,7 @@ static void ir_commit_i(IndexReader *ir)
             char curr_seg_fn[MAX_FILE_PATH];
             mutex_lock(&ir->store->mutex);
 
-            sis_curr_seg_file_name(curr_seg_fn, ir->store);
+            segfn_for_generation(curr_seg_fn, ir->sis->generation);
 
             ir->commit_i(ir);
             sis_write(ir->sis, ir->store, ir->deleter);
-- 
2.43.0


From ec6926113a89f213399ae0e0968c89232ab176fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:35 +0000
Subject: [PATCH 022/142] fix: reading a segments file which ends before its
 field infos crashed

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 0ad7dd5..da6d805 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -433,7 +433,7 @@ FieldInfos *fis_read(InStream *is)
             }
         } while (0);
     XCATCHALL
-        fis_deref(fis);
+        if (fis) fis_deref(fis);
     XENDTRY
 
     return fis;
-- 
2.43.0


From 31e2f313ed650e2edb3868253529e89133aaddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:22 +0000
Subject: [PATCH 023/142] fix: creating an output stream kept old bytes of an
 existing file

---
 c/src/fs_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 52c9643..f0050f2 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -266,7 +266,7 @@ static OutStream *fs_new_output(Store *store, const char *filename)
 {
     char path[MAX_FILE_PATH];
     int fd = open(join_path(path, store->dir.path, filename),
-                  O_WRONLY | O_CREAT | O_BINARY, store->file_mode);
+                  O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, store->file_mode);
     OutStream *os;
     if (fd < 0) {
         RAISE(IO_ERROR, "couldn't create OutStream %s: <%s>",
-- 
2.43.0


From 5a23a4e7c02dae3b34b4f60f1ffcd4b0936b21f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:24 +0000
Subject: [PATCH 024/142] fix: sis_write closed a stream it had failed to open

---
 c/src/index.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index da6d805..13ab0c2 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1146,18 +1146,19 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
         }
         fis_write(sis->fis, os);
     XFINALLY
-        os_close(os);
+        if (os) os_close(os);
     XENDTRY
 
+    os = NULL;
     TRY
         os = store->new_output(store, SEGMENTS_GEN_FILE_NAME);
         os_write_u64(os, sis->generation);
         os_write_u64(os, sis->generation);
     XFINALLY
+        if (os) os_close(os);
         /* It's OK if we fail to write this file since it's
          * used only as one of the retry fallbacks. */
         HANDLED();
-        os_close(os);
     XENDTRY
 
     if (deleter && sis->generation > 0) {
-- 
2.43.0


From 0bac8c1aca77a2fa9b67de63b055f1180983fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:24 +0000
Subject: [PATCH 025/142] fix: closing a stream after a failed write wrote the
 buffer a second time

---
 c/src/store.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/src/store.c b/c/src/store.c
index f79ac44..08f5489 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -107,9 +107,12 @@ OutStream *os_new()
  */
 INLINE void os_flush(OutStream *os)
 {
-    os->m->flush_i(os, os->buf.buf, os->buf.pos);
-    os->buf.start += os->buf.pos;
+    const int len = os->buf.pos;
+    /* empty the buffer first so that closing the stream after a failed write
+     * doesn't write the same bytes again behind the part that was written */
+    os->buf.start += len;
     os->buf.pos = 0;
+    os->m->flush_i(os, os->buf.buf, len);
 }
 
 void os_close(OutStream *os)
-- 
2.43.0


From adf2eef02c770b7506064be4321993aa4dff282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:54 +0000
Subject: [PATCH 026/142] fix: MatchAllQuery explains a deleted document with a
 zero value

---
 c/src/q_match_all.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_match_all.c b/c/src/q_match_all.c
index 2c865aa..f2df880 100644
--- a/c/src/q_match_all.c
+++ b/c/src/q_match_all.c
@@ -84,7 +84,7 @@ static Explanation *maw_explain(Weight *self, IndexReader *ir, int doc_num)
         expl_add_detail(expl, expl_new(self->query->boost, "boost"));
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     } else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "MatchAllQuery: doc %d was deleted", doc_num);
     }
 
-- 
2.43.0


From d07225b4129e11f5a4e3ef8d06921e5add40f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:35 +0000
Subject: [PATCH 027/142] fix: constant-score queries keep their own scan
 position, skip deleted documents and explain misses as zero

---
 c/src/q_const_score.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 0269f3d..0a4684e 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -15,6 +15,7 @@ typedef struct ConstantScoreScorer
 {
     Scorer      super;
     BitVector  *bv;
+    IndexReader *ir;
     float       score;
 } ConstantScoreScorer;
 
@@ -23,14 +24,28 @@ static float cssc_score(Scorer *self)
     return CScSc(self)->score;
 }
 
-static bool cssc_next(Scorer *self)
+/* The BitVector is cached by the filter so it may be shared with other scorers
+ * and documents may have been deleted since it was filled. */
+static bool cssc_skip_to(Scorer *self, int doc_num)
 {
-    return ((self->doc = bv_scan_next(CScSc(self)->bv)) >= 0);
+    BitVector *bv = CScSc(self)->bv;
+    IndexReader *ir = CScSc(self)->ir;
+
+    while (doc_num < bv->size
+           && (doc_num = bv_scan_next_from(bv, doc_num)) >= 0) {
+        if (!ir->is_deleted(ir, doc_num)) {
+            self->doc = doc_num;
+            return true;
+        }
+        doc_num++;
+    }
+    self->doc = bv->size;
+    return false;
 }
 
-static bool cssc_skip_to(Scorer *self, int doc_num)
+static bool cssc_next(Scorer *self)
 {
-    return ((self->doc = bv_scan_next_from(CScSc(self)->bv, doc_num)) >= 0);
+    return cssc_skip_to(self, self->doc + 1);
 }
 
 static Explanation *cssc_explain(Scorer *self, int doc_num)
@@ -46,6 +61,8 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
 
     CScSc(self)->score  = weight->value;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
+    CScSc(self)->ir     = ir;
+    self->doc           = -1;
 
     self->score     = &cssc_score;
     self->next      = &cssc_next;
@@ -73,14 +90,14 @@ static Explanation *csw_explain(Weight *self, IndexReader *ir, int doc_num)
     char *filter_str = filter->to_s(filter);
     BitVector *bv = filt_get_bv(filter, ir);
 
-    if (bv_get(bv, doc_num)) {
+    if (bv_get(bv, doc_num) && !ir->is_deleted(ir, doc_num)) {
         expl = expl_new(self->value,
                         "ConstantScoreQuery(%s), product of:", filter_str);
         expl_add_detail(expl, expl_new(self->query->boost, "boost"));
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     }
     else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "ConstantScoreQuery(%s), does not match id %d",
                         filter_str, doc_num);
     }
-- 
2.43.0


From 32293072ce8df098f2dcc989000f5e95a17ce63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 028/142] fix: FilteredQuery whose query matches nothing

---
 c/src/q_filtered_query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 31f8c07..964f685 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -127,6 +127,9 @@ static Scorer *fqw_scorer(Weight *self, IndexReader *ir)
     Scorer *scorer = sub_weight->scorer(sub_weight, ir);
     Filter *filter = FQQ(self->query)->filter;
 
+    if (!scorer) {
+        return NULL;
+    }
     return fqsc_new(scorer, filt_get_bv(filter, ir), self->similarity);
 }
 
-- 
2.43.0


From 24758e785e3e75da60b1f49fd14047097c40ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 029/142] fix: FilteredQuery explains documents rejected by its
 filter as zero

---
 c/src/q_filtered_query.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 964f685..833b2f5 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -118,6 +118,10 @@ static float fqw_get_value(Weight *self)
 static Explanation *fqw_explain(Weight *self, IndexReader *ir, int doc_num)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
+    Filter *filter = FQQ(self->query)->filter;
+    if (!bv_get(filt_get_bv(filter, ir), doc_num)) {
+        return expl_new(0.0, "document %d is rejected by the filter", doc_num);
+    }
     return sub_weight->explain(sub_weight, ir, doc_num);
 }
 
-- 
2.43.0


From d00d5bcda07f4e77f185c3f77c1b115e63a98cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 030/142] fix: the boost of a FilteredQuery counts

---
 c/src/q_filtered_query.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 833b2f5..607b204 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -100,13 +100,15 @@ static char *fqw_to_s(Weight *self)
 static float fqw_sum_of_squared_weights(Weight *self)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
-    return sub_weight->sum_of_squared_weights(sub_weight);
+    return sub_weight->sum_of_squared_weights(sub_weight)
+        * self->query->boost * self->query->boost;
 }
 
 static void fqw_normalize(Weight *self, float normalization_factor)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
-    sub_weight->normalize(sub_weight, normalization_factor);
+    sub_weight->normalize(sub_weight,
+                          normalization_factor * self->query->boost);
 }
 
 static float fqw_get_value(Weight *self)
-- 
2.43.0


From e4d0455bc000b632da04ca9869ba31ae67cc2261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 031/142] fix: FilteredQuery has a hash and an equality

---
 c/src/q_filtered_query.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 607b204..d75f531 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -198,6 +198,17 @@ static void fq_destroy(Query *self)
     q_destroy_i(self);
 }
 
+static unsigned long fq_hash(Query *self)
+{
+    return q_hash(FQQ(self)->query) ^ filt_hash(FQQ(self)->filter);
+}
+
+static int fq_eq(Query *self, Query *o)
+{
+    return q_eq(FQQ(self)->query, FQQ(o)->query)
+        && filt_eq(FQQ(self)->filter, FQQ(o)->filter);
+}
+
 static Weight *fq_new_weight(Query *self, Searcher *searcher)
 {
     Query *sub_query = FQQ(self)->query;
@@ -214,6 +225,8 @@ Query *fq_new(Query *query, Filter *filter)
 
     self->type              = FILTERED_QUERY;
     self->to_s              = &fq_to_s;
+    self->hash              = &fq_hash;
+    self->eq                = &fq_eq;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From 0a1a6de19c72b0b8f2d3423607d8b0aabdc38799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:47 +0000
Subject: [PATCH 032/142] fix: undeleting documents drops the reader's cached
 filters and sort indexes

---
 c/src/index.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 13ab0c2..96be977 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4040,6 +4040,15 @@ void ir_undelete_all(IndexReader *ir)
         ir->acquire_write_lock(ir);
         ir->undelete_all_i(ir);
         ir->has_changes = true;
+        /* cached filters and sort indexes leave out the deleted documents */
+        if (ir->cache) {
+            h_clear(ir->cache);
+        }
+        mutex_lock(&ir->field_index_mutex);
+        if (ir->field_index_cache) {
+            h_clear(ir->field_index_cache);
+        }
+        mutex_unlock(&ir->field_index_mutex);
     XFINALLY
         mutex_unlock(&ir->mutex);
     XENDTRY
-- 
2.43.0


From a31cd7950dea05e70b0a4670f15cb8661429869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:06 +0000
Subject: [PATCH 033/142] fix: explaining a MultiTermQuery that has no terms

---
 c/src/q_multi_term.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/q_multi_term.c b/c/src/q_multi_term.c
index 873f93f..b4c9d37 100644
--- a/c/src/q_multi_term.c
+++ b/c/src/q_multi_term.c
@@ -412,7 +412,9 @@ static Explanation *multi_tw_explain(Weight *self, IndexReader *ir, int doc_num)
         pos += sprintf(doc_freqs + pos, "(%s=%d) + ", term, doc_freq);
         total_doc_freqs += doc_freq;
     }
-    pos -= 2; /* remove " + " from the end */
+    if (pos > 0) {
+        pos -= 2; /* remove " + " from the end */
+    }
     sprintf(doc_freqs + pos, "= %d", total_doc_freqs);
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
-- 
2.43.0


From 6e9692c2a0d005d56d2341b222fb48e928b0e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:52 +0000
Subject: [PATCH 034/142] fix: fields without norms score with a norm of one

---
 c/src/index.c        | 6 ++++--
 c/src/q_multi_term.c | 2 +-
 c/src/q_phrase.c     | 2 +-
 c/src/q_span.c       | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 96be977..94a7748 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4003,12 +4003,14 @@ void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
 uchar *ir_get_norms_i(IndexReader *ir, int field_num)
 {
     uchar *norms = NULL;
-    if (field_num >= 0) {
+    if (field_num >= 0 && !fi_omit_norms(ir->fis->fields[field_num])) {
         norms = ir->get_norms(ir, field_num);
     }
     if (!norms) {
         if (NULL == ir->fake_norms) {
-            ir->fake_norms = ALLOC_AND_ZERO_N(uchar, ir->max_doc(ir));
+            const int max_doc = ir->max_doc(ir);
+            ir->fake_norms = ALLOC_N(uchar, max_doc + 1);
+            memset(ir->fake_norms, float2byte(1.0f), max_doc + 1);
         }
         norms = ir->fake_norms;
     }
diff --git a/c/src/q_multi_term.c b/c/src/q_multi_term.c
index b4c9d37..178e117 100644
--- a/c/src/q_multi_term.c
+++ b/c/src/q_multi_term.c
@@ -451,7 +451,7 @@ static Explanation *multi_tw_explain(Weight *self, IndexReader *ir, int doc_num)
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
-    field_norms = ir->get_norms(ir, field_num);
+    field_norms = ir_get_norms_i(ir, field_num);
     field_norm = (field_norms != NULL)
         ? sim_decode_norm(self->similarity, field_norms[doc_num])
         : (float)0.0;
diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 03e37c7..8701252 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -670,7 +670,7 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
-    field_norms = ir->get_norms(ir, field_num);
+    field_norms = ir_get_norms_i(ir, field_num);
     field_norm = (field_norms != NULL)
         ? sim_decode_norm(self->similarity, field_norms[doc_num])
         : (float)0.0;
diff --git a/c/src/q_span.c b/c/src/q_span.c
index da844a8..0692158 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -297,7 +297,7 @@ static Scorer *spansc_new(Weight *weight, IndexReader *ir)
         SpSc(self)->more        = true;
         SpSc(self)->spans       = SpQ(spanq)->get_spans(spanq, ir);
         SpSc(self)->sim         = weight->similarity;
-        SpSc(self)->norms       = ir->get_norms(ir, field_num);
+        SpSc(self)->norms       = ir_get_norms_i(ir, field_num);
         SpSc(self)->weight      = weight;
         SpSc(self)->value       = weight->value;
         SpSc(self)->freq        = 0.0;
@@ -1470,7 +1470,7 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
-    field_norms = ir->get_norms(ir, field_num);
+    field_norms = ir_get_norms_i(ir, field_num);
     field_norm = (field_norms
                   ? sim_decode_norm(self->similarity, field_norms[target])
                   : (float)0.0);
-- 
2.43.0


From 965a8d4f8d625e5097fde68adf9364c533c164c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:25 +0000
Subject: [PATCH 035/142] fix: explaining a BooleanQuery of which no clause
 matches

---
 c/src/q_boolean.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 17028ab..c804e6e 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1217,6 +1217,10 @@ static Explanation *bw_explain(Weight *self, IndexReader *ir, int doc_num)
     }
     sum_expl->value = sum;
 
+    if (coord == 0) {                /* nothing matched */
+        return sum_expl;
+    }
+
     if (coord == 1) {                /* only one clause matched */
         explanation = sum_expl;      /* eliminate wrapper */
         ary_size(sum_expl->details) = 0;
-- 
2.43.0


From 0818c57ac6af62254fc3ea2e2e4ff45660019c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:25 +0000
Subject: [PATCH 036/142] fix: rewriting a BooleanQuery leaves the query itself
 alone

---
 c/src/q_boolean.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index c804e6e..4998d29 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1340,6 +1340,21 @@ static MatchVector *bq_get_matchv_i(Query *self, MatchVector *mv,
     return mv;
 }
 
+static Query *bq_copy(Query *self)
+{
+    int i;
+    Query *copy = q_new(BooleanQuery);
+    memcpy(copy, self, sizeof(BooleanQuery));
+    copy->ref_cnt = 1;
+    BQ(copy)->similarity = NULL;
+    BQ(copy)->clauses = ALLOC_N(BooleanClause *, BQ(self)->clause_capa);
+    for (i = 0; i < BQ(self)->clause_cnt; i++) {
+        BQ(copy)->clauses[i] = BQ(self)->clauses[i];
+        REF(BQ(self)->clauses[i]);
+    }
+    return copy;
+}
+
 static Query *bq_rewrite(Query *self, IndexReader *ir)
 {
     int i;
@@ -1382,19 +1397,9 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         if (clause->is_prohibited == false) has_non_prohibited_clause = true;
         if (rq != clause->query) {
             if (!rewritten) {
-                int j;
-                Query *new_self = q_new(BooleanQuery);
-                memcpy(new_self, self, sizeof(BooleanQuery));
-                BQ(new_self)->clauses = ALLOC_N(BooleanClause *,
-                                                BQ(self)->clause_capa);
-                memcpy(BQ(new_self)->clauses, BQ(self)->clauses,
-                       BQ(self)->clause_capa * sizeof(BooleanClause *));
-                for (j = 0; j < clause_cnt; j++) {
-                    REF(BQ(self)->clauses[j]);
-                }
+                Query *new_self = bq_copy(self);
                 self->ref_cnt--;
                 self = new_self;
-                self->ref_cnt = 1;
                 rewritten = true;
             }
             DEREF(clause);
@@ -1404,6 +1409,12 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         }
     }
     if (clause_cnt > 0 && !has_non_prohibited_clause) {
+        if (!rewritten) {
+            /* the user's query must stay as it is */
+            Query *new_self = bq_copy(self);
+            self->ref_cnt--;
+            self = new_self;
+        }
         bq_add_query_nr(self, maq_new(), BC_MUST);
     }
 
-- 
2.43.0


From 10c9e57f224a0b48730ae02a01c96da948c95841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:25 +0000
Subject: [PATCH 037/142] fix: searching with a boosted one-clause BooleanQuery
 does not boost the clause for good

---
 c/src/q_boolean.c | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 4998d29..ce30a51 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1362,29 +1362,12 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
     bool rewritten = false;
     bool has_non_prohibited_clause = false;
 
-    if (clause_cnt == 1) { 
+    if (clause_cnt == 1 && self->boost == 1.0) {
         /* optimize 1-clause queries */
         BooleanClause *clause = BQ(self)->clauses[0];
         if (! clause->is_prohibited) {
             /* just return clause. Re-write first. */
-            Query *q = clause->query->rewrite(clause->query, ir);
-
-            if (self->boost != 1.0) {
-                /* original_boost is initialized to 0.0. If it has been set to
-                 * something else it means this query has already been boosted
-                 * before so boost from the original value */
-                if ((q == clause->query) && BQ(self)->original_boost) {
-                    /* rewrite was no-op */
-                    q->boost = BQ(self)->original_boost * self->boost;
-                }
-                else {
-                    /* save original boost in case query is rewritten again */
-                    BQ(self)->original_boost = q->boost;
-                    q->boost *= self->boost;
-                }
-            }
-
-            return q;
+            return clause->query->rewrite(clause->query, ir);
         }
     }
 
-- 
2.43.0


From 0b10935f166e8abb6b78bea6a6b37dc7b7f8f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:18 +0000
Subject: [PATCH 038/142] fix: coord counts the optional clauses whose terms
 are not in the index

---
 c/src/q_boolean.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index ce30a51..87458ae 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1154,6 +1154,10 @@ static Scorer *bw_scorer(Weight *self, IndexReader *ir)
             bsc->destroy(bsc);
             return NULL;
         }
+        else if (!clause->is_prohibited) {
+            /* the clause can't match but it still counts for coord */
+            BSc(bsc)->coordinator->max_coord++;
+        }
     }
 
     return bsc;
-- 
2.43.0


From 160a98707255c5b6838196e4309cfd44a470d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:31 +0000
Subject: [PATCH 039/142] fix: printing explanations and top docs keeps the
 reallocated buffer

---
 c/src/search.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9f7a937..3e75c6e 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -65,7 +65,7 @@ char *expl_to_html(Explanation *expl)
     buffer = strfmt("<ul>\n<li>%f = %s</li>\n", expl->value, expl->description);
 
     for (i = 0; i < num_details; i++) {
-        estrcat(buffer, expl_to_html(expl->details[i]));
+        buffer = estrcat(buffer, expl_to_html(expl->details[i]));
     }
 
     REALLOC_N(buffer, char, strlen(buffer) + 10);
@@ -214,7 +214,7 @@ char *td_to_s(TopDocs *td)
                           td->total_hits);
     for (i = 0; i < td->size; i++) {
         hit = td->hits[i];
-        estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
+        buffer = estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
     }
     return buffer;
 }
-- 
2.43.0


From 2b98335943a9e892ac3c7a66295a33278fb304fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:31 +0000
Subject: [PATCH 040/142] fix: a conjunction skipping past the end of one
 clause has no more matches

---
 c/src/q_boolean.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 87458ae..7356c8d 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -396,12 +396,12 @@ static bool csc_skip_to(Scorer *self, int doc_num)
             more = sub_scorer->skip_to(sub_scorer, doc_num);
         }
     }
+    csc->more = more;
     if (more) {
-        /* resort the scorers */
+        /* resort the scorers, may set csc->more to false */
         csc_sort_scorers(csc);
     }
 
-    csc->more = more;
     return csc_do_next(self);
 }
 
-- 
2.43.0


From db98163c8fccfbf0ab9ab867601a67fd988ecc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:55 +0000
Subject: [PATCH 041/142] fix: range, wildcard and fuzzy queries keep their
 boost when rewritten

---
 c/src/q_fuzzy.c    | 5 ++++-
 c/src/q_range.c    | 2 ++
 c/src/q_wildcard.c | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/q_fuzzy.c b/c/src/q_fuzzy.c
index cce8219..f4faf81 100644
--- a/c/src/q_fuzzy.c
+++ b/c/src/q_fuzzy.c
@@ -189,10 +189,13 @@ static Query *fuzq_rewrite(Query *self, IndexReader *ir)
         return bq_new(true);
     }
     if (fuzq->pre_len >= (int)strlen(term)) {
-        return tq_new(fuzq->field, term);
+        q = tq_new(fuzq->field, term);
+        q->boost = self->boost;
+        return q;
     }
 
     q = multi_tq_new_conf(fuzq->field, MTQMaxTerms(self), fuzq->min_sim);
+    q->boost = self->boost;
     if (pre_len > 0) {
         prefix = ALLOC_N(char, pre_len + 1);
         strncpy(prefix, term, pre_len);
diff --git a/c/src/q_range.c b/c/src/q_range.c
index 4270909..1ea2296 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -505,6 +505,7 @@ static Query *rq_rewrite(Query *self, IndexReader *ir)
     csq = csq_new_nr(filter);
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &rq_get_matchv_i;
+    csq->boost = self->boost;
     return (Query *)csq;
 }
 
@@ -647,6 +648,7 @@ static Query *trq_rewrite(Query *self, IndexReader *ir)
     csq = csq_new_nr(filter);
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &trq_get_matchv_i;
+    csq->boost = self->boost;
     return (Query *)csq;
 }
 
diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index d46ce02..67c907a 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -92,6 +92,7 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
     else {
         const int field_num = fis_get_field_num(ir->fis, WCQ(self)->field);
         q = multi_tq_new_conf(WCQ(self)->field, MTQMaxTerms(self), 0.0);
+        q->boost = self->boost;
 
         if (field_num >= 0) {
             TermEnum *te;
-- 
2.43.0


From e7596de4afaa8f0bb7453ce0802c69bf6a1398f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 042/142] fix: typed ranges check that a term was read as a
 number

---
 c/src/q_range.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index 1ea2296..db401ce 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -157,10 +157,10 @@ static Range *trange_new(Symbol field, const char *lower_term,
     }
     if (upper_term && lower_term) {
         if ((!lower_term ||
-             (sscanf(lower_term, "%lg%n", &lower_num, &len) &&
+             (sscanf(lower_term, "%lg%n", &lower_num, &len) == 1 &&
               (int)strlen(lower_term) == len)) &&
             (!upper_term ||
-             (sscanf(upper_term, "%lg%n", &upper_num, &len) &&
+             (sscanf(upper_term, "%lg%n", &upper_num, &len) == 1 &&
               (int)strlen(upper_term) == len)))
         {
             if (upper_num < lower_num) {
@@ -330,8 +330,8 @@ typedef enum {
 #define SET_DOCS(cond)\
 do {\
     if (term[0] > '9') break; /* done */\
-    sscanf(term, "%lg%n", &num, &len);\
-    if (len == te->curr_term_len) { /* We have a number */\
+    if (sscanf(term, "%lg%n", &num, &len) == 1\
+        && len == te->curr_term_len) { /* We have a number */\
         if (cond) {\
             tde->seek_te(tde, te);\
             while (tde->next(tde)) {\
@@ -349,8 +349,8 @@ static BitVector *trfilt_get_bv_i(Filter *filt, IndexReader *ir)
     int len = 0;
     const char *lt = range->lower_term;
     const char *ut = range->upper_term;
-    if ((!lt || (sscanf(lt, "%lg%n", &lnum, &len) && (int)strlen(lt) == len)) &&
-        (!ut || (sscanf(ut, "%lg%n", &unum, &len) && (int)strlen(ut) == len)))
+    if ((!lt || (sscanf(lt, "%lg%n", &lnum, &len) == 1 && (int)strlen(lt) == len)) &&
+        (!ut || (sscanf(ut, "%lg%n", &unum, &len) == 1 && (int)strlen(ut) == len)))
     {
         BitVector *bv = bv_new_capa(ir->max_doc(ir));
         FieldInfo *fi = fis_get_field(ir->fis, range->field);
@@ -561,8 +561,8 @@ for (i = tv->term_cnt - 1; i >= 0; i--) {\
     TVTerm *tv_term = &(tv->terms[i]);\
     char *text = tv_term->text;\
     double num;\
-    sscanf(text, "%lg%n", &num, &len);\
-    if ((int)strlen(text) == len) { /* We have a number */\
+    if (sscanf(text, "%lg%n", &num, &len) == 1\
+        && (int)strlen(text) == len) { /* We have a number */\
         if (cond) {\
             const int tv_term_freq = tv_term->freq;\
             for (j = 0; j < tv_term_freq; j++) {\
@@ -583,10 +583,10 @@ static MatchVector *trq_get_matchv_i(Query *self, MatchVector *mv,
         const char *lt = range->lower_term;
         const char *ut = range->upper_term;
         if ((!lt
-             || (sscanf(lt,"%lg%n",&lnum,&len) && (int)strlen(lt) == len))
+             || (sscanf(lt,"%lg%n",&lnum,&len) == 1 && (int)strlen(lt) == len))
             &&
             (!ut
-             || (sscanf(ut,"%lg%n",&unum,&len) && (int)strlen(ut) == len)))
+             || (sscanf(ut,"%lg%n",&unum,&len) == 1 && (int)strlen(ut) == len)))
         {
             TypedRangeCheck check = TRC_NONE;
             int i = 0, j = 0;
-- 
2.43.0


From a39c61e410a1626cce9621e667513fbd72b8518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:07 +0000
Subject: [PATCH 043/142] fix: explaining a phrase without terms is not an
 out-of-bounds write

---
 c/src/q_phrase.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 8701252..04cd5ee 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -613,6 +613,9 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     if (field_num < 0) {
         return expl_new(0.0, "field \"%s\" does not exist in the index", field);
     }
+    if (pos_cnt == 0) {
+        return expl_new(0.0, "phrase on field \"%s\" has no terms", field);
+    }
 
     query_str = self->query->to_s(self->query, NULL);
 
-- 
2.43.0


From aad96c2c4caca00ed598095fd3f64dcea1f54fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:17 +0000
Subject: [PATCH 044/142] fix: sloppy phrases with repeated terms find all
 their matches

---
 c/src/q_phrase.c | 68 ++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 04cd5ee..a5215fd 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -424,28 +424,30 @@ static Scorer *exact_phrase_scorer_new(Weight *weight,
  * SloppyPhraseScorer
  ***************************************************************************/
 
-static bool sphsc_check_repeats(PhPos *pp,
-                                PhPos **positions,
-                                const int p_cnt)
+/* Move the phrase positions on until no two of them match on the same
+ * occurrence of a term. When two do it is the one which comes later in the
+ * phrase that is moved, so that repeated terms stay in phrase order. Returns
+ * false if there are not enough occurrences left in this document. */
+static bool sphsc_check_repeats(PhPos **positions, const int p_cnt)
 {
-    int j;
-    for (j = 0; j < p_cnt; j++) {
-        PhPos *ppj = positions[j];
-        /* If offsets are equal, either we are at the current PhPos +pp+ or
-         * +pp+ and +ppj+ are supposed to match in the same position in which
-         * case we don't need to check. */
-        if (ppj->offset == pp->offset) {
-            continue;
-        }
-        /* the two phrase positions are matching on the same term
-         * which we want to avoid */
-        if ((ppj->position + ppj->offset) == (pp->position + pp->offset)) {
-            if (!pp_next_position(pp)) {
-                /* We have no matches for this document */
-                return false;
+    int i, j;
+    for (i = 0; i < p_cnt; i++) {
+        for (j = 0; j < p_cnt; j++) {
+            PhPos *pp = positions[i];
+            PhPos *ppj = positions[j];
+            /* If offsets are equal, the two are supposed to match in the same
+             * position in which case we don't need to check. */
+            if (ppj->offset < pp->offset
+                && (ppj->position + ppj->offset)
+                   == (pp->position + pp->offset)) {
+                if (!pp_next_position(pp)) {
+                    /* We have no more matches for this document */
+                    return false;
+                }
+                /* we changed the position so we need to start check again */
+                i = -1;
+                break;
             }
-            /* we changed the position so we need to start check again */
-            j = -1;
         }
     }
     return true;
@@ -470,11 +472,12 @@ static float sphsc_phrase_freq(Scorer *self)
          * shouldn't have been called. */
         res = pp_first_position(pp);
         assert(res);(void)res;
-        if (check_repeats && i > 0) {
-            if (!sphsc_check_repeats(pp, phsc->phrase_pos, i - 1)) {
-                goto return_freq;
-            }
-        }
+    }
+    if (check_repeats && !sphsc_check_repeats(phsc->phrase_pos, pp_cnt)) {
+        goto return_freq;
+    }
+    for (i = 0; i < pp_cnt; i++) {
+        pp = phsc->phrase_pos[i];
         if (pp->position > last_pos) {
             last_pos = pp->position;
         }
@@ -489,7 +492,7 @@ static float sphsc_phrase_freq(Scorer *self)
             start = pos;        /* advance pp to min window */
             if (!pp_next_position(pp)
                 || (check_repeats
-                    && !sphsc_check_repeats(pp, phsc->phrase_pos, pp_cnt))) {
+                    && !sphsc_check_repeats(phsc->phrase_pos, pp_cnt))) {
                 done = true;
                 break;
             }
@@ -506,6 +509,19 @@ static float sphsc_phrase_freq(Scorer *self)
             last_pos = pp->position;
         }
         pq_push(pq, pp);        /* restore pq */
+        if (check_repeats) {
+            /* other positions may have been moved too */
+            while (pq->size > 0) {
+                pq_pop(pq);
+            }
+            for (i = 0; i < pp_cnt; i++) {
+                pp = phsc->phrase_pos[i];
+                if (pp->position > last_pos) {
+                    last_pos = pp->position;
+                }
+                pq_push(pq, pp);
+            }
+        }
     } while (!done);
 
 return_freq:
-- 
2.43.0


From 7fa09682f321a876b68b27ed12e2fbd1b6ce1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 045/142] fix: multi-term spans count the positions of each
 document

---
 c/src/q_span.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 0692158..903d10c 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -459,6 +459,7 @@ typedef struct TermPosEnumWrapper
     TermDocEnum *tpe;
     int          doc;
     int          pos;
+    int          left;      /* positions not yet read in the current doc */
 } TermPosEnumWrapper;
 
 static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
@@ -471,11 +472,13 @@ static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
 static bool tpew_next(TermPosEnumWrapper *self)
 {
     TermDocEnum *tpe = self->tpe;
-    if (0 > (self->pos = tpe->next_position(tpe))) {
+    if (self->left == 0) {
         if (!tpe->next(tpe)) return false;
         self->doc = tpe->doc_num(tpe);
-        self->pos = tpe->next_position(tpe);
+        self->left = tpe->freq(tpe);
     }
+    self->pos = tpe->next_position(tpe);
+    self->left--;
     return true;
 }
 
@@ -485,6 +488,7 @@ static bool tpew_skip_to(TermPosEnumWrapper *self, int doc_num)
 
     if (tpe->skip_to(tpe, doc_num)) {
         self->doc = tpe->doc_num(tpe);
+        self->left = tpe->freq(tpe) - 1;
         self->pos = tpe->next_position(tpe);
         return true;
     }
-- 
2.43.0


From edd2f0d46173b98982ad98b55eccf162130ebc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 046/142] fix: multi-term spans skip past the end of a term

---
 c/src/q_span.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 903d10c..b9aee02 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -545,6 +545,7 @@ static bool spanmte_next(SpanEnum *self)
 
     tpew = (TermPosEnumWrapper *)pq_top(tpew_pq);
     if (tpew == NULL) {
+        mte->doc = INT_MAX;
         return false;
     }
 
@@ -573,15 +574,12 @@ static bool spanmte_skip_to(SpanEnum *self, int target)
         int i;
         tpew_pq = pq_new(mte->tpew_cnt, (lt_ft)tpew_less_than, (free_ft)NULL);
         for (i = mte->tpew_cnt - 1; i >= 0; i--) {
-            tpew_skip_to(tpews[i], target);
-            pq_push(tpew_pq, tpews[i]);
+            if (tpew_skip_to(tpews[i], target)) {
+                pq_push(tpew_pq, tpews[i]);
+            }
         }
         mte->tpew_pq = tpew_pq;
     }
-    if (tpew_pq->size == 0) {
-        mte->doc = -1;
-        return false;
-    }
     while ((tpew = (TermPosEnumWrapper *)pq_top(tpew_pq)) != NULL
            && (target > tpew->doc)) {
         if (tpew_skip_to(tpew, target)) {
-- 
2.43.0


From 511c3ab59062829bde0ed43e5f2de2fa8897e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 047/142] fix: a span scorer skips without losing or repeating
 documents

---
 c/src/q_span.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index b9aee02..65c730c 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -211,17 +211,14 @@ static float spansc_score(Scorer *self)
     return raw * sim_decode_norm(self->similarity, spansc->norms[self->doc]);
 }
 
-static bool spansc_next(Scorer *self)
+/* Read the spans of the document the enumerator is at. This leaves the
+ * enumerator at the first span of the following document. */
+static bool spansc_read_doc(Scorer *self)
 {
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
     int match_length;
 
-    if (spansc->first_time) {
-        spansc->more = se->next(se);
-        spansc->first_time = false;
-    }
-
     if (!spansc->more) {
         return false;
     }
@@ -235,31 +232,36 @@ static bool spansc_next(Scorer *self)
         spansc->more = se->next(se);
     } while (spansc->more && (self->doc == se->doc(se)));
 
-    return (spansc->more || (spansc->freq != 0.0));
+    return true;
 }
 
-static bool spansc_skip_to(Scorer *self, int target)
+static bool spansc_next(Scorer *self)
 {
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
 
-    spansc->more = se->skip_to(se, target);
-    if (!spansc->more) {
-        return false;
+    if (spansc->first_time) {
+        spansc->more = se->next(se);
+        spansc->first_time = false;
     }
 
-    spansc->freq = 0.0;
-    self->doc = se->doc(se);
+    return spansc_read_doc(self);
+}
 
-    while (spansc->more && (se->doc(se) == target)) {
-        spansc->freq += sim_sloppy_freq(spansc->sim, se->end(se) - se->start(se));
-        spansc->more = se->next(se);
-        if (spansc->first_time) {
-            spansc->first_time = false;
-        }
+static bool spansc_skip_to(Scorer *self, int target)
+{
+    SpanScorer *spansc = SpSc(self);
+    SpanEnum *se = spansc->spans;
+
+    if (spansc->first_time) {
+        spansc->more = se->skip_to(se, target);
+        spansc->first_time = false;
+    }
+    else if (spansc->more && se->doc(se) < target) {
+        spansc->more = se->skip_to(se, target);
     }
 
-    return (spansc->more || (spansc->freq != 0.0));
+    return spansc_read_doc(self);
 }
 
 static Explanation *spansc_explain(Scorer *self, int target)
-- 
2.43.0


From cf30c1d74f05124adeace10bc763cf9ee197ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 048/142] fix: a span-or enumerator has a document number
 before its first span

---
 c/src/q_span.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 65c730c..6ed4643 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -851,6 +851,9 @@ static bool spanoe_skip_to(SpanEnum *self, int target)
 static int spanoe_doc(SpanEnum *self)
 {
     SpanEnum *se = SpOEn_Top_SE(self);
+    if (se == NULL) {           /* not started yet or all done */
+        return SpOEn(self)->first_time ? -1 : INT_MAX;
+    }
     return se->doc(se);
 }
 
-- 
2.43.0


From 803d376d601a44f936b28ab8e284fb484969a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 049/142] fix: span-not does not skip an exhausted exclusion

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 6ed4643..0bcf2d6 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1308,7 +1308,7 @@ static bool spanxe_skip_to(SpanEnum *self, int target)
         if (!(sxe->more_inc=sxe->inc->skip_to(sxe->inc, target))) return false;
     }
 
-    if (sxe->more_inc && ((doc=inc->doc(inc)) > exc->doc(exc))) {
+    if (sxe->more_exc && ((doc=inc->doc(inc)) > exc->doc(exc))) {
         sxe->more_exc = exc->skip_to(exc, doc);
     }
 
-- 
2.43.0


From 395e2417dd6c285b49d4f838a2f4d71a971f034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:20 +0000
Subject: [PATCH 050/142] fix: explaining a span query that expands to no terms
 gives zero

---
 c/src/q_span.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 0bcf2d6..4155cbb 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1422,6 +1422,9 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
     if (field_num < 0) {
         return expl_new(0.0, "field \"%s\" does not exist in the index", field);
     }
+    if (terms->size == 0) {
+        return expl_new(0.0, "span query on field \"%s\" has no terms", field);
+    }
 
     query_str = self->query->to_s(self->query, NULL);
 
@@ -1431,14 +1434,9 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
         df_i += sprintf(doc_freqs + df_i, "%s=%d, ", term,
                         ir->doc_freq(ir, field_num, term));
     }
-    /* remove the ',' at the end of the string if it exists */
-    if (terms->size > 0) {
-        df_i -= 2;
-        doc_freqs[df_i] = '\0';
-    }
-    else {
-        doc_freqs = estrdup("");
-    }
+    /* remove the ',' at the end of the string */
+    df_i -= 2;
+    doc_freqs[df_i] = '\0';
 
     expl = expl_new(0.0, "weight(%s in %d), product of:", query_str, target);
 
@@ -1446,9 +1444,7 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
      * and the field explanation */
     idf_expl1 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
     idf_expl2 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
-    if (terms->size > 0) {
-        free(doc_freqs); /* only free if allocated */
-    }
+    free(doc_freqs);
 
     /* explain query weight */
     query_expl = expl_new(0.0, "query_weight(%s), product of:", query_str);
-- 
2.43.0


From f65f6a1464a2543744524fde3c1ef988a6822448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:18 +0000
Subject: [PATCH 051/142] fix: rewriting a span query leaves the query itself
 unchanged

---
 c/src/q_span.c | 80 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 4155cbb..6a0a3aa 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1744,15 +1744,19 @@ static HashSet *spanfq_get_terms(Query *self)
 
 static Query *spanfq_rewrite(Query *self, IndexReader *ir)
 {
-    Query *q, *rq;
+    Query *q = SpFQ(self)->match;
+    Query *rq = q->rewrite(q, ir);
+    Query *rewritten;
 
-    q = SpFQ(self)->match;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    SpFQ(self)->match = rq;
+    if (rq == q) {                  /* nothing to rewrite */
+        q_deref(rq);
+        self->ref_cnt++;
+        return self;
+    }
 
-    self->ref_cnt++;
-    return self;                    /* no clauses rewrote */
+    rewritten = spanfq_new_nr(rq, SpFQ(self)->end);
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanfq_destroy_i(Query *self)
@@ -1876,18 +1880,25 @@ static SpanEnum *spanoq_get_spans(Query *self, IndexReader *ir)
 static Query *spanoq_rewrite(Query *self, IndexReader *ir)
 {
     SpanOrQuery *soq = SpOQ(self);
+    Query *rewritten = spanoq_new();
+    bool changed = false;
     int i;
 
-    /* replace clauses with their rewritten queries */
+    /* a query of the same clauses after they have been rewritten */
     for (i = 0; i < soq->c_cnt; i++) {
         Query *clause = soq->clauses[i];
-        Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        soq->clauses[i] = rewritten;
+        Query *rq = clause->rewrite(clause, ir);
+        changed = changed || (rq != clause);
+        spanoq_add_clause_nr(rewritten, rq);
     }
 
-    self->ref_cnt++;
-    return self;
+    if (!changed) {
+        q_deref(rewritten);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanoq_destroy_i(Query *self)
@@ -2061,16 +2072,23 @@ static SpanEnum *spannq_get_spans(Query *self, IndexReader *ir)
 static Query *spannq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNearQuery *snq = SpNQ(self);
+    Query *rewritten = spannq_new(snq->slop, snq->in_order);
+    bool changed = false;
     int i;
     for (i = 0; i < snq->c_cnt; i++) {
         Query *clause = snq->clauses[i];
-        Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        snq->clauses[i] = rewritten;
+        Query *rq = clause->rewrite(clause, ir);
+        changed = changed || (rq != clause);
+        spannq_add_clause_nr(rewritten, rq);
     }
 
-    self->ref_cnt++;
-    return self;
+    if (!changed) {
+        q_deref(rewritten);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spannq_destroy(Query *self)
@@ -2210,22 +2228,20 @@ static HashSet *spanxq_get_terms(Query *self)
 static Query *spanxq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNotQuery *sxq = SpXQ(self);
-    Query *q, *rq;
-
-    /* rewrite inclusive query */
-    q = sxq->inc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->inc = rq;
+    Query *inc = sxq->inc->rewrite(sxq->inc, ir);
+    Query *exc = sxq->exc->rewrite(sxq->exc, ir);
+    Query *rewritten;
 
-    /* rewrite exclusive query */
-    q = sxq->exc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->exc = rq;
+    if (inc == sxq->inc && exc == sxq->exc) {   /* nothing to rewrite */
+        q_deref(inc);
+        q_deref(exc);
+        self->ref_cnt++;
+        return self;
+    }
 
-    self->ref_cnt++;
-    return self;
+    rewritten = spanxq_new_nr(inc, exc);
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanxq_destroy(Query *self)
-- 
2.43.0


From a672313e183ec3895d73849a8f1ae01fa23600d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:35 +0000
Subject: [PATCH 052/142] fix: values that are not numbers sort as zero

---
 c/src/field_index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/field_index.c b/c/src/field_index.c
index c99357f..50afed9 100644
--- a/c/src/field_index.c
+++ b/c/src/field_index.c
@@ -141,7 +141,7 @@ static void integer_handle_term(void *index_ptr,
                                 const char *text)
 {
     long *index = (long *)index_ptr;
-    long val;
+    long val = 0;
     sscanf(text, "%ld", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
@@ -178,7 +178,7 @@ static void float_handle_term(void *index_ptr,
                               const char *text)
 {
     float *index = (float *)index_ptr;
-    float val;
+    float val = 0.0f;
     sscanf(text, "%g", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
-- 
2.43.0


From 612fd376a51f1c5110b40bb269e19654894370e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:35 +0000
Subject: [PATCH 053/142] fix: a sort that fails does not leave the field index
 locked

---
 c/src/sort.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/src/sort.c b/c/src/sort.c
index 82c7588..5f27d35 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -425,7 +425,7 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
     void *index = NULL;
 
     if (sf->type > SORT_TYPE_DOC) {
-        FieldIndex *field_index = NULL;
+        FieldIndex *volatile field_index = NULL;
         if (sf->type == SORT_TYPE_AUTO) {
             TermEnum *te = ir_terms(ir, sf->field);
             if (!te->next(te) && (ir->num_docs(ir) > 0)) {
@@ -437,8 +437,12 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
             te->close(te);
         }
         mutex_lock(&ir->field_index_mutex);
-        field_index = field_index_get(ir, sf->field, sf->field_index_class);
-        mutex_unlock(&ir->field_index_mutex);
+        TRY
+            field_index = field_index_get(ir, sf->field,
+                                          sf->field_index_class);
+        XFINALLY
+            mutex_unlock(&ir->field_index_mutex);
+        XENDTRY
         index = field_index->index;
     }
     return comparator_new(index, sf->reverse, sf->compare);
-- 
2.43.0


From 93846223bfb8acaa8717165c4da441a269c5e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:10 +0000
Subject: [PATCH 054/142] fix: an automatic sort on an unknown field is an
 argument error

---
 c/src/sort.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/src/sort.c b/c/src/sort.c
index 5f27d35..f720760 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -428,7 +428,13 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
         FieldIndex *volatile field_index = NULL;
         if (sf->type == SORT_TYPE_AUTO) {
             TermEnum *te = ir_terms(ir, sf->field);
+            if (te == NULL) {
+                RAISE(ARG_ERROR,
+                      "Cannot sort by field \"%s\". It doesn't exist in the "
+                      "index.", S(sf->field));
+            }
             if (!te->next(te) && (ir->num_docs(ir) > 0)) {
+                te->close(te);
                 RAISE(ARG_ERROR,
                       "Cannot sort by field \"%s\" as there are no terms "
                       "in that field in the index.", S(sf->field));
-- 
2.43.0


From 268fb8cf102a5586459cb979b87c1377279845d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:37 +0000
Subject: [PATCH 055/142] fix: a hit window near INT_MAX does not overflow

---
 c/src/search.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 3e75c6e..59597a7 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1024,6 +1024,15 @@ static int isea_max_doc(Searcher *self)
           post_filter->filter_func(scorer->doc, scorer->score(scorer),\
                                    searcher, post_filter->arg))))
 
+/* the number of hits to collect, saturating at INT_MAX */
+static int sea_max_size(int num_docs, int first_doc)
+{
+    if (first_doc > 0 && num_docs > INT_MAX - first_doc) {
+        return INT_MAX;
+    }
+    return num_docs + first_doc;
+}
+
 static TopDocs *isea_search_w(Searcher *self,
                               Weight *weight,
                               int first_doc,
@@ -1033,7 +1042,7 @@ static TopDocs *isea_search_w(Searcher *self,
                               PostFilter *post_filter,
                               bool load_fields)
 {
-    int max_size = num_docs + (num_docs == INT_MAX ? 0 : first_doc);
+    int max_size = sea_max_size(num_docs, first_doc);
     int i;
     Scorer *scorer;
     Hit **score_docs = NULL;
@@ -1669,7 +1678,7 @@ static TopDocs *msea_search_w(Searcher *self,
                               PostFilter *post_filter,
                               bool load_fields)
 {
-    int max_size = num_docs + (num_docs == INT_MAX ? 0 : first_doc);
+    int max_size = sea_max_size(num_docs, first_doc);
     int i;
     int total_hits = 0;
     Hit **score_docs = NULL;
-- 
2.43.0


From 00becabf430296474e8020f3dc9794c1b6bd038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:12 +0000
Subject: [PATCH 056/142] fix: searching several indexes keeps a query that
 rewrites alike in all of them

---
 c/src/search.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 59597a7..e028136 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -370,14 +370,23 @@ Query *q_combine(Query **queries, int q_cnt)
 {
     int i;
     Query *q, *ret_q;
-    HashSet *uniques = hs_new((hash_ft)&q_hash, (eq_ft)&q_eq, NULL);
+    HashSet *uniques;
 
+    /* nothing to combine if all the queries are the same */
+    for (i = 1; i < q_cnt && q_eq(queries[0], queries[i]); i++) {
+    }
+    if (i == q_cnt) {
+        REF(queries[0]);
+        return queries[0];
+    }
+
+    uniques = hs_new((hash_ft)&q_hash, (eq_ft)&q_eq, NULL);
     for (i = 0; i < q_cnt; i++) {
         q = queries[i];
         if (q->type == BOOLEAN_QUERY) {
             int j;
             bool splittable = true;
-            if (BQ(q)->coord_disabled == false) {
+            if (BQ(q)->coord_disabled == false || q->boost != 1.0) {
                 splittable = false;
             }
             else {
-- 
2.43.0


From dd32b498cc3584dfcc286c852e7b934dda594cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:48 +0000
Subject: [PATCH 057/142] fix: printing or explaining a phrase query does not
 reorder it

---
 c/src/q_phrase.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index a5215fd..9890bab 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -28,6 +28,15 @@ static int phrase_pos_cmp(const void *p1, const void *p2)
                   ((PhrasePosition *)p2)->terms[0]);
 }
 
+/* Get a copy of the positions in positional order, leaving the query alone */
+static PhrasePosition *phq_sorted_positions(PhraseQuery *phq)
+{
+    PhrasePosition *positions = ALLOC_N(PhrasePosition, phq->pos_cnt);
+    memcpy(positions, phq->positions, phq->pos_cnt * sizeof(PhrasePosition));
+    qsort(positions, phq->pos_cnt, sizeof(PhrasePosition), &phrase_pos_cmp);
+    return positions;
+}
+
 
 /***************************************************************************
  *
@@ -619,7 +628,7 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     char *query_str;
     PhraseQuery *phq = PhQ(self->query);
     const int pos_cnt = phq->pos_cnt;
-    PhrasePosition *positions = phq->positions;
+    PhrasePosition *positions;
     int i, j;
     char *doc_freqs = NULL;
     size_t len = 0, pos = 0;
@@ -638,17 +647,17 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     expl = expl_new(0.0, "weight(%s in %d), product of:", query_str, doc_num);
 
     /* ensure the phrase positions are in order for explanation */
-    qsort(positions, pos_cnt, sizeof(PhrasePosition), &phrase_pos_cmp);
+    positions = phq_sorted_positions(phq);
 
     for (i = 0; i < phq->pos_cnt; i++) {
-        char **terms = phq->positions[i].terms;
+        char **terms = positions[i].terms;
         for (j = ary_size(terms) - 1; j >= 0; j--) {
             len += strlen(terms[j]) + 30;
         }
     }
     doc_freqs = ALLOC_N(char, len);
     for (i = 0; i < phq->pos_cnt; i++) {
-        char **terms = phq->positions[i].terms;
+        char **terms = positions[i].terms;
         const int t_cnt = ary_size(terms);
         for (j = 0; j < t_cnt; j++) {
             char *term = terms[j];
@@ -658,6 +667,7 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     }
     pos -= 2; /* remove ", " from the end */
     doc_freqs[pos] = 0;
+    free(positions);
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
     idf_expl2 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
@@ -914,11 +924,10 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
             TVPosEnum **tvpe_a = ALLOC_AND_ZERO_N(TVPosEnum *, pos_cnt);
             TVPosEnum *first, *last;
             int first_index = 0;
+            PhrasePosition *positions = phq_sorted_positions(PhQ(self));
             done = false;
-            qsort(PhQ(self)->positions, pos_cnt, sizeof(PhrasePosition),
-                  &phrase_pos_cmp);
             for (i = 0; i < pos_cnt; i++) {
-                PhrasePosition *pp = &(PhQ(self)->positions[i]);
+                PhrasePosition *pp = &positions[i];
                 const int t_cnt = ary_size(pp->terms);
                 TVPosEnum *tvpe = get_tvpe(tv, pp->terms, t_cnt, pp->pos);
                 if (tvpe && ((i == 0 && tvpe_next(tvpe))
@@ -959,6 +968,7 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
                 free(tvpe_a[i]);
             }
             free(tvpe_a);
+            free(positions);
         }
     }
     return mv;
@@ -985,7 +995,7 @@ static char *phq_to_s(Query *self, Symbol default_field)
 {
     PhraseQuery *phq = PhQ(self);
     const int pos_cnt = phq->pos_cnt;
-    PhrasePosition *positions = phq->positions;
+    PhrasePosition *positions;
     const char *field = S(phq->field);
     int flen = strlen(field);
 
@@ -1003,12 +1013,12 @@ static char *phq_to_s(Query *self, Symbol default_field)
     }
 
     /* sort the phrase positions by position */
-    qsort(positions, pos_cnt, sizeof(PhrasePosition), &phrase_pos_cmp);
+    positions = phq_sorted_positions(phq);
 
     len = flen + 1;
 
     for (i = 0; i < pos_cnt; i++) {
-        char **terms = phq->positions[i].terms;
+        char **terms = positions[i].terms;
         for (j = ary_size(terms) - 1; j >= 0; j--) {
             len += strlen(terms[j]) + 5;
         }
@@ -1016,7 +1026,7 @@ static char *phq_to_s(Query *self, Symbol default_field)
 
     /* add space for extra <> characters and boost and slop */
     len += 100 + 3
-        * (phq->positions[phq->pos_cnt - 1].pos - phq->positions[0].pos);
+        * (positions[pos_cnt - 1].pos - positions[0].pos);
 
     buffer = ALLOC_N(char, len);
 
@@ -1055,6 +1065,8 @@ static char *phq_to_s(Query *self, Symbol default_field)
         buffer[buf_index-1] = ' '; /* change last '|' to ' ' */
     }
 
+    free(positions);
+
     if (buffer[buf_index-1] == ' ') {
         buf_index--;
     }
-- 
2.43.0


From 8c1c707584f10e6b10f6079e8ae9b8397a1a29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:48 +0000
Subject: [PATCH 058/142] fix: highlighting a phrase without terms

---
 c/src/q_phrase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 9890bab..b7af2f5 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -863,7 +863,7 @@ static TVPosEnum *get_tvpe(TermVector *tv, char **terms, int t_cnt, int offset)
 static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
                                      TermVector *tv)
 {
-    if (tv->field == PhQ(self)->field) {
+    if (tv->field == PhQ(self)->field && PhQ(self)->pos_cnt > 0) {
         const int pos_cnt = PhQ(self)->pos_cnt;
         int i;
         int slop = PhQ(self)->slop;
-- 
2.43.0


From ff22833b0b91b530e52f68e4ab1ca380c520976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:48 +0000
Subject: [PATCH 059/142] fix: an excerpt holds at least one match

---
 c/src/search.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index e028136..4198bc6 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -889,8 +889,11 @@ char **searcher_highlight(Searcher *self,
                     running_score = 0.0;
                     e_end = e_start;
                 }
-                while (e_end < mv->size && (matches[e_end].end_offset
-                                             <= start_offset + excerpt_len)) {
+                /* an excerpt holds its first match, however long that is */
+                while (e_end < mv->size
+                       && (e_end == e_start
+                           || matches[e_end].end_offset
+                              <= start_offset + excerpt_len)) {
                     running_score += matches[e_end].score;
                     e_end++;
                 }
-- 
2.43.0


From a8ec259a46a5f8f6db3798219e8beb1217cd9bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:12 +0000
Subject: [PATCH 060/142] fix: the highlighter's term enumerator does not find
 absent or consumed terms

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 6a0a3aa..d89f618 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -107,7 +107,7 @@ static bool tv_tde_next(TermDocEnum *tde)
 
 static bool tv_tde_skip_to(TermDocEnum *tde, int doc_num)
 {
-    if (doc_num == 0) {
+    if (doc_num <= 0 && TV_TDE(tde)->doc == -1) {
         TV_TDE(tde)->doc = 0;
         return true;
     }
-- 
2.43.0


From 2669441b36b94dc198819748dfcb625680d7e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:19 +0000
Subject: [PATCH 061/142] fix: span queries compare their sub-queries by type
 too

---
 c/src/q_span.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index d89f618..4fdd60b 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1775,7 +1775,7 @@ static int spanfq_eq(Query *self, Query *o)
 {
     SpanFirstQuery *sfq1 = SpFQ(self);
     SpanFirstQuery *sfq2 = SpFQ(o);
-    return spanq_eq(self, o) && sfq1->match->eq(sfq1->match, sfq2->match)
+    return spanq_eq(self, o) && q_eq(sfq1->match, sfq2->match)
         && (sfq1->end == sfq2->end);
 }
 
@@ -1941,7 +1941,7 @@ static int spanoq_eq(Query *self, Query *o)
     for (i = 0; i < soq1->c_cnt; i++) {
         q1 = soq1->clauses[i];
         q2 = soq2->clauses[i];
-        if (!q1->eq(q1, q2)) {
+        if (!q_eq(q1, q2)) {
             return false;
         }
     }
@@ -2134,7 +2134,7 @@ static int spannq_eq(Query *self, Query *o)
     for (i = 0; i < snq1->c_cnt; i++) {
         q1 = snq1->clauses[i];
         q2 = snq2->clauses[i];
-        if (!q1->eq(q1, q2)) {
+        if (!q_eq(q1, q2)) {
             return false;
         }
     }
@@ -2265,8 +2265,8 @@ static int spanxq_eq(Query *self, Query *o)
 {
     SpanNotQuery *sxq1 = SpXQ(self);
     SpanNotQuery *sxq2 = SpXQ(o);
-    return spanq_eq(self, o) && sxq1->inc->eq(sxq1->inc, sxq2->inc)
-        && sxq1->exc->eq(sxq1->exc, sxq2->exc);
+    return spanq_eq(self, o) && q_eq(sxq1->inc, sxq2->inc)
+        && q_eq(sxq1->exc, sxq2->exc);
 }
 
 
-- 
2.43.0


From 899a2935da6ff2597df6680bedb76b50387ef654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:55 +0000
Subject: [PATCH 062/142] fix: a refused clause leaves a span query as it was

---
 c/src/q_span.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 4fdd60b..8c7e8a7 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1973,7 +1973,7 @@ Query *spanoq_new()
 
 Query *spanoq_add_clause_nr(Query *self, Query *clause)
 {
-    const int curr_index = SpOQ(self)->c_cnt++;
+    const int curr_index = SpOQ(self)->c_cnt;
     if (clause->type < SPAN_TERM_QUERY || clause->type > SPAN_NEAR_QUERY) {
         RAISE(ARG_ERROR, "Tried to add a %s to a SpanOrQuery. This is not a "
               "SpanQuery.", q_get_query_name(clause->type));
@@ -1991,6 +1991,7 @@ Query *spanoq_add_clause_nr(Query *self, Query *clause)
         REALLOC_N(SpOQ(self)->clauses, Query *, SpOQ(self)->c_capa);
     }
     SpOQ(self)->clauses[curr_index] = clause;
+    SpOQ(self)->c_cnt++;
     return clause;
 }
 
@@ -2170,7 +2171,7 @@ Query *spannq_new(int slop, bool in_order)
 
 Query *spannq_add_clause_nr(Query *self, Query *clause)
 {
-    const int curr_index = SpNQ(self)->c_cnt++;
+    const int curr_index = SpNQ(self)->c_cnt;
     if (clause->type < SPAN_TERM_QUERY || clause->type > SPAN_NEAR_QUERY) {
         RAISE(ARG_ERROR, "Tried to add a %s to a SpanNearQuery. This is not a "
               "SpanQuery.", q_get_query_name(clause->type));
@@ -2188,6 +2189,7 @@ Query *spannq_add_clause_nr(Query *self, Query *clause)
         REALLOC_N(SpNQ(self)->clauses, Query *, SpNQ(self)->c_capa);
     }
     SpNQ(self)->clauses[curr_index] = clause;
+    SpNQ(self)->c_cnt++;
     return clause;
 }
 
-- 
2.43.0


From c6220b4bc0914139ce67d2107798d145dbbcbe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:46 +0000
Subject: [PATCH 063/142] fix: span-not checks that both its spans are on one
 field

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 8c7e8a7..cb609d3 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -2275,7 +2275,7 @@ static int spanxq_eq(Query *self, Query *o)
 Query *spanxq_new_nr(Query *inc, Query *exc)
 {
     Query *self;
-    if (SpQ(inc)->field != SpQ(inc)->field) {
+    if (SpQ(inc)->field != SpQ(exc)->field) {
         RAISE(ARG_ERROR, "All clauses in a SpanQuery must have the same field. "
               "Attempted to add a SpanQuery with field \"%s\" along with a "
               "SpanQuery with field \"%s\" to an SpanNotQuery",
-- 
2.43.0


From e33d897df498e278b086c5736e254530d158a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:31 +0000
Subject: [PATCH 064/142] fix: printing a span-near query with many clauses

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index cb609d3..031e1fd 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -2017,7 +2017,7 @@ static char *spannq_to_s(Query *self, Symbol field)
     for (i = 0; i < snq->c_cnt; i++) {
         Query *clause = snq->clauses[i];
         q_strs[i] = clause->to_s(clause, field);
-        len += strlen(q_strs[i]);
+        len += strlen(q_strs[i]) + 1;
     }
 
     res_p = res = ALLOC_N(char, len);
-- 
2.43.0


From 77dc5cfd5fe31fe7c2e7609d02a7694850b39f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 065/142] fix: a wildcard pattern with a long literal prefix

---
 c/src/q_wildcard.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index 67c907a..c930900 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -91,18 +91,19 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
     }
     else {
         const int field_num = fis_get_field_num(ir->fis, WCQ(self)->field);
+        int prefix_len;
         q = multi_tq_new_conf(WCQ(self)->field, MTQMaxTerms(self), 0.0);
         q->boost = self->boost;
 
-        if (field_num >= 0) {
-            TermEnum *te;
-            char prefix[MAX_WORD_SIZE] = "";
-            int prefix_len;
+        pattern = (first_ques && (!first_star || first_star > first_ques))
+            ? first_ques : first_star;
 
-            pattern = (first_ques && (!first_star || first_star > first_ques))
-                ? first_ques : first_star;
+        prefix_len = (int)(pattern - WCQ(self)->pattern);
 
-            prefix_len = (int)(pattern - WCQ(self)->pattern);
+        /* no term is longer than MAX_WORD_SIZE - 1 */
+        if (field_num >= 0 && prefix_len < MAX_WORD_SIZE) {
+            TermEnum *te;
+            char prefix[MAX_WORD_SIZE] = "";
 
             if (prefix_len > 0) {
                 memcpy(prefix, WCQ(self)->pattern, prefix_len);
-- 
2.43.0


From 639c3a532b36a29ab44d41ab14fbf3d1b1ed967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:34 +0000
Subject: [PATCH 066/142] fix: a phrase query is equal to itself after being
 printed

---
 c/src/q_phrase.c | 58 ++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index b7af2f5..e4350c1 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -28,7 +28,8 @@ static int phrase_pos_cmp(const void *p1, const void *p2)
                   ((PhrasePosition *)p2)->terms[0]);
 }
 
-/* Get a copy of the positions in positional order, leaving the query alone */
+/* Get a copy of the positions in positional order. Printing and explaining
+ * sort the positions of the query so nothing may depend on their order. */
 static PhrasePosition *phq_sorted_positions(PhraseQuery *phq)
 {
     PhrasePosition *positions = ALLOC_N(PhrasePosition, phq->pos_cnt);
@@ -628,7 +629,7 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     char *query_str;
     PhraseQuery *phq = PhQ(self->query);
     const int pos_cnt = phq->pos_cnt;
-    PhrasePosition *positions;
+    PhrasePosition *positions = phq->positions;
     int i, j;
     char *doc_freqs = NULL;
     size_t len = 0, pos = 0;
@@ -647,17 +648,17 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     expl = expl_new(0.0, "weight(%s in %d), product of:", query_str, doc_num);
 
     /* ensure the phrase positions are in order for explanation */
-    positions = phq_sorted_positions(phq);
+    qsort(positions, pos_cnt, sizeof(PhrasePosition), &phrase_pos_cmp);
 
     for (i = 0; i < phq->pos_cnt; i++) {
-        char **terms = positions[i].terms;
+        char **terms = phq->positions[i].terms;
         for (j = ary_size(terms) - 1; j >= 0; j--) {
             len += strlen(terms[j]) + 30;
         }
     }
     doc_freqs = ALLOC_N(char, len);
     for (i = 0; i < phq->pos_cnt; i++) {
-        char **terms = positions[i].terms;
+        char **terms = phq->positions[i].terms;
         const int t_cnt = ary_size(terms);
         for (j = 0; j < t_cnt; j++) {
             char *term = terms[j];
@@ -667,7 +668,6 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     }
     pos -= 2; /* remove ", " from the end */
     doc_freqs[pos] = 0;
-    free(positions);
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
     idf_expl2 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
@@ -924,10 +924,11 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
             TVPosEnum **tvpe_a = ALLOC_AND_ZERO_N(TVPosEnum *, pos_cnt);
             TVPosEnum *first, *last;
             int first_index = 0;
-            PhrasePosition *positions = phq_sorted_positions(PhQ(self));
             done = false;
+            qsort(PhQ(self)->positions, pos_cnt, sizeof(PhrasePosition),
+                  &phrase_pos_cmp);
             for (i = 0; i < pos_cnt; i++) {
-                PhrasePosition *pp = &positions[i];
+                PhrasePosition *pp = &(PhQ(self)->positions[i]);
                 const int t_cnt = ary_size(pp->terms);
                 TVPosEnum *tvpe = get_tvpe(tv, pp->terms, t_cnt, pp->pos);
                 if (tvpe && ((i == 0 && tvpe_next(tvpe))
@@ -968,7 +969,6 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
                 free(tvpe_a[i]);
             }
             free(tvpe_a);
-            free(positions);
         }
     }
     return mv;
@@ -995,7 +995,7 @@ static char *phq_to_s(Query *self, Symbol default_field)
 {
     PhraseQuery *phq = PhQ(self);
     const int pos_cnt = phq->pos_cnt;
-    PhrasePosition *positions;
+    PhrasePosition *positions = phq->positions;
     const char *field = S(phq->field);
     int flen = strlen(field);
 
@@ -1013,12 +1013,12 @@ static char *phq_to_s(Query *self, Symbol default_field)
     }
 
     /* sort the phrase positions by position */
-    positions = phq_sorted_positions(phq);
+    qsort(positions, pos_cnt, sizeof(PhrasePosition), &phrase_pos_cmp);
 
     len = flen + 1;
 
     for (i = 0; i < pos_cnt; i++) {
-        char **terms = positions[i].terms;
+        char **terms = phq->positions[i].terms;
         for (j = ary_size(terms) - 1; j >= 0; j--) {
             len += strlen(terms[j]) + 5;
         }
@@ -1026,7 +1026,7 @@ static char *phq_to_s(Query *self, Symbol default_field)
 
     /* add space for extra <> characters and boost and slop */
     len += 100 + 3
-        * (positions[pos_cnt - 1].pos - positions[0].pos);
+        * (phq->positions[phq->pos_cnt - 1].pos - phq->positions[0].pos);
 
     buffer = ALLOC_N(char, len);
 
@@ -1065,8 +1065,6 @@ static char *phq_to_s(Query *self, Symbol default_field)
         buffer[buf_index-1] = ' '; /* change last '|' to ' ' */
     }
 
-    free(positions);
-
     if (buffer[buf_index-1] == ' ') {
         buf_index--;
     }
@@ -1130,13 +1128,15 @@ static unsigned long phq_hash(Query *self)
     int i, j;
     PhraseQuery *phq = PhQ(self);
     unsigned long hash = sym_hash(phq->field);
+    PhrasePosition *positions = phq_sorted_positions(phq);
     for (i = 0; i < phq->pos_cnt; i++) {
-        char **terms = phq->positions[i].terms;
+        char **terms = positions[i].terms;
         for (j = ary_size(terms) - 1; j >= 0; j--) {
             hash = (hash << 1) ^ (str_hash(terms[j])
-                               ^ phq->positions[i].pos);
+                               ^ positions[i].pos);
         }
     }
+    free(positions);
     return (hash ^ phq->slop);
 }
 
@@ -1145,26 +1145,30 @@ static int phq_eq(Query *self, Query *o)
     int i, j;
     PhraseQuery *phq1 = PhQ(self);
     PhraseQuery *phq2 = PhQ(o);
+    PhrasePosition *positions1, *positions2;
+    bool equal = true;
     if (phq1->slop != phq2->slop
         || phq1->field != phq2->field
         || phq1->pos_cnt != phq2->pos_cnt) {
         return false;
     }
-    for (i = 0; i < phq1->pos_cnt; i++) {
-        char **terms1 = phq1->positions[i].terms;
-        char **terms2 = phq2->positions[i].terms;
+    positions1 = phq_sorted_positions(phq1);
+    positions2 = phq_sorted_positions(phq2);
+    for (i = 0; equal && i < phq1->pos_cnt; i++) {
+        char **terms1 = positions1[i].terms;
+        char **terms2 = positions2[i].terms;
         const int t_cnt = ary_size(terms1);
         if (t_cnt != ary_size(terms2)
-            || phq1->positions[i].pos != phq2->positions[i].pos) {
-            return false;
+            || positions1[i].pos != positions2[i].pos) {
+            equal = false;
         }
-        for (j = 0; j < t_cnt; j++) {
-            if (strcmp(terms1[j], terms2[j]) != 0) {
-                return false;
-            }
+        for (j = 0; equal && j < t_cnt; j++) {
+            equal = (strcmp(terms1[j], terms2[j]) == 0);
         }
     }
-    return true;
+    free(positions1);
+    free(positions2);
+    return equal;
 }
 
 Query *phq_new(Symbol field)
-- 
2.43.0


From 92bb27f675f74fa034f4f523493fd9c69f236bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 067/142] fix: a match longer than the excerpts is only used
 when there is nothing better

---
 c/src/search.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 4198bc6..20a03d0 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -889,14 +889,17 @@ char **searcher_highlight(Searcher *self,
                     running_score = 0.0;
                     e_end = e_start;
                 }
-                /* an excerpt holds its first match, however long that is */
-                while (e_end < mv->size
-                       && (e_end == e_start
-                           || matches[e_end].end_offset
-                              <= start_offset + excerpt_len)) {
+                while (e_end < mv->size && (matches[e_end].end_offset
+                                             <= start_offset + excerpt_len)) {
                     running_score += matches[e_end].score;
                     e_end++;
                 }
+                if (e_end == e_start) {
+                    /* a match that is longer than an excerpt is only used
+                     * when there is nothing better */
+                    pq_push(excerpt_pq, excerpt_new(e_start, e_start, 0.0));
+                    continue;
+                }
                 pq_push(excerpt_pq,
                         excerpt_new(e_start, e_end - 1, running_score));
                 /* - 0.1 so that earlier matches take priority */
-- 
2.43.0


From b91327885278c558b43c769611cb2e09415782d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:20 +0000
Subject: [PATCH 068/142] fix: a field none of whose documents are in the
 segment has norms of zero again

---
 c/include/index.h |  1 +
 c/src/index.c     | 21 +++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/c/include/index.h b/c/include/index.h
index 2a6dadb..61d202a 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -738,6 +738,7 @@ struct FrtIndexReader
     FrtHash    *field_index_cache;
     frt_mutex_t             field_index_mutex;
     frt_uchar              *fake_norms;
+    frt_uchar              *one_norms;
     frt_mutex_t             mutex;
     bool                has_changes : 1;
     bool                is_stale    : 1;
diff --git a/c/src/index.c b/c/src/index.c
index 94a7748..8a40a2d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4003,14 +4003,22 @@ void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
 uchar *ir_get_norms_i(IndexReader *ir, int field_num)
 {
     uchar *norms = NULL;
-    if (field_num >= 0 && !fi_omit_norms(ir->fis->fields[field_num])) {
+    if (field_num >= 0) {
+        if (fi_omit_norms(ir->fis->fields[field_num])) {
+            /* fields without norms all have a norm of 1.0 */
+            if (NULL == ir->one_norms) {
+                const int max_doc = ir->max_doc(ir);
+                ir->one_norms = ALLOC_N(uchar, max_doc + 1);
+                memset(ir->one_norms, float2byte(1.0f), max_doc + 1);
+            }
+            return ir->one_norms;
+        }
         norms = ir->get_norms(ir, field_num);
     }
     if (!norms) {
+        /* none of the documents have the field */
         if (NULL == ir->fake_norms) {
-            const int max_doc = ir->max_doc(ir);
-            ir->fake_norms = ALLOC_N(uchar, max_doc + 1);
-            memset(ir->fake_norms, float2byte(1.0f), max_doc + 1);
+            ir->fake_norms = ALLOC_AND_ZERO_N(uchar, ir->max_doc(ir) + 1);
         }
         norms = ir->fake_norms;
     }
@@ -4192,6 +4200,7 @@ void ir_close(IndexReader *ir)
             deleter_destroy(ir->deleter);
         }
         free(ir->fake_norms);
+        free(ir->one_norms);
 
         mutex_destroy(&ir->mutex);
         mutex_destroy(&ir->field_index_mutex);
@@ -4847,6 +4856,10 @@ static uchar *mr_get_norms_into(IndexReader *ir, int field_num, uchar *buf)
                 IndexReader *reader = MR(ir)->sub_readers[i];
                 reader->get_norms_into(reader, fnum, buf + MR(ir)->starts[i]);
             }
+            else {
+                memset(buf + MR(ir)->starts[i], 0,
+                       MR(ir)->starts[i + 1] - MR(ir)->starts[i]);
+            }
         }
     }
     mutex_unlock(&ir->mutex);
-- 
2.43.0


From 469f304a75977ff523ead5a657d02e4bf59b70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:38 +0000
Subject: [PATCH 069/142] fix: changing a norm clears the cached norms of the
 right field

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 8a40a2d..1e6201c 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4931,7 +4931,7 @@ static void mr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val
     if (fnum >= 0) {
         IndexReader *reader = MR(ir)->sub_readers[i];
         ir->has_changes = true;
-        h_del_int(MR(ir)->norms_cache, fnum);/* clear cache */
+        h_del_int(MR(ir)->norms_cache, field_num);/* clear cache */
         ir_set_norm_i(reader, doc_num - MR(ir)->starts[i], fnum, val);
     }
 }
-- 
2.43.0


From cb838fb8e3dcde12e6916c9d87e0288a724671ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:53 +0000
Subject: [PATCH 070/142] fix: a query parser is usable after an exception in a
 parse

---
 c/src/q_parser.c | 23 +++++++++++++----------
 c/src/q_parser.y | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 3178852..cd5a769 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2179,9 +2179,11 @@ static int yylex(YYSTYPE *lvalp, QParser *qp)
 }
 
 /**
- * yyerror gets called if there is an parse error with the yacc parser.
- * It is responsible for clearing any memory that was allocated during the
- * parsing process.
+ * yyerror gets called if there is an parse error with the yacc parser. It
+ * prepares the error message and makes sure that the memory allocated during
+ * the parsing process gets freed. Note that it doesn't get called when
+ * parsing fails because of an exception so resetting the parser is left to
+ * qp_parse.
  */
 static int yyerror(QParser *qp, char const *msg)
 {
@@ -2190,17 +2192,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -3083,11 +3078,19 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    /* parsing may have failed with a field modifier still on the stack */
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 5e9a9c7..105e2f4 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -442,9 +442,11 @@ static int yylex(YYSTYPE *lvalp, QParser *qp)
 }
 
 /**
- * yyerror gets called if there is an parse error with the yacc parser.
- * It is responsible for clearing any memory that was allocated during the
- * parsing process.
+ * yyerror gets called if there is an parse error with the yacc parser. It
+ * prepares the error message and makes sure that the memory allocated during
+ * the parsing process gets freed. Note that it doesn't get called when
+ * parsing fails because of an exception so resetting the parser is left to
+ * qp_parse.
  */
 static int yyerror(QParser *qp, char const *msg)
 {
@@ -453,17 +455,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -1346,11 +1341,19 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    /* parsing may have failed with a field modifier still on the stack */
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
-- 
2.43.0


From 0b64cd76dac87851e832310d76ba3519888f7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:09 +0000
Subject: [PATCH 071/142] fix: a field query that raises does not free an
 uninitialised query

---
 c/src/q_parser.c | 1 +
 c/src/q_parser.y | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index cd5a769..a89c055 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -215,6 +215,7 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    q = NULL; /* nothing to free if func raises an exception */\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 105e2f4..24095c8 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -163,6 +163,7 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    q = NULL; /* nothing to free if func raises an exception */\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
-- 
2.43.0


From 3ef35cdf5580b8b9ca5ea3b326a0f412c7fed901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:28 +0000
Subject: [PATCH 072/142] fix: two long words in a query do not share one
 buffer

---
 c/include/search.h |  2 +-
 c/src/q_parser.c   | 24 +++++++++++++++---------
 c/src/q_parser.y   | 24 +++++++++++++++---------
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/c/include/search.h b/c/include/search.h
index 3b7b538..55d0bee 100644
--- a/c/include/search.h
+++ b/c/include/search.h
@@ -912,7 +912,7 @@ typedef struct FrtQueryParser
     char *qstr;
     char *qstrp;
     char buf[FRT_QP_CONC_WORDS][FRT_MAX_WORD_SIZE];
-    char *dynbuf;
+    char *dynbuf[FRT_QP_CONC_WORDS];
     int  buf_index;
     FrtHash *field_cache;
     FrtHashSet *def_fields;
diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index a89c055..ec177b3 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2042,13 +2042,14 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     bool is_wild = false;
     int len;
     char c;
-    char *buf = qp->buf[qp->buf_index];
+    const int buf_index = qp->buf_index;
+    char *buf = qp->buf[buf_index];
     char *bufp = buf;
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (qp->dynbuf[buf_index]) {
+        free(qp->dynbuf[buf_index]);
+        qp->dynbuf[buf_index] = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -2084,10 +2085,10 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
+        if (!qp->dynbuf[buf_index] && ((bufp - buf) == MAX_WORD_SIZE)) {
+            char *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            strncpy(dynbuf, buf, MAX_WORD_SIZE);
+            buf = qp->dynbuf[buf_index] = dynbuf;
             bufp = buf + MAX_WORD_SIZE;
         }
     }
@@ -2857,6 +2858,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -2868,6 +2870,10 @@ void qp_destroy(QParser *self)
     qp_pop_fields(self);
     assert(NULL == self->fields_top);
 
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
+
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
@@ -2904,7 +2910,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 24095c8..265d765 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -305,13 +305,14 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     bool is_wild = false;
     int len;
     char c;
-    char *buf = qp->buf[qp->buf_index];
+    const int buf_index = qp->buf_index;
+    char *buf = qp->buf[buf_index];
     char *bufp = buf;
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (qp->dynbuf[buf_index]) {
+        free(qp->dynbuf[buf_index]);
+        qp->dynbuf[buf_index] = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -347,10 +348,10 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
+        if (!qp->dynbuf[buf_index] && ((bufp - buf) == MAX_WORD_SIZE)) {
+            char *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            strncpy(dynbuf, buf, MAX_WORD_SIZE);
+            buf = qp->dynbuf[buf_index] = dynbuf;
             bufp = buf + MAX_WORD_SIZE;
         }
     }
@@ -1120,6 +1121,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -1131,6 +1133,10 @@ void qp_destroy(QParser *self)
     qp_pop_fields(self);
     assert(NULL == self->fields_top);
 
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
+
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
@@ -1167,7 +1173,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
-- 
2.43.0


From 91b1850fbd55f92ed213b7e17a45876665b14651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:44 +0000
Subject: [PATCH 073/142] fix: a word of colons does not overrun the parser's
 word buffer

---
 c/src/q_parser.c | 10 ++++++----
 c/src/q_parser.y | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index ec177b3..f69e4d8 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2081,15 +2081,17 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
             default:
                 *bufp++ = c;
         }
-        /* we've exceeded the static buffer. switch to the dynamic one. The
+        /* we've filled the static buffer (a step can add two characters and
+         * there must be room for the terminator). switch to the dynamic one. The
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf[buf_index] && ((bufp - buf) == MAX_WORD_SIZE)) {
+        if (!qp->dynbuf[buf_index] && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+            const size_t filled = bufp - buf;
             char *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(dynbuf, buf, MAX_WORD_SIZE);
+            memcpy(dynbuf, buf, filled);
             buf = qp->dynbuf[buf_index] = dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+            bufp = buf + filled;
         }
     }
 get_word_done:
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 265d765..2280297 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -344,15 +344,17 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
             default:
                 *bufp++ = c;
         }
-        /* we've exceeded the static buffer. switch to the dynamic one. The
+        /* we've filled the static buffer (a step can add two characters and
+         * there must be room for the terminator). switch to the dynamic one. The
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf[buf_index] && ((bufp - buf) == MAX_WORD_SIZE)) {
+        if (!qp->dynbuf[buf_index] && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+            const size_t filled = bufp - buf;
             char *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(dynbuf, buf, MAX_WORD_SIZE);
+            memcpy(dynbuf, buf, filled);
             buf = qp->dynbuf[buf_index] = dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+            bufp = buf + filled;
         }
     }
 get_word_done:
-- 
2.43.0


From b324021671bf826b160c94d5c6e92a0bad67a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:01 +0000
Subject: [PATCH 074/142] fix: lower casing a query word does not write past
 its end

---
 c/src/q_parser.c | 2 +-
 c/src/q_parser.y | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index f69e4d8..9451dcc 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2470,7 +2470,7 @@ static char *lower_str(char *str)
         }
     }
     free(wstr);
-    str[max_len] = '\0';
+    str[max_len - 1] = '\0';
     return str;
 }
 
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 2280297..4710acc 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -733,7 +733,7 @@ static char *lower_str(char *str)
         }
     }
     free(wstr);
-    str[max_len] = '\0';
+    str[max_len - 1] = '\0';
     return str;
 }
 
-- 
2.43.0


From ca8d003b142fc5540cc0fdf5377420384d5eafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:18 +0000
Subject: [PATCH 075/142] fix: an empty alternative at the start of a phrase

---
 c/src/q_parser.c | 3 +++
 c/src/q_parser.y | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 9451dcc..dcd4eef 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2621,6 +2621,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) { /* there is no previous word */
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 4710acc..5d78450 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -884,6 +884,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) { /* there is no previous word */
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
-- 
2.43.0


From 2e6a03f1d0fce0558aa71ef1ea7c89233f23ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:35 +0000
Subject: [PATCH 076/142] fix: a phrase slop that is not a number is no slop

---
 c/src/q_parser.c | 2 +-
 c/src/q_parser.y | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index dcd4eef..bbdc5e3 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2715,7 +2715,7 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         int pos_inc = 0;
         q = phq_new(field);
         if (slop_str) {
-            int slop;
+            int slop = 0;
             sscanf(slop_str,"%d",&slop);
             ((PhraseQuery *)q)->slop = slop;
         }
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 5d78450..91ada27 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -978,7 +978,7 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         int pos_inc = 0;
         q = phq_new(field);
         if (slop_str) {
-            int slop;
+            int slop = 0;
             sscanf(slop_str,"%d",&slop);
             ((PhraseQuery *)q)->slop = slop;
         }
-- 
2.43.0


From b5f7a8b1ecf106ef802843f7861b81b2b9fde2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:42 +0000
Subject: [PATCH 077/142] fix: cleaning a query keeps the escapes inside quotes

---
 c/src/q_parser.c | 5 +----
 c/src/q_parser.y | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index bbdc5e3..886863e 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2935,9 +2935,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -2975,7 +2972,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && strrchr(special_char, b)) {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 91ada27..123753d 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -1198,9 +1198,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -1238,7 +1235,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && strrchr(special_char, b)) {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
-- 
2.43.0


From 3911b15599d68ca3b351ab9f3b2a7bd0b9c57f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:57 +0000
Subject: [PATCH 078/142] fix: a phrase of alternatives is tokenized for every
 field

---
 c/src/q_parser.c | 26 +++++++++++---------------
 c/src/q_parser.y | 26 +++++++++++---------------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 886863e..dbaa047 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2672,40 +2672,36 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         }
         else {
             int i;
-            int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            /* the words themselves are left as they are as they still have
+             * to be tokenized for the other fields */
+            char **terms = ary_new_type_capa(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
                 if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                    ary_push(terms, estrdup(token->text));
                 }
             }
 
-            switch (term_cnt) {
+            switch (ary_size(terms)) {
                 case 0:
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
-                    q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
+                    q = multi_tq_new_conf(field, ary_size(terms), 0.0);
+                    for (i = 0; i < ary_size(terms); i++) {
                         /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
+                        if (terms[i][0]) {
+                            multi_tq_add_term(q, terms[i]);
                         }
                     }
                     break;
             }
+            ary_destroy(terms, &free);
         }
     }
     else if (pos_cnt > 1) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 123753d..092a217 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -935,40 +935,36 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         }
         else {
             int i;
-            int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            /* the words themselves are left as they are as they still have
+             * to be tokenized for the other fields */
+            char **terms = ary_new_type_capa(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
                 if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                    ary_push(terms, estrdup(token->text));
                 }
             }
 
-            switch (term_cnt) {
+            switch (ary_size(terms)) {
                 case 0:
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
-                    q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
+                    q = multi_tq_new_conf(field, ary_size(terms), 0.0);
+                    for (i = 0; i < ary_size(terms); i++) {
                         /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
+                        if (terms[i][0]) {
+                            multi_tq_add_term(q, terms[i]);
                         }
                     }
                     break;
             }
+            ary_destroy(terms, &free);
         }
     }
     else if (pos_cnt > 1) {
-- 
2.43.0


From ebf478e5a3d510e5464924b422414d761ee7387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:12 +0000
Subject: [PATCH 079/142] fix: lower casing a wildcard or range word for one
 field leaves it for the others

---
 c/src/q_parser.c | 65 +++++++++++++++++++++++++++++-------------------
 c/src/q_parser.y | 65 +++++++++++++++++++++++++++++-------------------
 2 files changed, 80 insertions(+), 50 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index dbaa047..48f86c8 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2446,32 +2446,35 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 }
 
 /**
- * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * Return a downcased copy of a string taking locale into account and works
+ * for multibyte character sets.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
+    char *lower;
     int cnt;
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
     if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
         wchar_t *w = wstr;
+        /* a lower case character can take more bytes than the upper case */
+        const size_t lower_len = (size_t)cnt * MB_CUR_MAX + 1;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        lower = ALLOC_AND_ZERO_N(char, lower_len);
+        wcstombs(lower, wstr, lower_len);
     }
     else {
-        char *s = str;
+        char *s = lower = estrdup(str);
         while (*s) {
             *s = tolower(*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len - 1] = '\0';
-    return str;
+    return lower;
 }
 
 /**
@@ -2483,23 +2486,29 @@ static char *lower_str(char *str)
  * optimized to a MatchAllQuery if the pattern is '*' or a PrefixQuery if the
  * only wild char (*, ?) in the pattern is a '*' at the end of the pattern.
  */
-static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
+static Query *get_wild_q(QParser *qp, Symbol field, char *word)
 {
     Query *q;
     bool is_prefix = false;
-    char *p;
-    int len = (int)strlen(pattern);
+    char *p, *pattern;
+    int len;
 
+    /* work on a copy, the word is still needed for the other fields */
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
+        pattern = lower_str(word);
+    }
+    else {
+        pattern = estrdup(word);
     }
+    len = (int)strlen(pattern);
     
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(pattern);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -2512,15 +2521,15 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
         }
     }
     if (is_prefix) {
-        /* chop off the '*' temporarily to create the query */
+        /* chop off the '*' to create the query */
         pattern[len - 1] = 0;
         q = prefixq_new(field, pattern);
-        pattern[len - 1] = '*';
     }
     else {
         q = wcq_new(field, pattern);
     }
     MTQMaxTerms(q) = qp->max_clauses;
+    free(pattern);
     return q;
 }
 
@@ -2783,15 +2792,16 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
 static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
-    if (qp->wild_lower
-        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        if (from) {
-            lower_str(from);
-        }
-        if (to) {
-            lower_str(to);
-        }
+    Query *volatile rq = NULL;
+    /* only copies get downcased, the other fields still need the words */
+    const bool lower = qp->wild_lower
+        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field));
+
+    if (from) {
+        from = lower ? lower_str(from) : estrdup(from);
+    }
+    if (to) {
+        to = lower ? lower_str(to) : estrdup(to);
     }
 /*
  * terms don't get tokenized as it doesn't really make sense to do so for
@@ -2809,9 +2819,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(from);
+        free(to);
+    XENDTRY
     return rq;
 }
 
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 092a217..c10d46c 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -709,32 +709,35 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 }
 
 /**
- * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * Return a downcased copy of a string taking locale into account and works
+ * for multibyte character sets.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
+    char *lower;
     int cnt;
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
     if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
         wchar_t *w = wstr;
+        /* a lower case character can take more bytes than the upper case */
+        const size_t lower_len = (size_t)cnt * MB_CUR_MAX + 1;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        lower = ALLOC_AND_ZERO_N(char, lower_len);
+        wcstombs(lower, wstr, lower_len);
     }
     else {
-        char *s = str;
+        char *s = lower = estrdup(str);
         while (*s) {
             *s = tolower(*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len - 1] = '\0';
-    return str;
+    return lower;
 }
 
 /**
@@ -746,23 +749,29 @@ static char *lower_str(char *str)
  * optimized to a MatchAllQuery if the pattern is '*' or a PrefixQuery if the
  * only wild char (*, ?) in the pattern is a '*' at the end of the pattern.
  */
-static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
+static Query *get_wild_q(QParser *qp, Symbol field, char *word)
 {
     Query *q;
     bool is_prefix = false;
-    char *p;
-    int len = (int)strlen(pattern);
+    char *p, *pattern;
+    int len;
 
+    /* work on a copy, the word is still needed for the other fields */
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
+        pattern = lower_str(word);
+    }
+    else {
+        pattern = estrdup(word);
     }
+    len = (int)strlen(pattern);
     
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(pattern);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -775,15 +784,15 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
         }
     }
     if (is_prefix) {
-        /* chop off the '*' temporarily to create the query */
+        /* chop off the '*' to create the query */
         pattern[len - 1] = 0;
         q = prefixq_new(field, pattern);
-        pattern[len - 1] = '*';
     }
     else {
         q = wcq_new(field, pattern);
     }
     MTQMaxTerms(q) = qp->max_clauses;
+    free(pattern);
     return q;
 }
 
@@ -1046,15 +1055,16 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
 static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
-    if (qp->wild_lower
-        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        if (from) {
-            lower_str(from);
-        }
-        if (to) {
-            lower_str(to);
-        }
+    Query *volatile rq = NULL;
+    /* only copies get downcased, the other fields still need the words */
+    const bool lower = qp->wild_lower
+        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field));
+
+    if (from) {
+        from = lower ? lower_str(from) : estrdup(from);
+    }
+    if (to) {
+        to = lower ? lower_str(to) : estrdup(to);
     }
 /*
  * terms don't get tokenized as it doesn't really make sense to do so for
@@ -1072,9 +1082,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(from);
+        free(to);
+    XENDTRY
     return rq;
 }
 
-- 
2.43.0


From f631ecc1aef8a77db720ae8a6dc68bb86ee0866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 080/142] fix: the multibyte standard tokenizer scans text of
 any length

---
 c/src/scanner_mb.c  | 248 ++++++++++++++++++++++++------------------
 c/src/scanner_mb.rl | 260 +++++++++++++++++++++++++-------------------
 2 files changed, 292 insertions(+), 216 deletions(-)

diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index f7298eb..b119ec2 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -2,6 +2,7 @@
 #line 1 "src/scanner_mb.rl"
 /* scanner.rl -*-C-*- */
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -6223,55 +6224,41 @@ static const int StdTok_en_main = 1;
 
 #line 34 "src/scanner_mb.rl"
 
-static const char *position_in_mb( const unsigned int *orig_wc,
-                                   const char *orig_mb,
-                                   const unsigned int *curr_wc )
-{
-    const char         *mb = orig_mb;
-    const unsigned int *wc = orig_wc;
-
-    while (wc < curr_wc)
-    {
-        char buf[MB_LEN_MAX];
-        mb += wctomb(buf, *wc);
-        ++wc;
-    }
+/* the number of characters that are converted to begin with */
+#define WINDOW_SIZE 256
 
-    return mb;
-}
-
-static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
+/* The part of the text which has been converted to codepoints */
+typedef struct Window
 {
-    int num_bytes;
-    if ((num_bytes = (int)mbrtowc((wchar_t*)wchr, s, MB_CUR_MAX, state)) < 0) {
-        const char *t = s;
-        do {
-            t++;
-            ZEROSET(state, mbstate_t);
-            num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
-        } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
-    }
-    return num_bytes;
-}
+    unsigned int  *wc;      /* the codepoints */
+    const char   **mb;      /* the position of each of them in the text */
+    size_t         size;    /* the number of codepoints */
+    size_t         capa;
+    int            is_last; /* is there no text left after the window? */
+} Window;
 
-static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
+/* The token found by scan_window */
+typedef struct WindowToken
 {
-    return (int)wcrtomb(s, *wchr, state);
-}
+    unsigned int *ts;         /* start of the token */
+    unsigned int *te;         /* end of the token, NULL if there is none */
+    int           skip;
+    int           trunc;
+    unsigned int  strip_char;
+} WindowToken;
 
 /*
  * All input to Ragel must be in a buffer of 32bit unicode codepoints.
  * To that end, we require that the input to the scanner must be in a
  * codepage that mbtowc will convert to unicode codepoints.  The easy
  * way to do this is to supply the scanner with UTF8.  It will call
- * mbtowc on the buffer, pass it to the tokenizer which will extract
- * one token out.  This token will then be converted back with wctomb.
+ * mbtowc on a part of the text, pass it to the tokenizer which will
+ * extract one token out.  If the tokenizer can't decide what the token
+ * is with that part of the text it gets to see a larger part.
  *
- * frt_scan_mb takes in a pointer to the mb buffer +inmb+ that has max
- * size +in_size+.  The resulting token will be stored in +outmb+,
- * with at most +out_size+ bytes written.
+ * frt_scan_mb takes in a pointer to the null terminated mb buffer
+ * +inmb+.  The resulting token will be stored in +outmb+, with at most
+ * +out_size+ bytes written.
  *
  * While tokenizing, part of the token may be stripped out. Eg,
  * 'foo!!' will become 'foo', and 'http://www.bar.com' will become
@@ -6283,63 +6270,48 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+/* Get the first character at +*s+, skipping invalid bytes by moving +*s+
+ * forward. Returns the size of the character, 0 at the end of the text. */
+static int mb_next_char(unsigned int *wchr, const char **s)
 {
     mbstate_t state;
-    const char *in_p     = in;
-    unsigned int *out_p = out;
-    ZEROSET(&state, mbstate_t);
+    wchar_t wc = 0;
+    size_t num_bytes;
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
-    {
-        /* We can break out early here on, say, a space XXX */
-
-        int n = mb_next_char(out_p, in_p, &state);
-        if (n < 0)
-        {
-            ++in_p;
-            continue;
+    for (;; ++*s) {
+        ZEROSET(&state, mbstate_t);
+        num_bytes = mbrtowc(&wc, *s, MB_CUR_MAX, &state);
+        if (num_bytes != (size_t)-1 && num_bytes != (size_t)-2) {
+            *wchr = (unsigned int)wc;
+            return (int)num_bytes;
         }
-
-        in_p += n;
-        ++out_p;
     }
 }
 
-static void wc_to_mb(char *out, size_t out_size, int *token_size,
-                     const unsigned int *in_wc, size_t in_wc_size)
+/* Convert the start of the text. The codepoints are null terminated. */
+static void window_fill(Window *window, const char *in_mb)
 {
-    mbstate_t state;
-    char *out_p = out;
-    const unsigned int *in_wc_p = in_wc;
-    ZEROSET(&state, mbstate_t);
-    *token_size = 0;
-
-    while (out_p < (out + out_size) && in_wc_p < (in_wc + in_wc_size))
-    {
-        if (!*in_wc_p)
-            break;
+    const char *mb = in_mb;
+    int n = 0;
 
-        int n = wc_next_char(out_p, in_wc_p, &state);
-        if (n < 0)
-        {
-            ++in_wc_p;
-            continue;
-        }
+    window->size = 0;
+    window->is_last = 0;
+    do {
+        n = mb_next_char(&window->wc[window->size], &mb);
+        window->mb[window->size] = mb;
+        mb += n;
+    } while (n > 0 && ++window->size < window->capa);
 
-        out_p += n;
-        ++in_wc_p;
+    if (n == 0) {
+        window->is_last = 1;
     }
-
-    *token_size = out_p - out;
+    window->wc[window->size] = 0;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+/* Look for the first token in the window. If the end of the window is reached
+ * +ts+ is set to the start of what could turn out to be a token given more of
+ * the text. */
+static void scan_window(Window *window, WindowToken *token)
 {
     int cs, act, top;
     int stack[32];
@@ -6357,17 +6329,13 @@ void frt_std_scan_mb(const char *in_mb,
 
 #line 158 "src/scanner_mb.rl"
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
-
-    unsigned int *p = in_wc, *pe = 0, *eof = pe;
+    unsigned int *p = window->wc, *eof = 0;
+    unsigned int *pe = window->is_last ? 0 : window->wc + window->size;
     int skip = 0;
     int trunc = 0;
     unsigned int strip_char = 0;
 
-    *end_mb = 0;
-    *start_mb = 0;
-    *token_size = 0;
+    token->ts = token->te = 0;
 
     
 #line 6374 "src/scanner_mb.c"
@@ -6677,30 +6645,100 @@ _again:
 
     if ( cs == StdTok_error )
                    fwprintf(stderr, L"PARSE ERROR\n");
-    else if ( ts ) fwprintf(stderr, L"STUFF LEFT: '%ls'\n", ts);
+    token->ts = ts;
     return;
 
  ret:
-    {
-        unsigned int out_wc[4096] = {0};
-        size_t __len = te - ts - skip - trunc;
+    token->ts         = ts;
+    token->te         = te;
+    token->skip       = skip;
+    token->trunc      = trunc;
+    token->strip_char = strip_char;
+}
 
-        *start_mb = position_in_mb(in_wc, in_mb, ts);
-        *end_mb   = position_in_mb(in_wc, in_mb, te);
+/* Write the text of the token to +out+ */
+static void write_token(WindowToken *token, char *out, size_t out_size,
+                        int *token_size)
+{
+    const unsigned int *wc = token->ts + token->skip;
+    char *out_p = out;
+    size_t len = 0;
+    mbstate_t state;
+    ZEROSET(&state, mbstate_t);
 
-        if (strip_char) {
-            unsigned int *__p = ts + skip;
-            unsigned int *__o = out_wc;
-            for (; __p < (ts + skip + __len); ++__p) {
-                if (*__p != strip_char)
-                    *__o++ = *__p;
-            }
+    for (; wc < token->te - token->trunc; ++wc) {
+        char buf[MB_LEN_MAX];
+        size_t n = wcrtomb(buf, *wc, &state);
+        if (n == (size_t)-1) {
+            ZEROSET(&state, mbstate_t);
+            continue;
+        }
+        if ((len += n) > out_size) break;
+        if (token->strip_char && *wc == token->strip_char) continue;
+        memcpy(out_p, buf, n);
+        out_p += n;
+    }
+    *token_size = (int)(out_p - out);
+    *out_p = 0;
+}
+
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    unsigned int wc[WINDOW_SIZE + 1];
+    const char *mb[WINDOW_SIZE + 1];
+    Window window;
+    WindowToken token;
+
+    *end_mb = 0;
+    *start_mb = 0;
+    *token_size = 0;
+
+    window.wc = wc;
+    window.mb = mb;
+    window.capa = WINDOW_SIZE;
+
+    for (;;) {
+        window_fill(&window, in_mb);
+        scan_window(&window, &token);
+        if (token.te || window.is_last) {
+            break;
+        }
+        if (token.ts != window.wc) {
+            /* carry on from the start of the possible token */
+            size_t scanned = token.ts ? (size_t)(token.ts - window.wc)
+                                      : window.size;
+            const char *last = window.mb[scanned - 1];
+            unsigned int wchr;
+            in_mb = last + mb_next_char(&wchr, &last);
         }
         else {
-            memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
+            /* the possible token doesn't fit in the window */
+            window.capa *= 2;
+            if (window.wc == wc) {
+                window.wc = ALLOC_N(unsigned int, window.capa + 1);
+                window.mb = ALLOC_N(const char *, window.capa + 1);
+            }
+            else {
+                REALLOC_N(window.wc, unsigned int, window.capa + 1);
+                REALLOC_N(window.mb, const char *, window.capa + 1);
+            }
         }
+    }
+
+    if (token.te) {
+        const char *last = window.mb[token.te - window.wc - 1];
+        unsigned int wchr;
+        *start_mb = window.mb[token.ts - window.wc];
+        *end_mb   = last + mb_next_char(&wchr, &last);
+        write_token(&token, out_mb, out_mb_size, token_size);
+    }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
-        out_mb[*token_size] = 0;
+    if (window.wc != wc) {
+        free(window.wc);
+        free(window.mb);
     }
 }
diff --git a/c/src/scanner_mb.rl b/c/src/scanner_mb.rl
index bc2fe19..20a2af0 100644
--- a/c/src/scanner_mb.rl
+++ b/c/src/scanner_mb.rl
@@ -1,5 +1,6 @@
 /* scanner.rl -*-C-*- */
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -32,55 +33,41 @@
 
 %% write data nofinal;
 
-static const char *position_in_mb( const unsigned int *orig_wc,
-                                   const char *orig_mb,
-                                   const unsigned int *curr_wc )
-{
-    const char         *mb = orig_mb;
-    const unsigned int *wc = orig_wc;
+/* the number of characters that are converted to begin with */
+#define WINDOW_SIZE 256
 
-    while (wc < curr_wc)
-    {
-        char buf[MB_LEN_MAX];
-        mb += wctomb(buf, *wc);
-        ++wc;
-    }
-
-    return mb;
-}
-
-static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
+/* The part of the text which has been converted to codepoints */
+typedef struct Window
 {
-    int num_bytes;
-    if ((num_bytes = (int)mbrtowc((wchar_t*)wchr, s, MB_CUR_MAX, state)) < 0) {
-        const char *t = s;
-        do {
-            t++;
-            ZEROSET(state, mbstate_t);
-            num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
-        } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
-    }
-    return num_bytes;
-}
-
-static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
+    unsigned int  *wc;      /* the codepoints */
+    const char   **mb;      /* the position of each of them in the text */
+    size_t         size;    /* the number of codepoints */
+    size_t         capa;
+    int            is_last; /* is there no text left after the window? */
+} Window;
+
+/* The token found by scan_window */
+typedef struct WindowToken
 {
-    return (int)wcrtomb(s, *wchr, state);
-}
+    unsigned int *ts;         /* start of the token */
+    unsigned int *te;         /* end of the token, NULL if there is none */
+    int           skip;
+    int           trunc;
+    unsigned int  strip_char;
+} WindowToken;
 
 /*
  * All input to Ragel must be in a buffer of 32bit unicode codepoints.
  * To that end, we require that the input to the scanner must be in a
  * codepage that mbtowc will convert to unicode codepoints.  The easy
  * way to do this is to supply the scanner with UTF8.  It will call
- * mbtowc on the buffer, pass it to the tokenizer which will extract
- * one token out.  This token will then be converted back with wctomb.
+ * mbtowc on a part of the text, pass it to the tokenizer which will
+ * extract one token out.  If the tokenizer can't decide what the token
+ * is with that part of the text it gets to see a larger part.
  *
- * frt_scan_mb takes in a pointer to the mb buffer +inmb+ that has max
- * size +in_size+.  The resulting token will be stored in +outmb+,
- * with at most +out_size+ bytes written.
+ * frt_scan_mb takes in a pointer to the null terminated mb buffer
+ * +inmb+.  The resulting token will be stored in +outmb+, with at most
+ * +out_size+ bytes written.
  *
  * While tokenizing, part of the token may be stripped out. Eg,
  * 'foo!!' will become 'foo', and 'http://www.bar.com' will become
@@ -92,63 +79,48 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+/* Get the first character at +*s+, skipping invalid bytes by moving +*s+
+ * forward. Returns the size of the character, 0 at the end of the text. */
+static int mb_next_char(unsigned int *wchr, const char **s)
 {
     mbstate_t state;
-    const char *in_p     = in;
-    unsigned int *out_p = out;
-    ZEROSET(&state, mbstate_t);
-
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
-    {
-        /* We can break out early here on, say, a space XXX */
-
-        int n = mb_next_char(out_p, in_p, &state);
-        if (n < 0)
-        {
-            ++in_p;
-            continue;
+    wchar_t wc = 0;
+    size_t num_bytes;
+
+    for (;; ++*s) {
+        ZEROSET(&state, mbstate_t);
+        num_bytes = mbrtowc(&wc, *s, MB_CUR_MAX, &state);
+        if (num_bytes != (size_t)-1 && num_bytes != (size_t)-2) {
+            *wchr = (unsigned int)wc;
+            return (int)num_bytes;
         }
-
-        in_p += n;
-        ++out_p;
     }
 }
 
-static void wc_to_mb(char *out, size_t out_size, int *token_size,
-                     const unsigned int *in_wc, size_t in_wc_size)
+/* Convert the start of the text. The codepoints are null terminated. */
+static void window_fill(Window *window, const char *in_mb)
 {
-    mbstate_t state;
-    char *out_p = out;
-    const unsigned int *in_wc_p = in_wc;
-    ZEROSET(&state, mbstate_t);
-    *token_size = 0;
-
-    while (out_p < (out + out_size) && in_wc_p < (in_wc + in_wc_size))
-    {
-        if (!*in_wc_p)
-            break;
-
-        int n = wc_next_char(out_p, in_wc_p, &state);
-        if (n < 0)
-        {
-            ++in_wc_p;
-            continue;
-        }
-
-        out_p += n;
-        ++in_wc_p;
+    const char *mb = in_mb;
+    int n = 0;
+
+    window->size = 0;
+    window->is_last = 0;
+    do {
+        n = mb_next_char(&window->wc[window->size], &mb);
+        window->mb[window->size] = mb;
+        mb += n;
+    } while (n > 0 && ++window->size < window->capa);
+
+    if (n == 0) {
+        window->is_last = 1;
     }
-
-    *token_size = out_p - out;
+    window->wc[window->size] = 0;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+/* Look for the first token in the window. If the end of the window is reached
+ * +ts+ is set to the start of what could turn out to be a token given more of
+ * the text. */
+static void scan_window(Window *window, WindowToken *token)
 {
     int cs, act, top;
     int stack[32];
@@ -156,46 +128,112 @@ void frt_std_scan_mb(const char *in_mb,
 
     %% write init;
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
-
-    unsigned int *p = in_wc, *pe = 0, *eof = pe;
+    unsigned int *p = window->wc, *eof = 0;
+    unsigned int *pe = window->is_last ? 0 : window->wc + window->size;
     int skip = 0;
     int trunc = 0;
     unsigned int strip_char = 0;
 
-    *end_mb = 0;
-    *start_mb = 0;
-    *token_size = 0;
+    token->ts = token->te = 0;
 
     %% write exec;
 
     if ( cs == StdTok_error )
                    fwprintf(stderr, L"PARSE ERROR\n");
-    else if ( ts ) fwprintf(stderr, L"STUFF LEFT: '%ls'\n", ts);
+    token->ts = ts;
     return;
 
  ret:
-    {
-        unsigned int out_wc[4096] = {0};
-        size_t __len = te - ts - skip - trunc;
-
-        *start_mb = position_in_mb(in_wc, in_mb, ts);
-        *end_mb   = position_in_mb(in_wc, in_mb, te);
-
-        if (strip_char) {
-            unsigned int *__p = ts + skip;
-            unsigned int *__o = out_wc;
-            for (; __p < (ts + skip + __len); ++__p) {
-                if (*__p != strip_char)
-                    *__o++ = *__p;
-            }
+    token->ts         = ts;
+    token->te         = te;
+    token->skip       = skip;
+    token->trunc      = trunc;
+    token->strip_char = strip_char;
+}
+
+/* Write the text of the token to +out+ */
+static void write_token(WindowToken *token, char *out, size_t out_size,
+                        int *token_size)
+{
+    const unsigned int *wc = token->ts + token->skip;
+    char *out_p = out;
+    size_t len = 0;
+    mbstate_t state;
+    ZEROSET(&state, mbstate_t);
+
+    for (; wc < token->te - token->trunc; ++wc) {
+        char buf[MB_LEN_MAX];
+        size_t n = wcrtomb(buf, *wc, &state);
+        if (n == (size_t)-1) {
+            ZEROSET(&state, mbstate_t);
+            continue;
+        }
+        if ((len += n) > out_size) break;
+        if (token->strip_char && *wc == token->strip_char) continue;
+        memcpy(out_p, buf, n);
+        out_p += n;
+    }
+    *token_size = (int)(out_p - out);
+    *out_p = 0;
+}
+
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    unsigned int wc[WINDOW_SIZE + 1];
+    const char *mb[WINDOW_SIZE + 1];
+    Window window;
+    WindowToken token;
+
+    *end_mb = 0;
+    *start_mb = 0;
+    *token_size = 0;
+
+    window.wc = wc;
+    window.mb = mb;
+    window.capa = WINDOW_SIZE;
+
+    for (;;) {
+        window_fill(&window, in_mb);
+        scan_window(&window, &token);
+        if (token.te || window.is_last) {
+            break;
+        }
+        if (token.ts != window.wc) {
+            /* carry on from the start of the possible token */
+            size_t scanned = token.ts ? (size_t)(token.ts - window.wc)
+                                      : window.size;
+            const char *last = window.mb[scanned - 1];
+            unsigned int wchr;
+            in_mb = last + mb_next_char(&wchr, &last);
         }
         else {
-            memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
+            /* the possible token doesn't fit in the window */
+            window.capa *= 2;
+            if (window.wc == wc) {
+                window.wc = ALLOC_N(unsigned int, window.capa + 1);
+                window.mb = ALLOC_N(const char *, window.capa + 1);
+            }
+            else {
+                REALLOC_N(window.wc, unsigned int, window.capa + 1);
+                REALLOC_N(window.mb, const char *, window.capa + 1);
+            }
         }
+    }
+
+    if (token.te) {
+        const char *last = window.mb[token.te - window.wc - 1];
+        unsigned int wchr;
+        *start_mb = window.mb[token.ts - window.wc];
+        *end_mb   = last + mb_next_char(&wchr, &last);
+        write_token(&token, out_mb, out_mb_size, token_size);
+    }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
-        out_mb[*token_size] = 0;
+    if (window.wc != wc) {
+        free(window.wc);
+        free(window.mb);
     }
 }
-- 
2.43.0


From 00fcd7ef74ff3f4121913f39be83a091b1c89f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:55 +0000
Subject: [PATCH 081/142] fix: the UTF-8 standard tokenizer recognises
 multibyte characters

---
 c/src/scanner_utf8.c  | 46 ++++++++++++++++++++++++++++---------------
 c/src/scanner_utf8.rl | 38 ++++++++++++++++++++++++-----------
 2 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index ad02f83..0bf39a9 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -4051,7 +4051,27 @@ void frt_std_scan_utf8(const char *in,
 {
     int cs, act, top;
     int stack[32];
-    char *ts = 0, *te = 0;
+    unsigned char *ts = 0, *te = 0;
+    unsigned char *p, *pe, *eof;
+    size_t size = 1024;
+    int skip = 0;
+    int trunc = 0;
+    unsigned char strip_char = 0;
+
+    *end = 0;
+    *start = 0;
+    *token_size = 0;
+
+    /* The tokenizer takes any byte for the second byte of a character so it
+     * must not get to see the null at the end of the text. Look at more and
+     * more of the text until a token is found. */
+    do {
+        p = (unsigned char *)in;
+        pe = eof = (unsigned char *)memchr(in, 0, size);
+        if (!pe) {
+            pe = p + size;
+        }
+        skip = trunc = 0;
 
     
 #line 4058 "src/scanner_utf8.c"
@@ -4065,15 +4085,6 @@ void frt_std_scan_utf8(const char *in,
 
 #line 44 "src/scanner_utf8.rl"
 
-    char *p = (char *)in, *pe = 0, *eof = pe;
-    int skip = 0;
-    int trunc = 0;
-    char strip_char = 0;
-
-    *end = 0;
-    *start = 0;
-    *token_size = 0;
-
     
 #line 4079 "src/scanner_utf8.c"
 	{
@@ -4387,9 +4398,12 @@ _again:
 
 #line 55 "src/scanner_utf8.rl"
 
-    if ( cs == StdTok_error )
-                   fprintf(stderr, "PARSE ERROR\n" );
-    else if ( ts ) fprintf(stderr, "STUFF LEFT: '%s'\n", ts);
+        if ( cs == StdTok_error ) {
+            fprintf(stderr, "PARSE ERROR\n" );
+            break;
+        }
+        size *= 2;
+    } while (!eof);
     return;
 
  ret:
@@ -4398,11 +4412,11 @@ _again:
         if (__len > out_size)
             __len = out_size;
 
-        *start = ts;
-        *end   = te;
+        *start = (const char *)ts;
+        *end   = (const char *)te;
 
         if (strip_char) {
-            char *__p = ts + skip;
+            unsigned char *__p = ts + skip;
             char *__o = out;
             for (; __p < (ts + skip + __len); ++__p) {
                 if (*__p != strip_char)
diff --git a/c/src/scanner_utf8.rl b/c/src/scanner_utf8.rl
index dcfbd4b..c394546 100644
--- a/c/src/scanner_utf8.rl
+++ b/c/src/scanner_utf8.rl
@@ -38,24 +38,38 @@ void frt_std_scan_utf8(const char *in,
 {
     int cs, act, top;
     int stack[32];
-    char *ts = 0, *te = 0;
-
-    %% write init;
-
-    char *p = (char *)in, *pe = 0, *eof = pe;
+    unsigned char *ts = 0, *te = 0;
+    unsigned char *p, *pe, *eof;
+    size_t size = 1024;
     int skip = 0;
     int trunc = 0;
-    char strip_char = 0;
+    unsigned char strip_char = 0;
 
     *end = 0;
     *start = 0;
     *token_size = 0;
 
+    /* The tokenizer takes any byte for the second byte of a character so it
+     * must not get to see the null at the end of the text. Look at more and
+     * more of the text until a token is found. */
+    do {
+        p = (unsigned char *)in;
+        pe = eof = (unsigned char *)memchr(in, 0, size);
+        if (!pe) {
+            pe = p + size;
+        }
+        skip = trunc = 0;
+
+    %% write init;
+
     %% write exec;
 
-    if ( cs == StdTok_error )
-                   fprintf(stderr, "PARSE ERROR\n" );
-    else if ( ts ) fprintf(stderr, "STUFF LEFT: '%s'\n", ts);
+        if ( cs == StdTok_error ) {
+            fprintf(stderr, "PARSE ERROR\n" );
+            break;
+        }
+        size *= 2;
+    } while (!eof);
     return;
 
  ret:
@@ -64,11 +78,11 @@ void frt_std_scan_utf8(const char *in,
         if (__len > out_size)
             __len = out_size;
 
-        *start = ts;
-        *end   = te;
+        *start = (const char *)ts;
+        *end   = (const char *)te;
 
         if (strip_char) {
-            char *__p = ts + skip;
+            unsigned char *__p = ts + skip;
             char *__o = out;
             for (; __p < (ts + skip + __len); ++__p) {
                 if (*__p != strip_char)
-- 
2.43.0


From e3874b45182069f1cb36f7f4dea6d808946611cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:10 +0000
Subject: [PATCH 082/142] fix: a URL token only loses a trailing slash

---
 c/src/scanner.c      | 10 +++++-----
 c/src/scanner.in     |  4 ++--
 c/src/scanner_mb.c   | 10 +++++-----
 c/src/scanner_utf8.c | 10 +++++-----
 c/src/url.rl         |  2 +-
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/c/src/scanner.c b/c/src/scanner.c
index 3ba8fae..4957dd9 100644
--- a/c/src/scanner.c
+++ b/c/src/scanner.c
@@ -659,7 +659,7 @@ _eof_trans:
 	break;
 	case 1:
 #line 26 "src/url.rl"
-	{ trunc = 1; }
+	{}
 	break;
 	case 2:
 #line 27 "src/scanner.rl"
@@ -719,7 +719,7 @@ _eof_trans:
 	break;
 	case 18:
 #line 29 "src/scanner.in"
-	{te = p+1;{ RET; }}
+	{te = p+1;{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 19:
 #line 39 "src/scanner.in"
@@ -751,7 +751,7 @@ _eof_trans:
 	break;
 	case 26:
 #line 29 "src/scanner.in"
-	{te = p;p--;{ RET; }}
+	{te = p;p--;{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 27:
 #line 32 "src/scanner.in"
@@ -783,7 +783,7 @@ _eof_trans:
 	break;
 	case 34:
 #line 29 "src/scanner.in"
-	{{p = ((te))-1;}{ RET; }}
+	{{p = ((te))-1;}{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 35:
 #line 35 "src/scanner.in"
@@ -815,7 +815,7 @@ _eof_trans:
 	{{p = ((te))-1;} RET; }
 	break;
 	case 8:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} trunc = (te[-1] == '/'); RET; }
 	break;
 	case 9:
 	{{p = ((te))-1;} STRIP('.'); }
diff --git a/c/src/scanner.in b/c/src/scanner.in
index e5d6589..fa22d4a 100644
--- a/c/src/scanner.in
+++ b/c/src/scanner.in
@@ -25,8 +25,8 @@
         #// Company name
         token [\&\@] token* { RET; };
 
-        #// URL
-        url { RET; };
+        #// URL, without a slash at the end
+        url { trunc = (te[-1] == '/'); RET; };
 
         #// Acronym
         (frt_alpha '.')+ frt_alpha { STRIP('.'); };
diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index b119ec2..946ece7 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -6431,7 +6431,7 @@ _eof_trans:
 	break;
 	case 1:
 #line 26 "src/url.rl"
-	{ trunc = 1; }
+	{}
 	break;
 	case 2:
 #line 30 "src/scanner_mb.rl"
@@ -6495,7 +6495,7 @@ _eof_trans:
 	break;
 	case 19:
 #line 29 "src/scanner.in"
-	{te = p+1;{ RET; }}
+	{te = p+1;{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 20:
 #line 39 "src/scanner.in"
@@ -6527,7 +6527,7 @@ _eof_trans:
 	break;
 	case 27:
 #line 29 "src/scanner.in"
-	{te = p;p--;{ RET; }}
+	{te = p;p--;{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 28:
 #line 32 "src/scanner.in"
@@ -6559,7 +6559,7 @@ _eof_trans:
 	break;
 	case 35:
 #line 29 "src/scanner.in"
-	{{p = ((te))-1;}{ RET; }}
+	{{p = ((te))-1;}{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 36:
 #line 35 "src/scanner.in"
@@ -6591,7 +6591,7 @@ _eof_trans:
 	{{p = ((te))-1;} RET; }
 	break;
 	case 8:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} trunc = (te[-1] == '/'); RET; }
 	break;
 	case 9:
 	{{p = ((te))-1;} STRIP('.'); }
diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index 0bf39a9..a237246 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -4179,7 +4179,7 @@ _eof_trans:
 	break;
 	case 1:
 #line 26 "src/url.rl"
-	{ trunc = 1; }
+	{}
 	break;
 	case 2:
 #line 28 "src/scanner_utf8.rl"
@@ -4247,7 +4247,7 @@ _eof_trans:
 	break;
 	case 20:
 #line 29 "src/scanner.in"
-	{te = p+1;{ RET; }}
+	{te = p+1;{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 21:
 #line 39 "src/scanner.in"
@@ -4279,7 +4279,7 @@ _eof_trans:
 	break;
 	case 28:
 #line 29 "src/scanner.in"
-	{te = p;p--;{ RET; }}
+	{te = p;p--;{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 29:
 #line 32 "src/scanner.in"
@@ -4311,7 +4311,7 @@ _eof_trans:
 	break;
 	case 36:
 #line 29 "src/scanner.in"
-	{{p = ((te))-1;}{ RET; }}
+	{{p = ((te))-1;}{ trunc = (te[-1] == '/'); RET; }}
 	break;
 	case 37:
 #line 35 "src/scanner.in"
@@ -4346,7 +4346,7 @@ _eof_trans:
 	{{p = ((te))-1;} RET; }
 	break;
 	case 8:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} trunc = (te[-1] == '/'); RET; }
 	break;
 	case 9:
 	{{p = ((te))-1;} STRIP('.'); }
diff --git a/c/src/url.rl b/c/src/url.rl
index 36ff3b7..b8aff54 100644
--- a/c/src/url.rl
+++ b/c/src/url.rl
@@ -23,5 +23,5 @@
         #// Port
         ( [:] digit+ )?
 
-        ([/]? @{ trunc = 1; });
+        [/]?;
 }%%
-- 
2.43.0


From 9e533541b0dc79e8e320e10a708a05db4c8f7c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:24 +0000
Subject: [PATCH 083/142] fix: the multibyte tokenizers count the bytes of
 invalid sequences

---
 c/src/analysis.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index ce8ec20..c6e06ef 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -154,6 +154,8 @@ static TokenStream *cts_new()
 
 #define MBTS(token_stream) ((MultiByteTokenStream *)(token_stream))
 
+/* Get the next character skipping invalid bytes. Returns the number of bytes
+ * up to the end of the character including the bytes that were skipped. */
 static INLINE int mb_next_char(wchar_t *wchr, const char *s, mbstate_t *state)
 {
     int num_bytes;
@@ -164,8 +166,11 @@ static INLINE int mb_next_char(wchar_t *wchr, const char *s, mbstate_t *state)
             ZEROSET(state, mbstate_t);
             num_bytes = (int)mbrtowc(wchr, t, MB_CUR_MAX, state);
         } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
+        if (*t == 0) {
+            *wchr = 0;
+            num_bytes = 0;
+        }
+        num_bytes += t - s;
     }
     return num_bytes;
 }
-- 
2.43.0


From 717c84c6288679d3e9212e4887e7ef9e16ef59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:38 +0000
Subject: [PATCH 084/142] fix: HyphenFilter forgets leftover parts when it is
 reset

---
 c/src/analysis.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index c6e06ef..3bbebbb 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1270,9 +1270,19 @@ TokenStream *mapping_filter_add(TokenStream *ts, const char *pattern,
 static TokenStream *hf_clone_i(TokenStream *orig_ts)
 {
     TokenStream *new_ts = filter_clone_size(orig_ts, sizeof(HyphenFilter));
+    /* the token belongs to the sub-stream of the original */
+    HyphenFilt(new_ts)->tk = NULL;
+    HyphenFilt(new_ts)->pos = HyphenFilt(new_ts)->len = 0;
     return new_ts;
 }
 
+static TokenStream *hf_reset(TokenStream *ts, char *text)
+{
+    /* drop the parts that are left of the previous text's last word */
+    HyphenFilt(ts)->pos = HyphenFilt(ts)->len = 0;
+    return filter_reset(ts, text);
+}
+
 static Token *hf_next(TokenStream *ts)
 {
     HyphenFilter *hf = HyphenFilt(ts);
@@ -1337,6 +1347,7 @@ TokenStream *hyphen_filter_new(TokenStream *sub_ts)
     TokenStream *ts = tf_new(HyphenFilter, sub_ts);
     ts->next        = &hf_next;
     ts->clone_i     = &hf_clone_i;
+    ts->reset       = &hf_reset;
     return ts;
 }
 
-- 
2.43.0


From ae23f425ced8e88a40ffe7c86bcf9c5adebca7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:52 +0000
Subject: [PATCH 085/142] fix: the legacy standard tokenizer stays inside its
 buffers

---
 c/src/analysis.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 3bbebbb..979c6b0 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -645,6 +645,8 @@ TokenStream *utf8_standard_tokenizer_new()
 /*
  * LegacyStandardTokenizer
  */
+/* Returns the length of the leading alphanumeric word. Only as much of it as
+ * fits is copied to +token+ */
 static int legacy_std_get_alpha(TokenStream *ts, char *token)
 {
     int i = 0;
@@ -673,10 +675,7 @@ static int mb_legacy_std_get_alpha(TokenStream *ts, char *token)
     }
 
     i = (int)(t - ts->t);
-    if (i > MAX_WORD_SIZE) {
-        i = MAX_WORD_SIZE - 1;
-    }
-    memcpy(token, ts->t, i);
+    memcpy(token, ts->t, min2(i, MAX_WORD_SIZE));
     return i;
 }
 
@@ -952,9 +951,8 @@ static Token *legacy_std_next(TokenStream *ts)
 
     if (t[0] == ':' && t[1] == '/' && t[2] == '/') {
         /* check for a known url start */
-        token[token_i] = '\0';
+        token[min2(token_i, MAX_WORD_SIZE)] = '\0';
         t += 3;
-        token_i += 3;
         while (*t == '/') {
             t++;
         }
@@ -967,7 +965,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         else {              /* still treat as url but keep the first part */
             token_i = (int)(t - start);
-            memcpy(token, start, token_i * sizeof(char));
+            memcpy(token, start, min2(token_i, MAX_WORD_SIZE));
             ts->t = std_get_url(start, token, token_i, &len); /* keep start */
         }
         return tk_set(&(CTS(ts)->token), token, len,
@@ -982,7 +980,7 @@ static Token *legacy_std_next(TokenStream *ts)
         if (is_acronym && !isalpha(*t) && (*t != '.')) {
             is_acronym = false;
         }
-        if (isurlxatpunc(*t) && isurlxatpunc(t[-1])) {
+        if (isurlxatpunc(*t) && t > ts->text && isurlxatpunc(t[-1])) {
             break; /* can't have two punctuation characters in a row */
         }
         if (*t == '@') {
@@ -995,7 +993,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         t++;
     }
-    while (isurlxatpunc(t[-1]) && t > ts->t) {
+    while (t > ts->t && isurlxatpunc(t[-1])) {
         t--;                /* strip trailing punctuation */
     }
 
@@ -1013,7 +1011,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         if (is_acronym) {   /* strip '.'s */
             for (s = start + token_i; s < t; s++) {
-                if (*s != '.') {
+                if (*s != '.' && token_i < MAX_WORD_SIZE) {
                     token[token_i] = *s;
                     token_i++;
                 }
-- 
2.43.0


From 9275a769096c046dc5ba7b83977424ebe69c9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:07 +0000
Subject: [PATCH 086/142] fix: lower casing a long multibyte token does not
 write past its text

---
 c/src/analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 979c6b0..f67be43 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1371,7 +1371,7 @@ static Token *mb_lcf_next(TokenStream *ts)
         *wchr = towlower(*wchr);
         wchr++;
     }
-    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE);
+    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE - 1);
     if (tk->len <= 0) {
         strcpy(tk->text, "BAD_DATA");
         tk->len = 8;
-- 
2.43.0


From caffb3b2556c422a40bc7161b9b650ee4fdbe772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:22 +0000
Subject: [PATCH 087/142] fix: compiling a mapping grows its state table every
 time it is full

---
 c/src/multimapper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index b90e0d0..dbbe10e 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -227,7 +227,9 @@ void mulmap_compile(MultiMapper *self)
         const int plen = (int)strlen(pattern);
         ndstate_add(start, UCtoI(pattern[0]), size);
         if (size + plen + 1 >= capa) {
-            capa <<= 2;
+            while (size + plen + 1 >= capa) {
+                capa <<= 2;
+            }
             REALLOC_N(nstates, State *, capa);
         }
         for (j = 0; j < plen; j++) {
-- 
2.43.0


From d9e48b62c698ac3d4f83e677db1a2be50ca90778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 088/142] fix: mapping an uncompiled MultiMapper compiles it
 first

---
 c/src/multimapper.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index dbbe10e..cd5cedc 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -263,12 +263,12 @@ void mulmap_compile(MultiMapper *self)
 
 int mulmap_map_len(MultiMapper *self, char *to, char *from, int capa)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start, *state;
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    state = start = self->dstates[0];
     while (*s && d < end) {
         state = state->next[UCtoI(*s)];
         if (state->mapping) {
@@ -299,14 +299,14 @@ char *mulmap_map(MultiMapper *self, char *to, char *from, int capa)
 /* Maps a string to a dynamically allocated string */
 char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start, *state;
     int capa = strlen(from);
     char *to = (char *)ecalloc(capa);
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    state = start = self->dstates[0];
     do {
         while (*s && d < end) {
             state = state->next[UCtoI(*s)];
-- 
2.43.0


From d814ef18705f6aaa2d98c6e81f77c6a7a2df0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:50 +0000
Subject: [PATCH 089/142] fix: a dynamic mapping keeps the buffer it grew

---
 c/src/multimapper.c | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index cd5cedc..efbdb15 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -300,37 +300,32 @@ char *mulmap_map(MultiMapper *self, char *to, char *from, int capa)
 char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
     DeterministicState *start, *state;
-    int capa = strlen(from);
-    char *to = (char *)ecalloc(capa);
-    char *s = from, *d = to, *end = to + capa - 1;
+    int capa = strlen(from) + 1;
+    char *to = (char *)emalloc(capa);
+    char *s = from, *d = to;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
     state = start = self->dstates[0];
-    do {
-        while (*s && d < end) {
-            state = state->next[UCtoI(*s)];
-            if (state->mapping) {
-                int len = state->mapping_len;
-                d -= (state->longest_match - 1);
-                if ((d + len) > end) {
-                    len = end - d;
-                }
-                memcpy(d, state->mapping, len);
-                d += len;
-                state = start;
-            }
-            else {
-                *(d++) = *s;
-            }
-            s++;
+    for (; *s; s++) {
+        const char *add = s;
+        int len = 1;
+        state = state->next[UCtoI(*s)];
+        if (state->mapping) {
+            add = state->mapping;
+            len = state->mapping_len;
+            d -= (state->longest_match - 1);
+            state = start;
         }
-        if (*s) {
-            capa += 1024;
-            erealloc(to, capa);
-            end = to + capa - 1;
+        if (d - to + len >= capa) { /* leave room for the terminator */
+            const int d_len = d - to;
+            capa = d_len + len + 1024;
+            REALLOC_N(to, char, capa);
+            d = to + d_len;
         }
-    } while(*s);
+        memcpy(d, add, len);
+        d += len;
+    }
     *d = '\0';
     return to;
 }
-- 
2.43.0


From f99dbb99e3ab0548bb70185cd87447bb243e51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:05 +0000
Subject: [PATCH 090/142] fix: cleaning a query keeps escaped blanks inside
 quotes

---
 c/src/q_parser.c | 2 +-
 c/src/q_parser.y | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 48f86c8..9b8bf1f 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2983,7 +2983,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(special_char, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index c10d46c..8b57f85 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -1246,7 +1246,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(special_char, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
-- 
2.43.0


From 34b52f3150eef02fa549ffc4e778cc798e93b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:08 +0000
Subject: [PATCH 091/142] fix: setting bits of a negated BitVector keeps its
 count of unset bits

---
 c/include/bitvector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 032283d..f3a65eb 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -103,14 +103,14 @@ void frt_bv_set_value(FrtBitVector *bv, int bit, bool value)
     /* Set the required bit */
     word_p = &(bv->bits[word]);
     if ((!!(bitmask & *word_p)) != value) {
-        if (value) {
+        /* a negated BitVector counts its unset bits */
+        if (value != bv->extends_as_ones) {
             bv->count++;
-            *word_p |= bitmask;
         }
         else {
             bv->count--;
-            *word_p &= ~bitmask;
         }
+        *word_p ^= bitmask;
     }
 }
 
-- 
2.43.0


From cbde2a33148b6cf554950725f347a15a84c18f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:29 +0000
Subject: [PATCH 092/142] fix: recounting a BitVector counts only its own bits

---
 c/include/bitvector.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index f3a65eb..b170234 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -220,31 +220,20 @@ extern void frt_bv_clear(FrtBitVector *bv);
 static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_recount(FrtBitVector *bv)
 {
-    unsigned int extra = ((bv->size & 31) >> 3) + 1;
-    unsigned int len   = bv->size >> 5;
+    /* the bits of the last word that are beyond the size are never counted as
+     * they are set in a negated BitVector and unset otherwise */
+    unsigned int len = FRT_TO_WORD(bv->size);
     unsigned int idx, count = 0;
 
     if (bv->extends_as_ones) {
         for (idx = 0; idx < len; ++idx) {
             count += frt_count_zeros(bv->bits[idx]);
         }
-        switch (extra) {
-            case 4: count += frt_count_zeros(bv->bits[idx] | 0x00ffffff);
-            case 3: count += frt_count_zeros(bv->bits[idx] | 0xff00ffff);
-            case 2: count += frt_count_zeros(bv->bits[idx] | 0xffff00ff);
-            case 1: count += frt_count_zeros(bv->bits[idx] | 0xffffff00);
-        }
     }
     else {
         for (idx = 0; idx < len; ++idx) {
             count += frt_count_ones(bv->bits[idx]);
         }
-        switch (extra) {
-            case 4: count += frt_count_ones(bv->bits[idx] & 0xff000000);
-            case 3: count += frt_count_ones(bv->bits[idx] & 0x00ff0000);
-            case 2: count += frt_count_ones(bv->bits[idx] & 0x0000ff00);
-            case 1: count += frt_count_ones(bv->bits[idx] & 0x000000ff);
-        }
     }
     return bv->count = count;
 }
-- 
2.43.0


From cf9d4eae3e5298fc8e1ff3f660799f88da854c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:49 +0000
Subject: [PATCH 093/142] fix: scanning a BitVector checks the bound before it
 reads

---
 c/include/bitvector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index b170234..a333e73 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -260,11 +260,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Keep only the bits above this position */
     word &= ~0 << (bit & 31);
     if (word) {
@@ -310,11 +312,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_unset_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Set all of the bits below this position */
     word |= (1 << (bit & 31)) - 1;
     if (~word) {
-- 
2.43.0


From 56307aff464c3bff1faab7f8ee18ba9555fad21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 094/142] fix: in-place BitVector operations use the operands'
 extension

---
 c/include/bitvector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index a333e73..b58f787 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -410,8 +410,11 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
     int max_word_size = FRT_TO_WORD(max_size);                        \
     int min_word_size = FRT_TO_WORD(min_size);                        \
     int capa = frt_max2(frt_round2(max_word_size), 4);                \
+    /* bv may be the same BitVector as a or b */                      \
+    const bool a_ext = a->extends_as_ones;                            \
+    const bool b_ext = b->extends_as_ones;                            \
                                                                       \
-    bv->extends_as_ones = (a->extends_as_ones op b->extends_as_ones); \
+    bv->extends_as_ones = (a_ext op b_ext);                           \
     frt_bv_capa(bv, capa, max_size);                                  \
                                                                       \
     for (i = 0; i < min_word_size; ++i)                               \
@@ -419,10 +422,10 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
                                                                       \
     if (a_wsz != b_wsz) {                                             \
         frt_u32 *bits = a->bits;                                      \
-        bool extends_as_ones = b->extends_as_ones;                    \
+        bool extends_as_ones = b_ext;                                 \
         if (a_wsz < b_wsz) {                                          \
             bits = b->bits;                                           \
-            extends_as_ones = a->extends_as_ones;                     \
+            extends_as_ones = a_ext;                                  \
         }                                                             \
         ext_cb(bv->bits, bits, extends_as_ones, i, max_word_size);    \
     }                                                                 \
-- 
2.43.0


From 10d6a61bb98b2849f09757efd0b39d880fbccb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:30 +0000
Subject: [PATCH 095/142] fix: the result of a BitVector operation extends
 uniformly

---
 c/include/bitvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index b58f787..3ca7c89 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -429,6 +429,8 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
         }                                                             \
         ext_cb(bv->bits, bits, extends_as_ones, i, max_word_size);    \
     }                                                                 \
+    memset(bv->bits + max_word_size, (bv->extends_as_ones ? 0xFF : 0),\
+           sizeof(frt_u32) * (bv->capa - max_word_size));             \
     frt_bv_recount(bv);                                               \
 } while(0)
 
-- 
2.43.0


From 18643a58258923e056417f5d49c9604143c6c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 096/142] fix: removing an array element moves only the
 elements behind it

---
 c/src/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/array.c b/c/src/array.c
index 17b30b7..044268a 100644
--- a/c/src/array.c
+++ b/c/src/array.c
@@ -101,8 +101,8 @@ void *ary_remove_i(void **ary, int index)
     if (index >= 0 && index < ary_sz(ary)) {
         void *val = ary[index];
         memmove(ary + index, ary + index + 1,
-                (ary_sz(ary) - index + 1) * sizeof(void *));
-        ary_sz(ary)--;
+                (ary_sz(ary) - index - 1) * sizeof(void *));
+        ary[--ary_sz(ary)] = NULL;
         return val;
     }
     else {
-- 
2.43.0


From 8f42bbc7d79f38e313ac4296e1f2db7a7f1b114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:01 +0000
Subject: [PATCH 097/142] fix: cloning an integer hash table

---
 c/src/hash.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index 9d379b8..4a67b95 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -485,12 +485,22 @@ Hash *h_clone(Hash *self, h_clone_ft clone_key, h_clone_ft clone_value)
                      self->eq_i,
                      self->free_key_i,
                      self->free_value_i);
+    ht_clone->lookup_i = self->lookup_i;
 
     for (he = self->table; i > 0; he++) {
         if (he->key && he->key != dummy_key) {        /* active entry */
             key = clone_key ? clone_key(he->key) : he->key;
             value = clone_value ? clone_value(he->value) : he->value;
-            h_set(ht_clone, key, value);
+            if (self->lookup_i == &h_lookup_ptr) {
+                /* the key of an integer table is its hash */
+                HashEntry *he_clone;
+                h_set_ext(ht_clone, (const void *)he->hash, &he_clone);
+                he_clone->key = key;
+                he_clone->value = value;
+            }
+            else {
+                h_set(ht_clone, key, value);
+            }
             i--;
         }
     }
-- 
2.43.0


From cd3429dade74974430924d06999f1451b182579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 098/142] fix: removing a file of a RAM store returns 0 when it
 existed

---
 c/src/ram_store.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index a81cab8..8d91649 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -60,10 +60,10 @@ static int ram_remove(Store *store, const char *filename)
     if (rf != NULL) {
         DEREF(rf);
         rf_close(rf);
-        return true;
+        return 0;
     }
     else {
-        return false;
+        return -1;
     }
 }
 
-- 
2.43.0


From 58090128c75e266454947c470822765b4d74c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:51 +0000
Subject: [PATCH 099/142] fix: touching a file of a RAM store

---
 c/src/ram_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 8d91649..9d67b77 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -40,7 +40,8 @@ static void rf_close(void *p)
 static void ram_touch(Store *store, const char *filename)
 {
     if (h_get(store->dir.ht, filename) == NULL) {
-        h_set(store->dir.ht, filename, rf_new(filename));
+        RAMFile *rf = rf_new(filename);
+        h_set(store->dir.ht, rf->name, rf);
     }
 }
 
-- 
2.43.0


From 420c9ec0f631723d411ce6431e2f60f945cb460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:05 +0000
Subject: [PATCH 100/142] fix: opening an output on an existing RAM file
 truncates it

---
 c/src/ram_store.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 9d67b77..7afbefd 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -286,6 +286,9 @@ static OutStream *ram_new_output(Store *store, const char *filename)
         rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
+    else {
+        rf->len = 0;            /* as a file is truncated */
+    }
     REF(rf);
     os->pointer = 0;
     os->file.rf = rf;
-- 
2.43.0


From 194fef3bd142796f4c1ed1d43b636bd2e7cef281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:21 +0000
Subject: [PATCH 101/142] fix: listing a RAM store hides only lock files

---
 c/src/ram_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 7afbefd..a803a69 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -104,7 +104,7 @@ static void ram_each(Store *store,
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf) {
-            if (strncmp(rf->name, LOCK_PREFIX, strlen(LOCK_PREFIX)) == 0) {
+            if (file_is_lock(rf->name)) {
                 continue;
             }
             func(rf->name, arg);
-- 
2.43.0


From efd5c6cf24d19c8863a080f2f95eed1353d33ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:35 +0000
Subject: [PATCH 102/142] fix: reading past the end of a RAM file raises an
 error

---
 c/src/ram_store.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index a803a69..f8cfb98 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -303,9 +303,15 @@ static void rami_read_i(InStream *is, uchar *b, int len)
     int offset = 0;
     int buffer_number, buffer_offset, bytes_in_buffer, bytes_to_copy;
     int remainder = len;
-    off_t start = is->d.pointer;
+    off_t start = is_pos(is);
     uchar *buffer;
 
+    if (start + len > rf->len) {
+        RAISE(EOF_ERROR, "Tried to read past end of file. File length is "
+              "<%"OFF_T_PFX"d> and tried to read to <%"OFF_T_PFX"d>",
+              rf->len, start + len);
+    }
+
     while (remainder > 0) {
         buffer_number = (int) (start / BUFFER_SIZE);
         buffer_offset = start % BUFFER_SIZE;
-- 
2.43.0


From 1dc55c7566767cdb269b66fb12943a6427320474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:51 +0000
Subject: [PATCH 103/142] fix: adding a file twice to a compound writer

---
 c/src/compound_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/compound_io.c b/c/src/compound_io.c
index 10624a3..b43d3c1 100644
--- a/c/src/compound_io.c
+++ b/c/src/compound_io.c
@@ -292,11 +292,12 @@ CompoundWriter *open_cw(Store *store, char *name)
 
 void cw_add_file(CompoundWriter *cw, char *id)
 {
-    id = estrdup(id);
-    if (hs_add(cw->ids, id) != HASH_KEY_DOES_NOT_EXIST) {
+    if (hs_exists(cw->ids, id)) {
         RAISE(IO_ERROR, "Tried to add file \"%s\" which has already been "
               "added to the compound store", id);
     }
+    id = estrdup(id);
+    hs_add(cw->ids, id);
 
     ary_grow(cw->file_entries);
     ary_last(cw->file_entries).name = id;
-- 
2.43.0


From 0b4fd39e90f7a7e8c88b868de1a386210e6c0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:05 +0000
Subject: [PATCH 104/142] fix: fs_touch reports a failed creat

---
 c/src/fs_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index f0050f2..fc1d0cf 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -49,7 +49,7 @@ static void fs_touch(Store *store, const char *filename)
     int f;
     char path[MAX_FILE_PATH];
     join_path(path, store->dir.path, filename);
-    if ((f = creat(path, store->file_mode)) == 0) {
+    if ((f = creat(path, store->file_mode)) < 0) {
         RAISE(IO_ERROR, "couldn't create file %s: <%s>", path,
               strerror(errno));
     }
-- 
2.43.0


From d01a401f208e7012acbd9cf4bdd496d15c761e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 105/142] fix: the error of a failed file read names the file

---
 c/src/fs_store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index fc1d0cf..7685933 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -279,18 +279,18 @@ static OutStream *fs_new_output(Store *store, const char *filename)
     return os;
 }
 
-static void fsi_read_i(InStream *is, uchar *path, int len)
+static void fsi_read_i(InStream *is, uchar *buf, int len)
 {
     int fd = is->file.fd;
     off_t pos = is_pos(is);
     if (pos != lseek(fd, 0, SEEK_CUR)) {
         lseek(fd, pos, SEEK_SET);
     }
-    if (read(fd, path, len) != len) {
+    if (read(fd, buf, len) != len) {
         /* win: the wrong value can be returned for some reason so double check */
         if (lseek(fd, 0, SEEK_CUR) != (pos + len)) {
             RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
-                  len, path, strerror(errno));
+                  len, is->d.path, strerror(errno));
         }
     }
 }
-- 
2.43.0


From c059e8ac2b9e5be5f0f3f84ea9135d0b70cf4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:02 +0000
Subject: [PATCH 106/142] fix: compacting an empty match vector leaves it empty

---
 c/src/search.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 20a03d0..ff26ace 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -579,7 +579,9 @@ MatchVector *matchv_compact(MatchVector *self)
             self->matches[left].score += self->matches[right].score;
         }
     }
-    self->size = left + 1;
+    if (self->size > 0) {
+        self->size = left + 1;
+    }
     return self;
 }
 
@@ -603,7 +605,9 @@ MatchVector *matchv_compact_with_breaks(MatchVector *self)
             self->matches[left].score += self->matches[right].score;
         }
     }
-    self->size = left + 1;
+    if (self->size > 0) {
+        self->size = left + 1;
+    }
     return self;
 }
 
-- 
2.43.0


From 90fd5fe99ac9e8071114f052a31f6e7963efc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:18 +0000
Subject: [PATCH 107/142] fix: the total excerpt length may exceed an int

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index ff26ace..97acd6d 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -869,7 +869,7 @@ char **searcher_highlight(Searcher *self,
         query = self->rewrite(self, query);
         mv = query->get_matchv_i(query, matchv_new(), tv);
         q_deref(query);
-        if (lazy_df->len < (excerpt_len * num_excerpts)) {
+        if (lazy_df->len < ((double)excerpt_len * num_excerpts)) {
             excerpt_strs = ary_new_type_capa(char *, 1);
             ary_push(excerpt_strs,
                      highlight_field(mv, lazy_df, tv, pre_tag, post_tag));
-- 
2.43.0


From 05b1893b7e9a8132fe13af504d6785acbf68e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:34 +0000
Subject: [PATCH 108/142] fix: the match vector of a query is that of its
 rewritten form

---
 c/src/search.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 97acd6d..2fae554 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -640,18 +640,15 @@ MatchVector *searcher_get_match_vector(Searcher *self,
                                        Symbol field)
 {
     MatchVector *mv = matchv_new();
-    bool rewrite = query->get_matchv_i == q_get_matchv_i;
     TermVector *tv = self->get_term_vector(self, doc_num, field);
-    if (rewrite) {
-        query = self->rewrite(self, query);
-    }
-    if (tv && tv->term_cnt > 0 && tv->terms[0].positions != NULL) {
-        mv = query->get_matchv_i(query, mv, tv);
+    if (tv) {
+        if (tv->term_cnt > 0 && tv->terms[0].positions != NULL) {
+            query = self->rewrite(self, query);
+            mv = query->get_matchv_i(query, mv, tv);
+            q_deref(query);
+        }
         tv_destroy(tv);
     }
-    if (rewrite) {
-        q_deref(query);
-    }
     return mv;
 }
 
-- 
2.43.0


From cc7cce6a859107e65382a3a10237057ba9bdab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:49 +0000
Subject: [PATCH 109/142] fix: matches in the expanded part of an excerpt are
 marked

---
 c/src/search.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 2fae554..c7adee0 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -745,17 +745,32 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
                              const char *post_tag,
                              const char *ellipsis)
 {
-    int i, len;
+    int i, len, num_matches;
     int last_offset = e->start_offset;
-    const int num_matches = e->end - e->start + 1;
     const int pre_tag_len = (int)strlen(pre_tag);
     const int post_tag_len = (int)strlen(post_tag);
     const int ellipsis_len = (int)strlen(ellipsis);
-    char *excerpt_str = ALLOC_N(char,
-                                10 + e->end_offset - e->start_offset
-                                + (num_matches * (pre_tag_len + post_tag_len))
-                                + (2 * ellipsis_len));
-    char *e_ptr = excerpt_str;
+    char *excerpt_str, *e_ptr;
+
+    if ((lazy_df->len - e->end_offset) <= ellipsis_len) {
+        /* no point using ellipsis if it takes up more space */
+        e->end_offset = lazy_df->len;
+    }
+    /* the excerpt may have been expanded over further matches */
+    while (e->start > 0
+           && mv->matches[e->start - 1].start_offset >= e->start_offset) {
+        e->start--;
+    }
+    while (e->end < mv->size - 1
+           && mv->matches[e->end + 1].end_offset <= e->end_offset) {
+        e->end++;
+    }
+    num_matches = e->end - e->start + 1;
+    e_ptr = excerpt_str = ALLOC_N(char,
+                                  10 + e->end_offset - e->start_offset
+                                  + (num_matches
+                                     * (pre_tag_len + post_tag_len))
+                                  + (2 * ellipsis_len));
     if (e->start_offset > 0) {
         memcpy(e_ptr, ellipsis, ellipsis_len);
         e_ptr += ellipsis_len;
@@ -778,10 +793,6 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
         e_ptr += post_tag_len;
         last_offset = mr->end_offset;
     }
-    if ((lazy_df->len - e->end_offset) <= ellipsis_len) {
-        /* no point using ellipsis if it takes up more space */
-        e->end_offset = lazy_df->len;
-    }
     len = e->end_offset - last_offset;
     if (len) {
         lazy_df_get_bytes(lazy_df, e_ptr, last_offset, len);
-- 
2.43.0


From 122140eff367457d1dc26a6333e927dd52ecae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:10 +0000
Subject: [PATCH 110/142] fix: highlighting a compressed field uses the length
 of its text

---
 c/include/index.h    | 2 ++
 c/include/internal.h | 1 +
 c/src/index.c        | 7 ++++++-
 c/src/search.c       | 1 +
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/include/index.h b/c/include/index.h
index 61d202a..5f34791 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -596,6 +596,8 @@ typedef struct FrtLazyDocField
 } FrtLazyDocField;
 
 extern char *frt_lazy_df_get_data(FrtLazyDocField *self, int i);
+/* uncompress a compressed field, so that +len+ is the length of its text */
+extern void frt_lazy_df_uncompress(FrtLazyDocField *self);
 extern void frt_lazy_df_get_bytes(FrtLazyDocField *self, char *buf,
                               int start, int len);
 
diff --git a/c/include/internal.h b/c/include/internal.h
index c3db266..880999f 100644
--- a/c/include/internal.h
+++ b/c/include/internal.h
@@ -671,6 +671,7 @@
 #define iw_optimize                                    frt_iw_optimize
 #define lazy_df_get_bytes                              frt_lazy_df_get_bytes
 #define lazy_df_get_data                               frt_lazy_df_get_data
+#define lazy_df_uncompress                             frt_lazy_df_uncompress
 #define lazy_doc_close                                 frt_lazy_doc_close
 #define lazy_doc_get                                   frt_lazy_doc_get
 #define legacy_standard_analyzer_new                   frt_legacy_standard_analyzer_new
diff --git a/c/src/index.c b/c/src/index.c
index 1e6201c..176cb53 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1406,7 +1406,7 @@ char *lazy_df_get_data(LazyDocField *self, int i)
     return text;
 }
 
-void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
+void lazy_df_uncompress(LazyDocField *self)
 {
     if (self->is_compressed == 1) {
         int i;
@@ -1418,6 +1418,11 @@ void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
         self->len--; /* each field separated by ' ' but no need to add to end */
         self->is_compressed = 2;
     }
+}
+
+void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
+{
+    lazy_df_uncompress(self);
     if (start < 0 || start >= self->len) {
         RAISE(IO_ERROR, "start out of range in LazyDocField#get_bytes. %d "
               "is not between 0 and %d", start, self->len);
diff --git a/c/src/search.c b/c/src/search.c
index c7adee0..6263e3a 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -874,6 +874,7 @@ char **searcher_highlight(Searcher *self,
     if (tv && lazy_df && tv->term_cnt > 0 && tv->terms[0].positions != NULL
         && tv->offsets != NULL) {
         MatchVector *mv;
+        lazy_df_uncompress(lazy_df);
         query = self->rewrite(self, query);
         mv = query->get_matchv_i(query, matchv_new(), tv);
         q_deref(query);
-- 
2.43.0


From 7f5cc4e9c7c08a478d3cc654a648d9fd5d988f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:25 +0000
Subject: [PATCH 111/142] fix: a stale searcher is not used again after the
 reader was reopened

---
 ruby/lib/ferret/index.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index b36bafa..cab6948 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -874,6 +874,7 @@ module Ferret::Index
             end
             if not latest
               @searcher.close if @searcher
+              @searcher = nil
               @reader.close
               return @reader = IndexReader.new(@dir)
             end
-- 
2.43.0


From ba9def6c289fe7e9c6788b8e3f6d883a7bda28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:39 +0000
Subject: [PATCH 112/142] fix: Index#to_s shows every document of an index with
 deletions

---
 ruby/lib/ferret/index.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index cab6948..82735cc 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -807,7 +807,7 @@ module Ferret::Index
 
     def to_s
       buf = ""
-      (0...(size)).each do |i|
+      (0...(reader.max_doc)).each do |i|
         buf << self[i].to_s + "\n" if not deleted?(i)
       end
       buf
-- 
2.43.0


From e5235881a79e9a0f942dc4f5d322d300068ca6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 113/142] fix: add_indexes flushes when auto_flush is set

---
 ruby/lib/ferret/index.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 82735cc..2a0bb3b 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -772,6 +772,7 @@ module Ferret::Index
         end
         ensure_writer_open
         @writer.add_readers(indexes)
+        flush() if @auto_flush
       end
     end
 
-- 
2.43.0


From 99ec4835edc902e31245af60ee08e27da971c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:07 +0000
Subject: [PATCH 114/142] fix: update by id works with auto_flush

---
 ruby/lib/ferret/index.rb | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 2a0bb3b..efeaceb 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -570,11 +570,8 @@ module Ferret::Index
       @dir.synchronize do
         ensure_writer_open()
         delete(id)
-        if id.is_a?(String) or id.is_a?(Symbol)
-          @writer.commit
-        else
-          ensure_writer_open()
-        end
+        ensure_writer_open()
+        @writer.commit if id.is_a?(String) or id.is_a?(Symbol)
         @writer << new_doc
         flush() if @auto_flush
       end
-- 
2.43.0


From 10beabdea802ab86e7e819c89b75dc6c5329e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:23 +0000
Subject: [PATCH 115/142] fix: a compressed field is loaded with the length of
 its text

---
 ruby/ext/r_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 0f1440a..22aafbc 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -1949,7 +1949,7 @@ frb_lazy_df_load(VALUE self, VALUE rkey, LazyDocField *lazy_df)
     if (lazy_df) {
         if (lazy_df->size == 1) {
             char *data = lazy_df_get_data(lazy_df, 0);
-            rdata = rb_str_new(data, lazy_df->len);
+            rdata = rb_str_new(data, lazy_df->data[0].length);
         } else {
             int i;
             rdata = rb_ary_new2(lazy_df->size);
-- 
2.43.0


From 530eb6822b07408501594ae08917cfd2e062d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:38 +0000
Subject: [PATCH 116/142] fix: setting a writer's analyzer applies to its next
 document

---
 ruby/ext/r_index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 22aafbc..09c323e 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -1671,6 +1671,9 @@ frb_iw_set_analyzer(VALUE self, VALUE ranalyzer)
 
     a_deref(iw->analyzer);
     iw->analyzer = frb_get_cwrapped_analyzer(ranalyzer);
+    if (iw->dw) {
+        iw->dw->analyzer = iw->analyzer;
+    }
     return ranalyzer;
 }
 
-- 
2.43.0


From fb84dcdbadc63d3f71af588729596607fdb7fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:52 +0000
Subject: [PATCH 117/142] fix: to_s_pad pads with zeros

---
 ruby/lib/ferret/number_tools.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/number_tools.rb b/ruby/lib/ferret/number_tools.rb
index d5313ae..9cf5c82 100644
--- a/ruby/lib/ferret/number_tools.rb
+++ b/ruby/lib/ferret/number_tools.rb
@@ -46,7 +46,7 @@ class Integer
   #          123.to_s_pad(5) => 00123 and -123.to_s_pad(5) => -0123
   # return:: padding string representation of the number.
   def to_s_pad(width = 10)
-    "%#{width}d" % self
+    "%0#{width}d" % self
   end
 end
 
-- 
2.43.0


From 6d350fdadf5baabae3487943d351c47b9a461d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:48 +0000
Subject: [PATCH 118/142] fix: enumerating the terms of several segments from
 the empty term

---
 c/src/index.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 176cb53..38db824 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2584,16 +2584,10 @@ TermEnum *mte_new(MultiReader *mr, int field_num, const char *term)
         if (fnum >= 0) {
             TermEnumWrapper *tew;
 
-            if (NULL != term) {
-                sub_te = reader->terms_from(reader, fnum, term);
-            }
-            else {
-                sub_te = reader->terms(reader, fnum);
-            }
-
+            sub_te = reader->terms(reader, fnum);
             tew = tew_setup(&(mte->tews[i]), i, sub_te, reader);
-            if (((NULL == term) && tew_next(tew))
-                || (tew->term && (tew->term[0] != '\0'))) {
+            /* the empty string is a term like any other */
+            if (NULL == term ? tew_next(tew) : tew_skip_to(tew, term)) {
                 pq_push(mte->tew_queue, tew);          /* initialize queue */
             }
         }
-- 
2.43.0


From 9b3700b96b09ad6bbeda3d389a30c3a58649baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:04 +0000
Subject: [PATCH 119/142] fix: Ruby enumerators keep their reader alive

---
 ruby/ext/r_index.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 09c323e..4a69d2f 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -61,6 +61,7 @@ static Symbol fsym_content;
 static ID id_term;
 static ID id_fields;
 static ID id_fld_num_map;
+static ID id_reader;
 static ID id_field_num;
 static ID id_boost;
 
@@ -698,6 +699,8 @@ frb_get_te(VALUE rir, TermEnum *te)
         self = Data_Wrap_Struct(cTermEnum, NULL, &frb_te_free, te);
         frb_te_get_set_term(self, te->curr_term);
         rb_ivar_set(self, id_fld_num_map, rb_ivar_get(rir, id_fld_num_map));
+        /* te uses the reader's term index so the reader must outlive it */
+        rb_ivar_set(self, id_reader, rir);
     }
     return self;
 }
@@ -920,6 +923,8 @@ frb_get_tde(VALUE rir, TermDocEnum *tde)
 {
     VALUE self = Data_Wrap_Struct(cTermDocEnum, NULL, &frb_tde_free, tde);
     rb_ivar_set(self, id_fld_num_map, rb_ivar_get(rir, id_fld_num_map));
+    /* tde uses the reader's streams so the reader must outlive it */
+    rb_ivar_set(self, id_reader, rir);
     return self;
 }
 
@@ -2997,6 +3002,7 @@ static void
 Init_TermDocEnum(void)
 {
     id_fld_num_map = rb_intern("@field_num_map");
+    id_reader = rb_intern("@reader");
     id_field_num = rb_intern("@field_num");
 
     cTermDocEnum = rb_define_class_under(mIndex, "TermDocEnum", rb_cObject);
-- 
2.43.0


From 3690c82e22033a28035a4a35b6957ef7f4ad6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:30 +0000
Subject: [PATCH 120/142] fix: term_count of an unknown field is 0

---
 ruby/ext/r_index.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index 4a69d2f..f65e314 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -2616,10 +2616,12 @@ frb_ir_term_count(VALUE self, VALUE rfield)
     IndexReader *ir = (IndexReader *)DATA_PTR(self);
     TermEnum *te = ir_terms(ir, frb_field(rfield));
     int count = 0;
-    while (te->next(te)) {
-        count++;
+    if (te) {
+        while (te->next(te)) {
+            count++;
+        }
+        te->close(te);
     }
-    te->close(te);
     return INT2FIX(count);
 }
 
-- 
2.43.0


From ec5d284f849cd8fc016bc735a61076296645d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:48 +0000
Subject: [PATCH 121/142] fix: to_json of enumerators survives growing its
 buffer

---
 ruby/ext/r_index.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ruby/ext/r_index.c b/ruby/ext/r_index.c
index f65e314..cda0a18 100644
--- a/ruby/ext/r_index.c
+++ b/ruby/ext/r_index.c
@@ -864,8 +864,10 @@ frb_te_to_json(int argc, VALUE *argv, VALUE self)
              * plus some extra for good measure */
             *(jp++) = '[';
             if (te->curr_term_len * 3 + (jp - json) + 100 > capa) {
+                int jlen = (int)(jp - json);
                 capa <<= 1;
                 REALLOC_N(json, char, capa);
+                jp = json + jlen;
             }
             jp = json_concat_string(jp, term);
             *(jp++) = ',';
@@ -880,8 +882,10 @@ frb_te_to_json(int argc, VALUE *argv, VALUE self)
             /* enough room for for term after converting " to '"' and frequency
              * plus some extra for good measure */
             if (te->curr_term_len * 3 + (jp - json) + 100 > capa) {
+                int jlen = (int)(jp - json);
                 capa <<= 1;
                 REALLOC_N(json, char, capa);
+                jp = json + jlen;
             }
             *(jp++) = '{';
             memcpy(jp, "\"term\":", 7);
@@ -1124,8 +1128,12 @@ frb_tde_to_json(int argc, VALUE *argv, VALUE self)
     while (tde->next(tde)) {
         /* 100 chars should be enough room for an extra entry */
         if ((jp - json) + 100 + tde->freq(tde) * 20 > capa) {
-            capa <<= 1;
+            int jlen = (int)(jp - json);
+            do {
+                capa <<= 1;
+            } while (jlen + 100 + tde->freq(tde) * 20 > capa);
             REALLOC_N(json, char, capa);
+            jp = json + jlen;
         }
         sprintf(jp, format, tde->doc_num(tde), tde->freq(tde));
         jp += strlen(jp);
-- 
2.43.0


From f06334b33520a3874b7f0b6391fb4308b14a760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:27 +0000
Subject: [PATCH 122/142] fix: deletions through a reader over several indexes
 take their write locks

---
 c/src/index.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 38db824..684d6ce 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4940,8 +4940,8 @@ static void mr_delete_doc_i(IndexReader *ir, int doc_num)
     GET_READER();
     MR(ir)->num_docs_cache = -1; /* invalidate cache */
 
-    /* dispatch to segment reader */
-    reader->delete_doc_i(reader, doc_num - MR(ir)->starts[i]);
+    /* dispatch to segment reader. It takes its own write lock if it has one */
+    ir_delete_doc(reader, doc_num - MR(ir)->starts[i]);
     MR(ir)->has_deletions = true;
     ir->has_changes = true;
 }
@@ -4954,7 +4954,7 @@ static void mr_undelete_all_i(IndexReader *ir)
     MR(ir)->num_docs_cache = -1;                     /* invalidate cache */
     for (i = 0; i < mr_reader_cnt; i++) {
         IndexReader *reader = MR(ir)->sub_readers[i];
-        reader->undelete_all_i(reader);
+        ir_undelete_all(reader);
     }
     MR(ir)->has_deletions = false;
     ir->has_changes = true;
-- 
2.43.0


From 3b4263a65520ba819540791824b3572f22af72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:58 +0000
Subject: [PATCH 123/142] fix: highlighting a sloppy phrase does not depend on
 earlier uses of the query

---
 c/src/q_phrase.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index e4350c1..cf2403a 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -869,6 +869,8 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
         int slop = PhQ(self)->slop;
         bool done = false;
 
+        qsort(PhQ(self)->positions, pos_cnt, sizeof(PhrasePosition),
+              &phrase_pos_cmp);
         if (slop > 0) {
             PriorityQueue *tvpe_pq = pq_new(pos_cnt, (lt_ft)tvpe_lt, &free);
             int last_pos = 0;
@@ -925,8 +927,6 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
             TVPosEnum *first, *last;
             int first_index = 0;
             done = false;
-            qsort(PhQ(self)->positions, pos_cnt, sizeof(PhrasePosition),
-                  &phrase_pos_cmp);
             for (i = 0; i < pos_cnt; i++) {
                 PhrasePosition *pp = &(PhQ(self)->positions[i]);
                 const int t_cnt = ary_size(pp->terms);
-- 
2.43.0


From 868e425705db0b2fb0d28d62319de0e9e6fc1d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:20 +0000
Subject: [PATCH 124/142] fix: to_json of search results leaves room for
 documents without fields

---
 ruby/ext/r_search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index f59c2c2..b2dea77 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -245,7 +245,7 @@ frb_lzd_load_to_json(LazyDoc *lzd, char **str, char *s, int *slen)
 {
 	int i, j;
 	int diff = s - *str;
-	int len = diff, l;
+	int len = diff + 100, l;
 	LazyDocField *f;
 	
 	for (i = 0; i < lzd->size; i++) {
-- 
2.43.0


From fbd743aa37733560feb47c4d47344fd551d3a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:40 +0000
Subject: [PATCH 125/142] fix: comparing Ruby queries of different classes, or
 with other objects

---
 ruby/ext/r_search.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index b2dea77..211235f 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -479,8 +479,9 @@ frb_q_eql(VALUE self, VALUE other)
 {
     GET_Q();
     Query *oq;
+    if (!RTEST(rb_obj_is_kind_of(other, cQuery))) return Qfalse;
     Data_Get_Struct(other, Query, oq);
-    return q->eq(q, oq) ? Qtrue : Qfalse;
+    return q_eq(q, oq) ? Qtrue : Qfalse;
 }
 
 /*
-- 
2.43.0


From 60e0e40e5f9101af15ed8976d049281dc745b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:58 +0000
Subject: [PATCH 126/142] fix: BooleanClause#query= counts its reference to the
 query

---
 ruby/ext/r_search.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index 211235f..b172dba 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -862,8 +862,12 @@ frb_bc_get_query(VALUE self)
 static VALUE
 frb_bc_set_query(VALUE self, VALUE rquery)
 {
+    Query *q;
     GET_BC();
-    Data_Get_Struct(rquery, Query, bc->query);
+    Data_Get_Struct(rquery, Query, q);
+    REF(q);
+    q_deref(bc->query);
+    bc->query = q;
     return rquery;
 }
 
-- 
2.43.0


From 72881952eb0c7a8f784b1f489d5013e4e99a45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 127/142] fix: BooleanClause#to_s does not include the
 terminating NUL

---
 ruby/ext/r_search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index b172dba..b028d58 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -947,7 +947,7 @@ frb_bc_to_s(VALUE self)
     len = strlen(ostr) + strlen(qstr) + 2;
     str = ALLOC_N(char, len);
     sprintf(str, "%s:%s", ostr, qstr);
-    rstr = rb_str_new(str, len);
+    rstr = rb_str_new2(str);
     free(qstr);
     free(str);
     return rstr;
-- 
2.43.0


From 83471a5f470eb215ae992ac1380b8b7b5b581ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:33 +0000
Subject: [PATCH 128/142] fix: the bounds of Ruby range queries and filters
 survive garbage collection

---
 ruby/ext/r_search.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index b028d58..69344dc 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -1053,26 +1053,29 @@ frb_bq_add_query(int argc, VALUE *argv, VALUE self)
  *
  ****************************************************************************/
 
+/* rbounds keeps the strings that lterm and uterm point into from being garbage
+ * collected while the caller needs them */
 static void
-get_range_params(VALUE roptions, char **lterm, char **uterm,
+get_range_params(VALUE roptions, volatile VALUE *rbounds,
+                 char **lterm, char **uterm,
                  bool *include_lower, bool *include_upper)
 {
     VALUE v;
     Check_Type(roptions, T_HASH);
     if (Qnil != (v = rb_hash_aref(roptions, sym_lower))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = rs2s(rbounds[0] = rb_obj_as_string(v));
         *include_lower = true;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_upper))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = rs2s(rbounds[1] = rb_obj_as_string(v));
         *include_upper = true;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_lower_exclusive))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = rs2s(rbounds[0] = rb_obj_as_string(v));
         *include_lower = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_upper_exclusive))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = rs2s(rbounds[1] = rb_obj_as_string(v));
         *include_upper = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_include_lower))) {
@@ -1082,19 +1085,19 @@ get_range_params(VALUE roptions, char **lterm, char **uterm,
         *include_upper = RTEST(v);
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_greater_than))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = rs2s(rbounds[0] = rb_obj_as_string(v));
         *include_lower = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_greater_than_or_equal_to))) {
-        *lterm = rs2s(rb_obj_as_string(v));
+        *lterm = rs2s(rbounds[0] = rb_obj_as_string(v));
         *include_lower = true;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_less_than))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = rs2s(rbounds[1] = rb_obj_as_string(v));
         *include_upper = false;
     }
     if (Qnil != (v = rb_hash_aref(roptions, sym_less_than_or_equal_to))) {
-        *uterm = rs2s(rb_obj_as_string(v));
+        *uterm = rs2s(rbounds[1] = rb_obj_as_string(v));
         *include_upper = true;
     }
     if (!*lterm && !*uterm) {
@@ -1142,8 +1145,10 @@ frb_rq_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    volatile VALUE rbounds[2] = { Qnil, Qnil };
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rbounds, &lterm, &uterm,
+                     &include_lower, &include_upper);
     q = rq_new(frb_field(rfield),
                lterm, uterm,
                include_lower, include_upper);
@@ -1194,8 +1199,10 @@ frb_trq_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    volatile VALUE rbounds[2] = { Qnil, Qnil };
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rbounds, &lterm, &uterm,
+                     &include_lower, &include_upper);
     q = trq_new(frb_field(rfield),
                 lterm, uterm,
                 include_lower, include_upper);
@@ -2044,8 +2051,10 @@ frb_rf_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    volatile VALUE rbounds[2] = { Qnil, Qnil };
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rbounds, &lterm, &uterm,
+                     &include_lower, &include_upper);
     f = rfilt_new(frb_field(rfield), lterm, uterm,
                   include_lower, include_upper);
     Frt_Wrap_Struct(self, NULL, &frb_f_free, f);
@@ -2091,8 +2100,10 @@ frb_trf_init(VALUE self, VALUE rfield, VALUE roptions)
     char *uterm = NULL;
     bool include_lower = false;
     bool include_upper = false;
+    volatile VALUE rbounds[2] = { Qnil, Qnil };
     
-    get_range_params(roptions, &lterm, &uterm, &include_lower, &include_upper);
+    get_range_params(roptions, rbounds, &lterm, &uterm,
+                     &include_lower, &include_upper);
     f = trfilt_new(frb_field(rfield), lterm, uterm,
                    include_lower, include_upper);
     Frt_Wrap_Struct(self, NULL, &frb_f_free, f);
-- 
2.43.0


From 0562d7899a40a5e91eb9f0535e5254ce780ced27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:49 +0000
Subject: [PATCH 129/142] fix: parsing a sort string does not read before its
 start

---
 ruby/ext/r_search.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index 69344dc..6f1e5ef 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -2373,12 +2373,12 @@ frb_parse_sort_str(Sort *sort, char *xsort_str)
         /* strip spaces */
         e = comma;
         while ((isspace(*s) || *s == ':') && s < e) s++;
-        while (isspace(e[-1]) && s < e) e--;
+        while (s < e && isspace(e[-1])) e--;
         *e = '\0';
         if (e > (s + 4) && strcmp("DESC", &e[-4]) == 0) {
             reverse = true;
             e -= 4;
-            while (isspace(e[-1]) && s < e) e--;
+            while (s < e && isspace(e[-1])) e--;
         }
         *e = '\0';
 
-- 
2.43.0


From 44aba6ea61217c594ef076f9ba857058de9fbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:07 +0000
Subject: [PATCH 130/142] fix: a collected MultiSearcher does not free its
 searchers twice

---
 ruby/ext/r_search.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ruby/ext/r_search.c b/ruby/ext/r_search.c
index 6f1e5ef..c5bc864 100644
--- a/ruby/ext/r_search.c
+++ b/ruby/ext/r_search.c
@@ -3129,8 +3129,6 @@ static void
 frb_ms_free(void *p)
 {
     Searcher *sea = (Searcher *)p;
-    MultiSearcher *msea = (MultiSearcher *)sea;
-    free(msea->searchers);
     object_del(sea);
     searcher_close(sea);
 }
-- 
2.43.0


From 2647d3264ecdf8ce93f529d5c0029056f242ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:09 +0000
Subject: [PATCH 131/142] fix: Ruby tokens keep their text through garbage
 collection

---
 ruby/ext/r_analysis.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index a3ea553..f10b336 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -127,20 +127,23 @@ frb_token_mark(void *p)
 static VALUE
 frb_token_alloc(VALUE klass)
 {
-    return Data_Wrap_Struct(klass, &frb_token_mark, &frb_token_free,
-                            ALLOC(RToken));
+    RToken *token = ALLOC_AND_ZERO(RToken);
+    token->text = Qnil;
+    return Data_Wrap_Struct(klass, &frb_token_mark, &frb_token_free, token);
 }
 
 static VALUE
 get_token(Token *tk)
 {
-    RToken *token = ALLOC(RToken);
+    RToken *token;
+    VALUE rtoken = frb_token_alloc(cToken);
 
+    Data_Get_Struct(rtoken, RToken, token);
     token->text = rb_str_new2(tk->text);
     token->start = tk->start;
     token->end = tk->end;
     token->pos_inc = tk->pos_inc;
-    return Data_Wrap_Struct(cToken, &frb_token_mark, &frb_token_free, token);
+    return rtoken;
 }
 
 Token *
-- 
2.43.0


From 998a2539a642a9487454f40a0e57b84ac1cca25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:25 +0000
Subject: [PATCH 132/142] fix: Token#text= takes what Token.new takes

---
 ruby/ext/r_analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index f10b336..c81b61f 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -270,7 +270,7 @@ frb_token_set_text(VALUE self, VALUE rtext)
 {
     RToken *token;
     GET_TK(token, self);
-    token->text = rtext;
+    token->text = rb_obj_as_string(rtext);
     return rtext;
 }
 
-- 
2.43.0


From 82fd01b316787ee8607435ed177943c8e5261204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:41 +0000
Subject: [PATCH 133/142] fix: TokenStream#text is the text set last

---
 ruby/ext/r_analysis.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index c81b61f..d448dae 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -476,6 +476,7 @@ frb_ts_set_text(VALUE self, VALUE rtext)
     
     /* prevent garbage collection */
     rb_ivar_set(self, id_text, rtext);
+    object_set(&ts->text, rtext);
 
     return rtext;
 }
@@ -543,6 +544,9 @@ frb_tf_free(TokenStream *ts)
     if (TkFilt(ts)->sub_ts && (object_get(&TkFilt(ts)->sub_ts) != Qnil)) {
         object_del(&TkFilt(ts)->sub_ts);
     }
+    if (object_get(&ts->text) != Qnil) {
+        object_del(&ts->text);
+    }
     object_del(ts);
     ts_deref(ts);
 }
-- 
2.43.0


From d3dccf38dda0174b9f2172f1d29f927e61ae0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:57 +0000
Subject: [PATCH 134/142] fix: the offsets of empty matches of a
 RegExpTokenizer

---
 ruby/ext/r_analysis.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index d448dae..d54476c 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -723,7 +723,7 @@ frb_rets_get_text(VALUE self)
 #define END(no) regs->end[no]
 #define STR_ENC_GET(str) rb_enc_from_index(ENCODING_GET(str))
 static VALUE
-  scan_once(VALUE str, VALUE pat, long *start)
+  scan_once(VALUE str, VALUE pat, long *start, int *beg, int *end)
 {
   VALUE match;
   struct re_registers *regs;
@@ -731,6 +731,8 @@ static VALUE
   if (rb_reg_search(pat, str, *start, 0) >= 0) {
     match = rb_backref_get();
     regs = RMATCH_REGS(match);
+    *beg = BEG(0);
+    *end = END(0);
     if (BEG(0) == END(0)) {
       rb_encoding *enc = STR_ENC_GET(str);
       /*
@@ -758,13 +760,12 @@ static Token *
   long rtok_len;
   int beg, end;
   Check_Type(RETS(ts)->regex, T_REGEXP);
-  ret = scan_once(RETS(ts)->rtext, RETS(ts)->regex, &(RETS(ts)->curr_ind));
+  ret = scan_once(RETS(ts)->rtext, RETS(ts)->regex, &(RETS(ts)->curr_ind),
+                  &beg, &end);
   if (NIL_P(ret)) return NULL;
 
   Check_Type(ret, T_STRING);
   rtok_len = RSTRING_LEN(ret);
-  beg = RETS(ts)->curr_ind - rtok_len;
-  end = RETS(ts)->curr_ind;
 
   if (NIL_P(RETS(ts)->proc)) {
     return tk_set(&(CachedTS(ts)->token), rs2s(ret), rtok_len,
-- 
2.43.0


From 48cec15c503d066a10723ea01cd9df9e9a529eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:14 +0000
Subject: [PATCH 135/142] fix: a RegExpTokenizer's proc must return a string

---
 ruby/ext/r_analysis.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index d54476c..b046ea7 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -773,6 +773,7 @@ static Token *
   } else {
     VALUE rtok;
     rtok = rb_funcall(RETS(ts)->proc, id_call, 1, ret);
+    StringValue(rtok);
     return tk_set(&(CachedTS(ts)->token), rs2s(rtok),
       RSTRING_LEN(rtok), beg, end, 1);
   }
-- 
2.43.0


From 26338c4506bc866348ad789a44b20fa7fe3d2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:30 +0000
Subject: [PATCH 136/142] fix: the text of a RegExpAnalyzer's token stream
 survives garbage collection

---
 ruby/ext/r_analysis.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index b046ea7..d51ddfe 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -816,6 +816,8 @@ static TokenStream *
 rets_reset(TokenStream *ts, char *text)
 {
     RETS(ts)->rtext = rb_str_new2(text);
+    /* prevent from being garbage collected */
+    rb_hash_aset(object_space, ((VALUE)ts)|1, RETS(ts)->rtext);
     RETS(ts)->curr_ind = 0;
     return ts;
 }
-- 
2.43.0


From 14a7ae6b8d561165d360f3ce8f3e1fffd5599d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 137/142] fix: stop words given as symbols survive garbage
 collection

---
 ruby/ext/r_analysis.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index d51ddfe..3d29be4 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -81,19 +81,24 @@ frb_rb_hash_size(VALUE hash)
  *
  ****************************************************************************/
 
+/* replaces *rstop_words by an array of the strings that the returned stop words
+ * point into; the caller must keep it from being garbage collected */
 static char **
-get_stopwords(VALUE rstop_words)
+get_stopwords(volatile VALUE *rstop_words)
 {
     char **stop_words;
     int i, len;
-    VALUE rstr;
-    Check_Type(rstop_words, T_ARRAY);
-    len = RARRAY_LEN(rstop_words);
-    stop_words = ALLOC_N(char *, RARRAY_LEN(rstop_words) + 1);
+    VALUE rwords = *rstop_words;
+    Check_Type(rwords, T_ARRAY);
+    len = RARRAY_LEN(rwords);
+    *rstop_words = rb_ary_new2(len);
+    for (i = 0; i < len; i++) {
+        rb_ary_push(*rstop_words, rb_obj_as_string(RARRAY_PTR(rwords)[i]));
+    }
+    stop_words = ALLOC_N(char *, len + 1);
     stop_words[len] = NULL;
     for (i = 0; i < len; i++) {
-        rstr = rb_obj_as_string(RARRAY_PTR(rstop_words)[i]);
-        stop_words[i] = rs2s(rstr);
+        stop_words[i] = rs2s(RARRAY_PTR(*rstop_words)[i]);
     }
     return stop_words;
 }
@@ -1068,12 +1073,13 @@ frb_hyphen_filter_init(VALUE self, VALUE rsub_ts)
 static VALUE
 frb_stop_filter_init(int argc, VALUE *argv, VALUE self) 
 {
-    VALUE rsub_ts, rstop_words;
+    VALUE rsub_ts;
+    volatile VALUE rstop_words;
     TokenStream *ts;
     rb_scan_args(argc, argv, "11", &rsub_ts, &rstop_words);
     ts = frb_get_cwrapped_rts(rsub_ts);
     if (rstop_words != Qnil) {
-        char **stop_words = get_stopwords(rstop_words);
+        char **stop_words = get_stopwords(&rstop_words);
         ts = stop_filter_new_with_words(ts, (const char **)stop_words);
 
         free(stop_words);
@@ -1455,12 +1461,13 @@ static VALUE
 frb_a_standard_analyzer_init(int argc, VALUE *argv, VALUE self)
 {
     bool lower;
-    VALUE rlower, rstop_words;
+    VALUE rlower;
+    volatile VALUE rstop_words;
     Analyzer *a;
     rb_scan_args(argc, argv, "02", &rstop_words, &rlower);
     lower = ((rlower == Qnil) ? true : RTEST(rlower));
     if (rstop_words != Qnil) {
-        char **stop_words = get_stopwords(rstop_words);
+        char **stop_words = get_stopwords(&rstop_words);
         a = standard_analyzer_new_with_words((const char **)stop_words, lower);
         free(stop_words);
     } else {
@@ -1488,7 +1495,8 @@ static VALUE
 frb_standard_analyzer_init(int argc, VALUE *argv, VALUE self)
 {
     bool lower;
-    VALUE rlower, rstop_words;
+    VALUE rlower;
+    volatile VALUE rstop_words;
     Analyzer *a;
 #ifndef POSH_OS_WIN32
     if (!frb_locale) frb_locale = setlocale(LC_CTYPE, "");
@@ -1496,7 +1504,7 @@ frb_standard_analyzer_init(int argc, VALUE *argv, VALUE self)
     rb_scan_args(argc, argv, "02", &rstop_words, &rlower);
     lower = ((rlower == Qnil) ? true : RTEST(rlower));
     if (rstop_words != Qnil) {
-        char **stop_words = get_stopwords(rstop_words);
+        char **stop_words = get_stopwords(&rstop_words);
         a = mb_standard_analyzer_new_with_words((const char **)stop_words, lower);
         free(stop_words);
     } else {
-- 
2.43.0


From 2e6bf4b820c146f52862a083ce2b55924df7ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:02 +0000
Subject: [PATCH 138/142] fix: the names given to a StemFilter survive garbage
 collection

---
 ruby/ext/r_analysis.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 3d29be4..3282dee 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -1202,15 +1202,16 @@ frb_mapping_filter_init(VALUE self, VALUE rsub_ts, VALUE mapping)
 static VALUE
 frb_stem_filter_init(int argc, VALUE *argv, VALUE self) 
 {
-    VALUE rsub_ts, ralgorithm, rcharenc;
+    VALUE rsub_ts;
+    volatile VALUE ralgorithm, rcharenc;
     const char *algorithm = "english";
     char *charenc = NULL;
     TokenStream *ts;
     rb_scan_args(argc, argv, "12", &rsub_ts, &ralgorithm, &rcharenc);
     ts = frb_get_cwrapped_rts(rsub_ts);
     switch (argc) {
-        case 3: charenc = rs2s(rb_obj_as_string(rcharenc));
-        case 2: algorithm = rs2s(rb_obj_as_string(ralgorithm));
+        case 3: charenc = rs2s(rcharenc = rb_obj_as_string(rcharenc));
+        case 2: algorithm = rs2s(ralgorithm = rb_obj_as_string(ralgorithm));
     }
     ts = stem_filter_new(ts, algorithm, charenc);
     object_add(&(TkFilt(ts)->sub_ts), rsub_ts);
-- 
2.43.0


From a5bfd02e9ff76d188a474aa8f14a50e2f010b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:18 +0000
Subject: [PATCH 139/142] fix: token streams returned by Ruby analyzers live as
 long as they are used

---
 ruby/ext/r_analysis.c | 55 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 3282dee..123312d 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -604,6 +604,40 @@ cwrts_clone_i(TokenStream *orig_ts)
     return new_ts;
 }
 
+static TokenStream *
+cwrts_new(VALUE rts)
+{
+    TokenStream *ts = ts_new(CWrappedTokenStream);
+    CWTS(ts)->rts = rts;
+    ts->next = &cwrts_next;
+    ts->reset = &cwrts_reset;
+    ts->clone_i = &cwrts_clone_i;
+    ts->destroy_i = &cwrts_destroy_i;
+    /* prevent from being garbage collected */
+    rb_hash_aset(object_space, ((VALUE)ts)|1, rts);
+    ts->ref_cnt = 1;
+    return ts;
+}
+
+/* the wrapped object is a C token stream */
+static Token *
+cwrts_c_next(TokenStream *ts)
+{
+    TokenStream *c_ts;
+    GET_TS(c_ts, CWTS(ts)->rts);
+    return c_ts->next(c_ts);
+}
+
+static TokenStream *
+cwrts_c_reset(TokenStream *ts, char *text)
+{
+    TokenStream *c_ts;
+    GET_TS(c_ts, CWTS(ts)->rts);
+    ts->t = ts->text = text;
+    c_ts->reset(c_ts, text);
+    return ts;
+}
+
 static TokenStream *
 frb_get_cwrapped_rts(VALUE rts) 
 {
@@ -613,15 +647,7 @@ frb_get_cwrapped_rts(VALUE rts)
         REF(ts);
     }
     else {
-        ts = ts_new(CWrappedTokenStream);
-        CWTS(ts)->rts = rts;
-        ts->next = &cwrts_next;
-        ts->reset = &cwrts_reset;
-        ts->clone_i = &cwrts_clone_i;
-        ts->destroy_i = &cwrts_destroy_i;
-        /* prevent from being garbage collected */
-        rb_hash_aset(object_space, ((VALUE)ts)|1, rts);
-        ts->ref_cnt = 1;
+        ts = cwrts_new(rts);
     }
     return ts;
 }
@@ -1257,7 +1283,16 @@ cwa_get_ts(Analyzer *a, Symbol field, char *text)
 {
     VALUE rts = rb_funcall(CWA(a)->ranalyzer, id_token_stream, 2,
                            FSYM2SYM(field), rb_str_new2(text));
-    return frb_get_cwrapped_rts(rts);
+    TokenStream *ts = frb_get_cwrapped_rts(rts);
+    if (ts->next != &cwrts_next) {
+        /* a C token stream does not keep its text from being garbage collected
+         * but the Ruby object does, so keep that as long as it is used */
+        ts_deref(ts);
+        ts = cwrts_new(rts);
+        ts->next = &cwrts_c_next;
+        ts->reset = &cwrts_c_reset;
+    }
+    return ts;
 } 
 
 Analyzer *
-- 
2.43.0


From 89c24c79cb2fff254f160aa5b173afd654239d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:34 +0000
Subject: [PATCH 140/142] fix: token streams keep the analyzer whose regular
 expression they use

---
 ruby/ext/r_analysis.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 123312d..5239049 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -50,6 +50,7 @@ static ID id_next;
 static ID id_reset;
 static ID id_clone;
 static ID id_text;
+static ID id_analyzer;
 
 /* Analyzer Methods */
 static ID id_token_stream;
@@ -1635,7 +1636,10 @@ frb_pfa_analyzer_token_stream(VALUE self, VALUE rfield, VALUE rstring)
                           FSYM2SYM(field), rb_str_new2(rs2s(rstring)));
     }
     else {
-        return get_rb_ts_from_a(a, rfield, rstring);
+        VALUE rts = get_rb_ts_from_a(a, rfield, rstring);
+        /* the token stream may use the analyzer's regular expression and proc */
+        rb_ivar_set(rts, id_analyzer, object_get(a));
+        return rts;
     }
 }
 
@@ -1704,6 +1708,7 @@ frb_re_analyzer_token_stream(VALUE self, VALUE rfield, VALUE rtext)
 {
     TokenStream *ts;
     Analyzer *a;
+    VALUE rts;
     GET_A(a, self);
 
     StringValue(rtext);
@@ -1720,7 +1725,10 @@ frb_re_analyzer_token_stream(VALUE self, VALUE rfield, VALUE rtext)
         RETS(((TokenFilter*)ts)->sub_ts)->rtext = rtext;
         rb_hash_aset(object_space, ((VALUE)((TokenFilter*)ts)->sub_ts)|1, rtext);
     }
-    return get_rb_token_stream(ts);
+    rts = get_rb_token_stream(ts);
+    /* the token stream uses the analyzer's regular expression and proc */
+    rb_ivar_set(rts, id_analyzer, self);
+    return rts;
 }
 
 /****************************************************************************
@@ -2609,6 +2617,7 @@ Init_Analysis(void)
     id_reset = rb_intern("text=");
     id_clone = rb_intern("clone");
     id_text = rb_intern("@text");
+    id_analyzer = rb_intern("@analyzer");
 
     /* Analyzer Methods */
     id_token_stream = rb_intern("token_stream");
-- 
2.43.0


From fd77c07b21cb296a286e387abe4cce7e484c57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:51 +0000
Subject: [PATCH 141/142] fix: a RegExpAnalyzer's token stream survives garbage
 collection in its creation

---
 ruby/ext/r_analysis.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruby/ext/r_analysis.c b/ruby/ext/r_analysis.c
index 5239049..a0f6b74 100644
--- a/ruby/ext/r_analysis.c
+++ b/ruby/ext/r_analysis.c
@@ -1671,7 +1671,8 @@ re_analyzer_destroy_i(Analyzer *a)
 static VALUE
 frb_re_analyzer_init(int argc, VALUE *argv, VALUE self)
 {
-    VALUE lower, rets, regex, proc;
+    VALUE lower, regex, proc;
+    volatile VALUE rets; /* the analyzer does not keep it alive until the end */
     Analyzer *a;
     TokenStream *ts;
     rb_scan_args(argc, argv, "02&", &regex, &lower, &proc);
-- 
2.43.0


From 5f392de947c081b0866a0e0d55cc6d6d650cd01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:08 +0000
Subject: [PATCH 142/142] fix: Ferret's objects are not taken for objects with
 write barriers

---
 ruby/ext/ferret.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ruby/ext/ferret.c b/ruby/ext/ferret.c
index 603c680..f4b8aa8 100644
--- a/ruby/ext/ferret.c
+++ b/ruby/ext/ferret.c
@@ -99,9 +99,18 @@ void frb_gc_mark(void *key)
         rb_gc_mark(val);
 }
 
+static void frb_no_mark(void *p)
+{
+    (void)p;
+}
+
 VALUE frb_data_alloc(VALUE klass)
 {
-    return Frt_Make_Struct(klass);
+    /* The mark function is set later, by Frt_Wrap_Struct. Without one Ruby's
+     * generational garbage collector takes the object for one with write
+     * barriers and does not look for references added to old objects. */
+    return rb_data_object_alloc(klass, NULL, (RUBY_DATA_FUNC)&frb_no_mark,
+                                (RUBY_DATA_FUNC)NULL);
 }
 
 void frb_deref_free(void *p)
-- 
2.43.0

