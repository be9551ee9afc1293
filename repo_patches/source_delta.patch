From 3664c9229cf0d7b16c8f8a15d8b3d01edcb246cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 001/102] fix: u_data_dump() must report errors surfacing at
 fclose(3) and accept empty data

---
 srcs/toolbox/misc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0f0a3b6..6159706 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -499,11 +499,16 @@ inline void u_use_unused_args (char *dummy, ...)
  */
 int u_data_dump (char *data, size_t sz, const char *file)
 {
+    int rc;
     FILE *fp = NULL;
 
     dbg_err_sif ((fp = fopen(file, "w")) == NULL); 
-    dbg_err_sif (fwrite(data, sz, 1, fp) < 1);
-    fclose(fp);
+    dbg_err_sif (sz > 0 && fwrite(data, sz, 1, fp) < 1);
+
+    /* buffered data may hit the disk (and fail) just now */
+    rc = fclose(fp);
+    fp = NULL;
+    dbg_err_sif (rc != 0);
 
     return 0;
 err:
-- 
2.43.0


From b25aa5127bdf886104dbc5617099a9e6949fd1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 002/102] fix: u_savepid() must report write errors

---
 srcs/toolbox/misc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 6159706..50c7abe 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -429,13 +429,17 @@ err:
  */
 int u_savepid (const char *pf)
 {
+    int rc;
     FILE *pfp = NULL;
 
     dbg_return_if (pf == NULL, ~0);
 
     dbg_err_sif ((pfp = fopen(pf, "w")) == NULL);
-    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) == 0);
-    fclose(pfp);
+    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) <= 0);
+
+    rc = fclose(pfp);
+    pfp = NULL;
+    dbg_err_sif (rc != 0);
 
     return 0;
 err:
-- 
2.43.0


From 34e1b652181c0df2417874076ead36b3fc6bf54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 003/102] fix: u_load_file() must load empty files too

---
 srcs/toolbox/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 50c7abe..8f23f6f 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -548,8 +548,8 @@ int u_load_file (const char *path, size_t sz_max, char **pbuf, size_t *psz)
     sz = sb.st_size;
     dbg_err_ifm (sz_max > 0 && sz > sz_max, 
             "file too big (%zu vs %zu bytes)", sz, sz_max);
-    dbg_err_sif ((buf = u_zalloc(sz)) == NULL);
-    dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    dbg_err_sif ((buf = u_zalloc(sz + 1)) == NULL);
+    dbg_err_sifm (sz > 0 && fread(buf, sz, 1, fp) != 1, "%s", path);
     
     U_FCLOSE(fp);
     
-- 
2.43.0


From 0017a108f8ee2a3337c07111551fd33c5b137598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 004/102] fix: u_buf_load() must load empty files and
 zero-terminate the buffer

---
 srcs/toolbox/buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 38819ed..aed28e6 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -127,9 +127,13 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
     dbg_err_sifm ((fp = fopen(filename, "r")) == NULL, "%s", filename);
 
     /* fill the buffer with the whole file content */
-    dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
+    dbg_err_if (st.st_size > 0 && fread(ubuf->data, st.st_size, 1, fp) != 1);
     ubuf->len = st.st_size;
 
+    /* the data block (if any) is always zero-terminated */
+    if (ubuf->data)
+        ubuf->data[ubuf->len] = '\0';
+
     (void) fclose(fp);
 
     return 0;
-- 
2.43.0


From 66cac57a0c7c3f65c10ab9098ab8ccd920d42888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 005/102] fix: u_copy() must detect read errors and partial
 writes

---
 srcs/toolbox/fs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index fa37772..c2082ec 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -49,9 +49,11 @@ int u_copy (const char *src, const char *dst)
 
     while((c = fread(buf, 1, sizeof(buf), sfp)) > 0)
     {
-        dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
+        dbg_err_sifm(fwrite(buf, 1, c, dfp) != c, "error writing to %s", dst);
     }
 
+    dbg_err_sifm(ferror(sfp), "error reading from %s", src);
+
     dbg_err_sif(fclose(sfp)); sfp = NULL;
 
     dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
-- 
2.43.0


From bda5fc195d8060535426dcea23fff0af06635e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 006/102] fix: u_copy() must not close a stream twice when
 fclose(3) fails

---
 srcs/toolbox/fs.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index c2082ec..3eb1c17 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -35,6 +35,7 @@
 int u_copy (const char *src, const char *dst)
 {
     FILE *sfp = NULL, *dfp = NULL;
+    int rc;
     size_t c;
     char buf[4096];
 
@@ -54,9 +55,12 @@ int u_copy (const char *src, const char *dst)
 
     dbg_err_sifm(ferror(sfp), "error reading from %s", src);
 
-    dbg_err_sif(fclose(sfp)); sfp = NULL;
+    /* whatever fclose() returns, the stream can't be used any more */
+    rc = fclose(sfp); sfp = NULL;
+    dbg_err_sif(rc);
 
-    dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
+    rc = fclose(dfp); dfp = NULL;
+    dbg_err_sifm(rc, "error flushing %s", dst);
 
     return 0;
 err:
-- 
2.43.0


From 1ddea2935008cc26b62877bacaaec5c79c97fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 007/102] fix: u_move() must fail when the source name can't be
 removed

---
 srcs/toolbox/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index 3eb1c17..3d694c2 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -100,7 +100,7 @@ int u_move(const char *src, const char *dst)
     dbg_err_if(u_copy(src, dst));
 #endif
 
-    dbg_if(u_remove(src) < 0);
+    dbg_err_if(u_remove(src));
 
     return 0;
 err:
-- 
2.43.0


From 1393c7a791875a126a39cfffec68d897f603137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 008/102] fix: u_copy() of a file onto itself must not destroy
 it

---
 srcs/toolbox/fs.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index 3d694c2..a40f79e 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <errno.h>
 
 #include <u/libu_conf.h>
 #include <toolbox/fs.h>
@@ -38,6 +39,7 @@ int u_copy (const char *src, const char *dst)
     int rc;
     size_t c;
     char buf[4096];
+    struct stat ssb, dsb;
 
     dbg_return_if (src == NULL, ~0);
     dbg_return_if (dst == NULL, ~0);
@@ -45,6 +47,13 @@ int u_copy (const char *src, const char *dst)
     sfp = fopen(src, "rb");
     dbg_err_sifm(sfp == NULL, "unable to open %s for reading", src);
 
+    /* opening the destination truncates it: never do that to the source */
+    dbg_err_sif(fstat(fileno(sfp), &ssb) == -1);
+    rc = stat(dst, &dsb);
+    dbg_err_sif(rc == -1 && errno != ENOENT);
+    dbg_err_ifm(rc == 0 && ssb.st_dev == dsb.st_dev && ssb.st_ino == dsb.st_ino,
+            "%s and %s are the same file", src, dst);
+
     dfp = fopen(dst, "wb+");
     dbg_err_sifm(dfp == NULL, "unable to open %s for writing", dst);
 
-- 
2.43.0


From e9e8b9470a0de50b8ea9f960543d09931b6fb932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 009/102] fix: u_string printf family must not loop on output
 errors nor leave partial text on failure

---
 srcs/toolbox/str.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 7642944..32f94f6 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -460,6 +460,7 @@ int u_string_aprintf (u_string_t *s, const char *fmt, ...)
 static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt, 
         va_list ap)
 {
+    int n;
     size_t sz, avail;
     va_list apcpy;
 
@@ -479,11 +480,14 @@ again:
      * if the return value is greater than or equal to the size argument, 
      * the string was too short and some of the printed characters were 
      * discarded; in that case realloc a bigger buffer and retry */
-    sz = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
+    n = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
 
     va_end(apcpy);
 
-    if (sz >= avail)
+    /* output error (e.g. EILSEQ or EOVERFLOW) */
+    dbg_err_if (n < 0);
+
+    if ((sz = (size_t) n) >= avail)
     {
         dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
 
@@ -498,5 +502,8 @@ again:
 
     return 0;
 err:
+    /* drop what vsnprintf could have left after the current string */
+    s->data[s->data_len] = '\0';
+
     return ~0;
 }
-- 
2.43.0


From 7e06973849eede34b01c3c2e0a7085bb760f5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 010/102] fix: failed u_string_append() must not inflate later
 allocation requests

---
 srcs/toolbox/str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 32f94f6..c87a88c 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -378,7 +378,7 @@ int u_string_do_printf (u_string_t *s, int clear, const char *fmt, ...)
  */
 int u_string_append (u_string_t *s, const char *buf, size_t len)
 {
-    size_t nsz, min;
+    size_t nsz, min, shift;
 
     dbg_return_if (s == NULL, ~0);
     dbg_return_if (buf == NULL, ~0);
@@ -389,10 +389,15 @@ int u_string_append (u_string_t *s, const char *buf, size_t len)
     {
         min = s->data_len + len + 1; /* min required buffer length */
         nsz = s->data_sz;
+        shift = s->shift_cnt;
         while (nsz <= min)
-            nsz += (BLOCK_SIZE << s->shift_cnt++);
+            nsz += ((size_t) BLOCK_SIZE << shift++);
 
         dbg_err_if (u_string_reserve(s, nsz));
+
+        /* failed attempts must not make the string request ever larger 
+         * blocks */
+        s->shift_cnt = shift;
     }
 
     /* append this chunk to the data buffer */
-- 
2.43.0


From ba7bc1f31f7c1552ce7a5b6e78dc9a4b7e8ba771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:12 +0000
Subject: [PATCH 011/102] fix: u_buf_printf() must not loop on long output,
 refuse empty output or leave partial text on failure

---
 srcs/toolbox/buf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index aed28e6..b0a3374 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -353,6 +353,7 @@ int u_buf_free (u_buf_t *ubuf)
 int u_buf_printf (u_buf_t *ubuf, const char *fmt, ...)
 {
     va_list ap;
+    int n;
     size_t sz, avail;
 
     dbg_return_if (ubuf == NULL, ~0);
@@ -364,12 +365,12 @@ again:
     avail = ubuf->size - ubuf->len; /* avail may be zero */
 
     /* write to the internal buffer of ubuf */
-    dbg_err_if ((sz = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
+    dbg_err_if ((n = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) < 0);
 
-    if (sz >= avail)
+    if ((sz = (size_t) n) >= avail)
     {
         /* enlarge the buffer (make it at least 128 bytes bigger) */
-        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MIN(128, sz + 1)));
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, sz + 1)));
 
         /* zero-term the buffer (vsnprintf has removed the last \0!) */
         ubuf->data[ubuf->len] = '\0';
@@ -388,6 +389,9 @@ again:
     return 0;
 err:
     va_end(ap);
+    /* drop what vsnprintf could have left after the current data */
+    if (ubuf->data)
+        ubuf->data[ubuf->len] = '\0';
     return ~0;
 }
 
-- 
2.43.0


From ccfd070c49ff70599aa2f2db6ad8e419c717da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 012/102] fix: u_string_reserve() on an empty string must not
 expose uninitialised memory

---
 srcs/toolbox/str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index c87a88c..5c0c308 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -327,8 +327,9 @@ int u_string_reserve (u_string_t *s, size_t size)
     nbuf = u_realloc(((s->data == null) ? NULL : s->data), size + 1);
     dbg_err_sif (nbuf == NULL);
 
-    /* zero terminate it */
+    /* zero terminate it (both the block and the string it contains) */
     nbuf[size] = '\0';
+    nbuf[s->data_len] = '\0';
 
     s->data = (void *) nbuf;
     s->data_sz = size;
-- 
2.43.0


From aef07a220a2a9179c5b539cdf9b1d62527d03a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 013/102] fix: u_bst_delete() must keep the subtree counters
 consistent

---
 srcs/toolbox/bst.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index b30a8c4..28fcc92 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -855,6 +855,7 @@ static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r)
 
     /* Let the left subtree become the left child of the new root. */
     r->left = l;
+    r->nelem += (l ? l->nelem : 0);
 
     return r;
 }
@@ -885,8 +886,9 @@ static u_bst_node_t *u_bst_node_delete (u_bst_t *bst, u_bst_node_t *node,
         *pfound = 1;
     }
 
-    /* Update child nodes' counter. */
-    if (node && *pfound)
+    /* Update child nodes' counter (on the path that leads to the evicted 
+     * node: the counter of its substitute is already correct). */
+    if (rc != 0 && *pfound)
         node->nelem -= 1;
 
     return node;
-- 
2.43.0


From 85a709b8d42c8d8583e0ab0d778afe7b322ab8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 014/102] fix: u_list_clear() must reset the element counter

---
 srcs/toolbox/list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/list.c b/srcs/toolbox/list.c
index 16f2c00..fec6cd5 100644
--- a/srcs/toolbox/list.c
+++ b/srcs/toolbox/list.c
@@ -363,6 +363,8 @@ int u_list_clear (u_list_t *list)
         u_free(item);
     }
 
+    list->count = 0;
+
     return 0;
 err:
     return ~0;
-- 
2.43.0


From a973c6f9abb4cef9d73f6e0c88629401f21a3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 015/102] fix: u_array_resize() must not expose uninitialised
 slots

---
 srcs/toolbox/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/array.c b/srcs/toolbox/array.c
index 8c7c4f2..5b769a4 100644
--- a/srcs/toolbox/array.c
+++ b/srcs/toolbox/array.c
@@ -211,6 +211,10 @@ int u_array_resize (u_array_t *da, size_t idx)
     new_base = u_realloc(da->base, new_nslots * sizeof_type[da->type]);
     warn_err_sif (new_base == NULL);
 
+    /* new slots are zero'd just like those got at creation time */
+    memset((char *) new_base + da->nslots * sizeof_type[da->type], 0, 
+            (new_nslots - da->nslots) * sizeof_type[da->type]);
+
     da->base = new_base;
     da->nslots = new_nslots;
 
-- 
2.43.0


From f75220de44766bf8e849041aa243b32237fe5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 016/102] fix: BST must release its private copies of string
 values

---
 srcs/toolbox/bst.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 28fcc92..6ef4f92 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -432,7 +432,8 @@ int u_bst_set_valattr (u_bst_t *bst, u_bst_type_t vt, size_t vs)
     bst->valtype = vt;
     bst->valsize = vs;
 
-    if (vt == U_BST_TYPE_OPAQUE)
+    /* The BST holds private copies: dispose them with the node. */
+    if (vt == U_BST_TYPE_OPAQUE || vt == U_BST_TYPE_STRING)
         bst->valfree = u_bst_genfree;
 
     return 0;
-- 
2.43.0


From c3bbae345ce80fef52ad20d76fb35f5f3d010856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 017/102] fix: u_bst_push() must leave the tree unchanged when
 memory runs out

---
 srcs/toolbox/bst.c | 110 +++++++++++++++++----------------------------
 1 file changed, 40 insertions(+), 70 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 6ef4f92..8a35f6c 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -39,13 +39,13 @@ static u_bst_node_t *u_bst_node_search (u_bst_node_t *node, const void *key,
 static void u_bst_node_foreach (u_bst_node_t *node, 
         void (*cb)(u_bst_node_t *, void *), void *cb_args);
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val);
+        u_bst_node_t *newnode);
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node,
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_find_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r);
@@ -200,17 +200,23 @@ void u_bst_free (u_bst_t *bst)
  */
 int u_bst_push (u_bst_t *bst, const void *key, const void *val)
 {
+    u_bst_node_t *newnode = NULL;
+
     dbg_return_if (bst == NULL, ~0);
     dbg_return_if (key == NULL, ~0);
 
+    /* Create the new node in advance: from here on nothing can fail, so that 
+     * the tree is never left half-modified. */
+    warn_return_if (u_bst_node_new(bst, key, val, &newnode), ~0);
+
     if (bst->opts & U_BST_OPT_RANDOMIZED)
-        bst->root = u_bst_node_push_rand(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_rand(bst, bst->root, newnode);
     else if (bst->opts & U_BST_OPT_PUSH_TOP)
-        bst->root = u_bst_node_push_top(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_top(bst, bst->root, newnode);
     else /* The default is bottom insertion. */
-        bst->root = u_bst_node_push_bottom(bst, key, val);
+        bst->root = u_bst_node_push_bottom(bst, newnode);
 
-    return bst->root ? 0 : ~0;
+    return 0;
 }
 
 /**
@@ -695,76 +701,55 @@ static void u_bst_node_foreach (u_bst_node_t *node,
 }
 
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
     /* The new node is inserted on the top with 1/nelem+1 probability. */
     if ((size_t) rand() < RAND_MAX / (node->nelem + 1))
-        return u_bst_node_push_top(bst, node, key, val);
+        return u_bst_node_push_top(bst, node, newnode);
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
  
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val)
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *parent, *node;
-
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    u_bst_node_t *parent = NULL, *node;
 
     /* Empty BST, handle special case. */
     if (u_bst_empty(bst))
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &bst->root));
-        return bst->root;
-    }
+        return newnode;
 
     /* Find a way through the non-empty BST until we reach an external node. */
     for (node = bst->root;
             node != NULL;
-            node = (bst->cmp(key, node->key) < 0) ? node->left : node->right)
+            node = (bst->cmp(newnode->key, node->key) < 0) ? 
+                node->left : node->right)
     {
         /* Save parent reference.  It is needed later, on loop exhaustion, to 
          * fix left/child links of the node to which we attach. */
@@ -774,53 +759,38 @@ static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key,
         node->nelem += 1;
     }
 
-    /* Create a new node with the supplied (key, val). */
-    warn_err_if (u_bst_node_new(bst, key, val, &node));
-
     /* Choose the subtree to which it belongs. */
-    if (bst->cmp(key, parent->key) < 0)
-        parent->left = node;
+    if (bst->cmp(newnode->key, parent->key) < 0)
+        parent->left = newnode;
     else
-        parent->right = node;
+        parent->right = newnode;
 
     return bst->root;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *newnode = NULL;
-
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
-    /* External node reached: create the node. */
+    /* External node reached: attach the node. */
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &newnode));
         return newnode;
-    }
 
     /* Update child counter of the traversed node. */
     node->nelem += 1;
 
     /* Let the created node bubble up through subsequent rotations. */
-    if (bst->cmp(key, node->key) < 0)
+    if (bst->cmp(newnode->key, node->key) < 0)
     {
-        node->left = u_bst_node_push_top(bst, node->left, key, val);
+        node->left = u_bst_node_push_top(bst, node->left, newnode);
         node = u_bst_rotate(node, U_BST_ROT_RIGHT);
     }
     else
     {
-        node->right = u_bst_node_push_top(bst, node->right, key, val);
+        node->right = u_bst_node_push_top(bst, node->right, newnode);
         node = u_bst_rotate(node, U_BST_ROT_LEFT);
     }
     
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n)
-- 
2.43.0


From c0921a6fde48b43b874128c275ae074103a2d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 018/102] fix: a failed u_bst_push() must not release the
 caller's key

---
 srcs/toolbox/bst.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 8a35f6c..acc3bb8 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -597,6 +597,9 @@ static int u_bst_node_new (u_bst_t *bst, const void *key, const void *val,
 
     return 0;
 err:
+    /* Nothing has been pushed: pointers still belong to the caller. */
+    if (node && bst->keytype == U_BST_TYPE_PTR)
+        node->key = NULL;
     u_bst_node_do_free(bst, node);
     return ~0;
 }
-- 
2.43.0


From 4ae5bde82388848f4ac21236d89798fe3012ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 019/102] fix: u_rb_fast_read() must refuse ring buffers
 without contiguous memory

---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 7b42a8f..281ce87 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -278,7 +278,7 @@ ssize_t u_rb_read (u_rb_t *rb, void *b, size_t b_sz)
 void *u_rb_fast_read (u_rb_t *rb, size_t *pb_sz)
 {
     dbg_return_if (rb == NULL, NULL);
-    dbg_return_if (rb->cb_write == NULL, NULL);
+    dbg_return_if (rb->cb_fast_read == NULL, NULL);
 
     return rb->cb_fast_read(rb, pb_sz);
 }
-- 
2.43.0


From c4b30d02b40ca8dfcc8832c7097e5dfba31b9066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 020/102] fix: u_rb_read() must gather data fragmented between
 tail and head of the buffer

---
 srcs/toolbox/rb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 281ce87..bd4a2bf 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -496,7 +496,9 @@ static ssize_t read_wrapped (u_rb_t *rb, void *b, size_t b_sz)
     /* if there is nothing ready to be read go out immediately */
     nop_goto_if (!(to_be_read = U_MIN(u_rb_ready(rb), b_sz)), end);
 
-    if (!is_wrapped(rb) || (rspace = (rb->sz - rb->rd_off)) <= to_be_read)
+    /* If requested data isn't fragmented between tail and head of the buffer,
+     * it can be retrieved in one single chunk */
+    if ((rspace = (rb->sz - rb->rd_off)) >= to_be_read)
     {
         memcpy(b, read_addr(rb), to_be_read);
         read_incr_wrapped(rb, to_be_read);
-- 
2.43.0


From 2d977ac4b5e6ffb49bc327bbb12279d77f2cff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 021/102] fix: u_rb_create() must refuse sizes that overflow
 when doubled

---
 srcs/toolbox/rb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index bd4a2bf..8abfe23 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -641,7 +641,10 @@ static int create_malloc (size_t sz, int opts, u_rb_t **prb)
 
     /* Double buffer size in case the user requested contiguous memory. */
     if (opts & U_RB_OPT_USE_CONTIGUOUS_MEM)
+    {
         real_sz <<= 1;
+        dbg_err_if (real_sz >> 1 != sz);    /* overflow */
+    }
 
     /* Make room for the buffer. */
     dbg_err_sif ((rb->base = u_zalloc(real_sz)) == NULL);
-- 
2.43.0


From 9e0b56d745ef89af9bbe0e3d8939a26a6cdf5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 022/102] fix: u_rb_create() must release everything when the
 mmap'd memory can't be set up

---
 srcs/toolbox/rb.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 8abfe23..55f5e97 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -539,7 +539,7 @@ end:
 
 static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
 {
-    int fd = -1;
+    int rc, fd = -1;
     u_rb_t *rb = NULL;
     char path[] = "/tmp/rb-XXXXXX";
 
@@ -588,14 +588,17 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
     dbg_err_sif (mmap(rb->base + rb->sz, rb->sz, PROT_READ | PROT_WRITE,
             MAP_FIXED | MAP_SHARED, fd, 0) != rb->base + rb->sz);
  
-    /* dispose the file descriptor */
-    dbg_err_sif (close(fd) == -1);
+    /* dispose the file descriptor (which is gone even if close(2) fails) */
+    rc = close(fd), fd = -1;
+    dbg_err_sif (rc == -1);
 
     *prb = rb;
 
     return 0;
 err:
-    u_rb_free(rb);
+    if (rb && rb->base == MAP_FAILED)
+        rb->base = NULL;
+    free_mmap(rb);
     U_CLOSE(fd);
     return -1;
 }
-- 
2.43.0


From 20ae3e66ca5b4a6f4102c8eaaa6160725e90a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 023/102] fix: u_hmap_clear() must reset the element counter

---
 srcs/toolbox/hmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 71eeef6..c877acf 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -622,10 +622,12 @@ void u_hmap_clear (u_hmap_t *hmap)
         while ((obj = LIST_FIRST(&hmap->hmap[i])) != NULL)
         {
             LIST_REMOVE(obj, next);
+            obj->pqe = NULL;
             if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
                 __o_free(hmap, obj);
         }
     }
+    hmap->sz = 0;
 
     /* free the policy queue */
     while ((data = TAILQ_FIRST(&hmap->pcy.queue)) != NULL)
-- 
2.43.0


From 8b78c1ac855aabd8b0798707c40e30b5c8098be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 024/102] fix: u_hmap_new() and u_hmap_o_new() must not leak
 when memory runs out

---
 srcs/toolbox/hmap.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index c877acf..85f3823 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -595,6 +595,8 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     return U_HMAP_ERR_NONE;
 
 err:
+    u_free(c->hmap);
+    u_free(c->opts);
     u_free(c);
     *phmap = NULL;
     return U_HMAP_ERR_FAIL;
@@ -935,7 +937,13 @@ u_hmap_o_t *u_hmap_o_new (u_hmap_t *hmap, const void *key, const void *val)
     return obj;
 
 err:
-    U_FREEF(obj, u_hmap_o_free);
+    if (obj)
+    {
+        /* the key is private to the object if it isn't just a pointer */
+        if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->key);
+        u_hmap_o_free(obj);
+    }
 
     return NULL;
 }
-- 
2.43.0


From c160bead6fab8a4c224c761b12fba2eb16d0fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 025/102] fix: u_hmap must keep the discard policy's queue in
 step with the map

Deleting an object left its queue entry behind (dangling), and a put or
lookup running out of memory left objects linked but not queued, queue
entries without counter, or discarded an element for nothing.
---
 srcs/toolbox/hmap.c | 90 ++++++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 41 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 85f3823..3371add 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -38,7 +38,7 @@ typedef struct u_hmap_q_s u_hmap_q_t;
 /* hmap policy representation */
 struct u_hmap_pcy_s
 {
-    int (*pop)(u_hmap_t *hmap, u_hmap_o_t **obj);
+    u_hmap_q_t *(*pop)(u_hmap_t *hmap);
     int (*push)(u_hmap_t *hmap, u_hmap_o_t *obj,
             u_hmap_q_t **data);
     int ops;    /* bitwise inclusive OR of U_HMAP_PCY_OP_* values */
@@ -124,6 +124,7 @@ static int __pcy_setup (u_hmap_t *hmap);
 static const char *__pcy2str(u_hmap_pcy_type_t policy);
 
 static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj);
+static void __remove (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t **obj);
 static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
         u_hmap_o_t **old);
 
@@ -139,8 +140,8 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
         u_hmap_q_t **counts);
 static int __queue_push_cmp (u_hmap_t *hmap, u_hmap_o_t *obj,
         u_hmap_q_t **counts);
-static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj);
-static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj);
+static u_hmap_q_t *__queue_pop_front (u_hmap_t *hmap);
+static u_hmap_q_t *__queue_pop_back (u_hmap_t *hmap);
 static int __queue_del (u_hmap_t *hmap, u_hmap_o_t *obj);
 
 static int __resize(u_hmap_t *hmap);
@@ -683,6 +684,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     int rc;
     size_t hash;
     size_t last;
+    u_hmap_q_t *victim = NULL;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
@@ -776,19 +778,29 @@ err:
 
 end:
 
+    /* choose what to discard before the new object gets into the queue, but
+       keep it until nothing can fail anymore */
     if (hmap->sz >= hmap->opts->max &&
             hmap->opts->policy != U_HMAP_PCY_NONE)
     {
         u_dbg("Cache full - freeing according to policy '%s'",
                 __pcy2str(hmap->opts->policy));
-        dbg_err_if (hmap->pcy.pop(hmap, old));
+        dbg_goto_if ((victim = hmap->pcy.pop(hmap)) == NULL, undo);
     }
 
     if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
-        dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+        dbg_goto_if (hmap->pcy.push(hmap, obj, &obj->pqe), undo);
+
+    if (victim)
+        __remove(hmap, victim->ho, old);
+
     hmap->sz++;
 
     return U_HMAP_ERR_NONE;
+
+undo:
+    LIST_REMOVE(obj, next);
+    return U_HMAP_ERR_FAIL;
 }
 
 /**
@@ -854,8 +866,23 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
         return U_HMAP_ERR_FAIL;
 
     dbg_err_if (o == NULL);
+    __remove(hmap, o, obj);
+
+    return U_HMAP_ERR_NONE;
+
+err:
+    return U_HMAP_ERR_FAIL;
+}
+
+/* Unlink an object from the hmap and from its policy queue, then release it
+   or hand it out */
+static void __remove (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t **obj)
+{
     LIST_REMOVE(o, next);
 
+    if (o->pqe)
+        (void) __queue_del(hmap, o);
+
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
         __o_free(hmap, o);
     else
@@ -864,10 +891,7 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
 
     hmap->sz--;
 
-    return U_HMAP_ERR_NONE;
-
-err:
-    return U_HMAP_ERR_FAIL;
+    return;
 }
 
 /**
@@ -1026,9 +1050,9 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
     {
         if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
         {
-            /* delete old object and enqueue new one */
-            dbg_err_if (__queue_del(hmap, o));
+            /* enqueue new object and delete old one */
             dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+            dbg_err_if (__queue_del(hmap, o));
         }
 
         /* replace object in hmap list */
@@ -1618,40 +1642,20 @@ err:
     return U_HMAP_ERR_FAIL;
 }
 
-/* pop the front of an object queue */
-static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
+/* choose the front of an object queue */
+static u_hmap_q_t *__queue_pop_front (u_hmap_t *hmap)
 {
-    u_hmap_q_t *first;
-
-    dbg_err_if (hmap == NULL);
-
-    dbg_err_if ((first = TAILQ_FIRST(&hmap->pcy.queue)) == NULL);
-    dbg_err_if (u_hmap_del(hmap, first->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, first, next);
-    __q_o_free(first);
+    dbg_return_if (hmap == NULL, NULL);
 
-    return U_HMAP_ERR_NONE;
-err:
-    return U_HMAP_ERR_FAIL;
+    return TAILQ_FIRST(&hmap->pcy.queue);
 }
 
-/* pop the back of an object queue */
-static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj)
+/* choose the back of an object queue */
+static u_hmap_q_t *__queue_pop_back (u_hmap_t *hmap)
 {
-    u_hmap_q_t *last;
-
-    dbg_err_if (hmap == NULL);
-
-    dbg_err_if ((last = TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s))
-            == NULL);
-    dbg_err_if (u_hmap_del(hmap, last->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, last, next);
-    __q_o_free(last);
-
-    return U_HMAP_ERR_NONE;
+    dbg_return_if (hmap == NULL, NULL);
 
-err:
-    return U_HMAP_ERR_FAIL;
+    return TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s);
 }
 
 /* push object data onto queue */
@@ -1697,9 +1701,13 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
     {
         /* no reference to queue entry -> count == 0 */
         dbg_err_if ((new = __q_o_new(obj)) == NULL);
-        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
-        dbg_err_sif ((count = (int *) u_zalloc(sizeof(int))) == NULL);
+        dbg_ifb ((count = (int *) u_zalloc(sizeof(int))) == NULL)
+        {
+            __q_o_free(new);
+            goto err;
+        }
         new->data = (void *) count;
+        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
         *counts = new;
         /*
         u_dbg(">k: %s, p: %d", new->ho->key, *((int *)new->data));
-- 
2.43.0


From 5e5cdb8b0b77b0eaa20c1538485dd8ec114905dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 026/102] fix: u_hmap_put() must release objects owned by the
 map when they can't be inserted

---
 srcs/toolbox/hmap.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 3371add..8107ecc 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -118,6 +118,7 @@ struct u_hmap_s
 typedef struct u_hmap_e_s u_hmap_e_t;
 
 static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o);
+static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old);
 
 static int __opts_check (u_hmap_opts_t *opts);
 static int __pcy_setup (u_hmap_t *hmap);
@@ -357,11 +358,12 @@ int u_hmap_easy_put (u_hmap_t *hmap, const char *key, const void *val)
     u_hmap_o_t *obj = NULL;
 
     dbg_err_if ((obj = u_hmap_o_new(hmap, key, val)) == NULL);
+
+    /* from here on 'obj' belongs to hmap, which releases it on failure too */
     dbg_err_if ((rc = u_hmap_put(hmap, obj, NULL)));
 
     return rc;
 err:
-    /* don't free 'obj' because hmap owns it and will free it */
     return (rc ? rc : U_HMAP_ERR_FAIL);
 }
 
@@ -664,7 +666,9 @@ void u_hmap_free (u_hmap_t *hmap)
  *
  * Insert a (key, val) pair \p obj into \p hmap. Such object should be created
  * with u_hmap_o_new(). The user is responsible for allocation of keys and
- * values unless U_HMAP_OPTS_OWNSDATA is set. If a value is overwritten
+ * values unless U_HMAP_OPTS_OWNSDATA is set; in that case \p obj belongs to
+ * \p hmap whatever the outcome, i.e. it is released if it can't be inserted.
+ * If a value is overwritten
  * (U_HMAP_OPTS_NO_OVERWRITE must be unset via u_hmap_opts_unset_option()) and
  * data is owned by the user, the \p old value is returned.
  *
@@ -677,6 +681,23 @@ void u_hmap_free (u_hmap_t *hmap)
  * \retval  U_HMAP_ERR_FAIL     on other failures
  */
 int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
+{
+    int rc;
+
+    dbg_return_if (hmap == NULL, U_HMAP_ERR_FAIL);
+    dbg_return_if (obj == NULL, U_HMAP_ERR_FAIL);
+
+    if ((rc = __put(hmap, obj, old)) != U_HMAP_ERR_NONE)
+    {
+        if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+            __o_free(hmap, obj);
+    }
+
+    return rc;
+}
+
+/* Insert an object, which stays with the caller if it can't be inserted */
+static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 {
     u_hmap_o_t *o;
     u_hmap_e_t *x;
@@ -1069,9 +1090,7 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
     }
     else  /* don't overwrite */
     {
-        if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
-            __o_free(hmap, obj);
-        else
+        if (!(hmap->opts->options & U_HMAP_OPTS_OWNSDATA))
             if (old)
                 *old = o;
 
-- 
2.43.0


From 69ae170fbd7f2e5e8ca7500a096db11e773ead80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 027/102] fix: u_hmap_copy() must keep both maps consistent,
 resize must not leak or wipe options

---
 srcs/toolbox/hmap.c | 48 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 8107ecc..117baf7 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -119,6 +119,7 @@ typedef struct u_hmap_e_s u_hmap_e_t;
 
 static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o);
 static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old);
+static int __move (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner);
 
 static int __opts_check (u_hmap_opts_t *opts);
 static int __pcy_setup (u_hmap_t *hmap);
@@ -1559,7 +1560,7 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
  * \brief Copy hmap
  *
  * Perform a copy of an hmap \p from to \p to by rehashing all elements and
- * copying the object pointers to the new locations.
+ * moving the object pointers to the new locations.
  *
  * \param   to        destination hmap
  * \param   from      source hmap
@@ -1568,8 +1569,20 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
  * \retval  U_HMAP_ERR_FAIL     on failure
  */
 int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
+{
+    dbg_return_if (to == NULL, U_HMAP_ERR_FAIL);
+    dbg_return_if (from == NULL, U_HMAP_ERR_FAIL);
+    dbg_return_if (to == from, U_HMAP_ERR_FAIL);
+
+    return __move(to, from, to);
+}
+
+/* Move all objects from one map to another.  An object that can't be moved
+   stays where it is. */
+static int __move (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner)
 {
     u_hmap_o_t *obj;
+    u_hmap_q_t *pqe;
     size_t i;
 
     dbg_err_if (to == NULL);
@@ -1579,8 +1592,25 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
     {
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
+            pqe = obj->pqe;
+            obj->pqe = NULL;
             LIST_REMOVE(obj, next);
-            dbg_err_if (u_hmap_put(to, obj, NULL));
+
+            if (__put(to, obj, NULL))
+            {
+                LIST_INSERT_HEAD(&from->hmap[i], obj, next);
+                obj->pqe = pqe;
+                goto err;
+            }
+
+            obj->hmap = owner;
+            from->sz--;
+
+            if (pqe)
+            {
+                TAILQ_REMOVE(&from->pcy.queue, pqe, next);
+                __q_o_free(pqe);
+            }
         }
     }
 
@@ -2124,12 +2154,10 @@ static int __resize(u_hmap_t *hmap)
             &hmap->px));
     dbg_err_if (u_hmap_new(newopts, &newmap));
     u_hmap_opts_free(newopts);
+    newopts = NULL;
 
-    /* remove any ownership from old map to copy elements */
-    hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
-
-    /* copy old elements to new map policy */
-    dbg_err_if (u_hmap_copy(newmap, hmap));
+    /* move old elements to new map */
+    dbg_err_if (__move(newmap, hmap, hmap));
 
     /* free old allocated objects */
     u_hmap_opts_free(hmap->opts);
@@ -2143,6 +2171,12 @@ static int __resize(u_hmap_t *hmap)
 
     return 0;
 err:
+    if (newmap)
+    {
+        (void) __move(hmap, newmap, hmap);
+        u_hmap_free(newmap);
+    }
+    U_FREEF(newopts, u_hmap_opts_free);
     return ~0;
 }
 
-- 
2.43.0


From a142bcbb49e6ccc495f3f1081bc2def25d0fb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 028/102] fix: linear probing must look for the key beyond
 empty slots and in all slots

---
 srcs/toolbox/hmap.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 117baf7..b044893 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -111,6 +111,8 @@ struct u_hmap_s
            threshold,           /* when to resize */
            px;                  /* index into prime numbers array */
 
+    int holes;                  /* elements were removed since last cleared */
+
     u_hmap_pcy_t pcy;    /* discard policy */
 
     LIST_HEAD(u_hmap_e_s, u_hmap_o_s) *hmap;    /* the hashmap */
@@ -634,6 +636,7 @@ void u_hmap_clear (u_hmap_t *hmap)
         }
     }
     hmap->sz = 0;
+    hmap->holes = 0;
 
     /* free the policy queue */
     while ((data = TAILQ_FIRST(&hmap->pcy.queue)) != NULL)
@@ -701,7 +704,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 {
     u_hmap_o_t *o;
-    u_hmap_e_t *x;
+    u_hmap_e_t *x, *slot;
     int comp;
     int rc;
     size_t hash;
@@ -770,15 +773,20 @@ static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 
         case U_HMAP_TYPE_LINEAR:
 
-            last = ((hash + hmap->size-1) % hmap->size);
+            slot = NULL;
 
-            for (; hash != last; hash = ((hash+1) % hmap->size),
-                    x = &hmap->hmap[hash])
+            for (last = 0; last < hmap->size; ++last,
+                    hash = ((hash+1) % hmap->size), x = &hmap->hmap[hash])
             {
+                /* the key may still be found beyond an empty slot, because
+                   deletions leave holes */
                 if (LIST_EMPTY(x))
                 {
-                    LIST_INSERT_HEAD(x, obj, next);
-                    goto end;
+                    if (slot == NULL)
+                        slot = x;
+                    if (!hmap->holes)
+                        break;
+                    continue;
                 }
 
                 /* only first node used for linear probing */
@@ -792,6 +800,12 @@ static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
                     return rc;
                 }
             }
+
+            if (slot)
+            {
+                LIST_INSERT_HEAD(slot, obj, next);
+                goto end;
+            }
             break;
     }
 
@@ -912,6 +926,7 @@ static void __remove (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t **obj)
             *obj = o;
 
     hmap->sz--;
+    hmap->holes = 1;
 
     return;
 }
@@ -1605,6 +1620,7 @@ static int __move (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner)
 
             obj->hmap = owner;
             from->sz--;
+            from->holes = 1;
 
             if (pqe)
             {
@@ -1668,10 +1684,8 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
 
         case U_HMAP_TYPE_LINEAR:
 
-            last = ((hash + hmap->size -1) % hmap->size);
-
-            for (; hash != last; hash = ((hash +1) % hmap->size),
-                    x = &hmap->hmap[hash])
+            for (last = 0; last < hmap->size; ++last,
+                    hash = ((hash +1) % hmap->size), x = &hmap->hmap[hash])
             {
                 if (!LIST_EMPTY(x))
                 {
-- 
2.43.0


From 226245dd4b6275b2dedba80e634dbbb464427cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 029/102] fix: bounded hmap with linear probing must have room
 for its maximum size

---
 srcs/toolbox/hmap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index b044893..a1730f3 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -580,6 +580,14 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     dbg_err_if (__pcy_setup(c));
 
     c->size = c->opts->size;
+
+    /* a bounded map doesn't grow: with one element per slot (linear probing)
+       it needs room for all elements and for the one about to replace another
+       from the start */
+    if (c->opts->type == U_HMAP_TYPE_LINEAR &&
+            c->opts->policy != U_HMAP_PCY_NONE && c->size <= c->opts->max)
+        c->size = c->opts->max + 1;
+
     dbg_err_if (__next_prime(&c->size, c->size, &c->px));
     c->threshold = (size_t) (U_HMAP_RATE_FULL * c->size);
 
-- 
2.43.0


From b3cbbc8cab4025d1c5dc3bf097db810ff18b38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 030/102] fix: resolv_sun() must not leave a dangling address
 behind when memory runs out

---
 srcs/toolbox/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee1f962..1bea053 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1170,6 +1170,7 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
 
     return 0;
 err:
+    ai->ai_addr = NULL;     /* don't let the caller release it again */
     U_FREE(sunix);
     U_FREE(cname);
     return ~0;
-- 
2.43.0


From 00481fe8b5e96ab9d8d6f9a6eeaca7bc68d48d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 031/102] fix: u_connect_ex() must leave the socket in the mode
 the caller gave it

---
 srcs/toolbox/net.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 1bea053..de1befa 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -96,6 +96,7 @@ static int scheme_mapper (const char *scheme, u_net_scheme_map_t *map);
 static int uri2addr (u_uri_t *u, u_net_scheme_map_t *m, u_net_addr_t *a);
 static inline int update_timeout (struct timeval *timeout, 
         struct timeval *tstart);
+static int is_nonblocking (int s, int *pnb);
 
 /**
     \defgroup net Networking
@@ -496,7 +497,7 @@ int u_connect (int sd, const struct sockaddr *addr, u_socklen_t addrlen)
 int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         struct timeval *timeout)
 {
-    int rc;
+    int rc, nonblocking = 1;
     u_socklen_t rc_len = sizeof rc;
     struct timeval tstart, tcopy, *ptcopy = timeout ? &tcopy : NULL;
     fd_set writefds;
@@ -507,7 +508,10 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
 
     if (timeout)
     {
-        dbg_err_if (u_net_set_nonblocking(sd));
+        /* remember the mode the caller has put the socket in */
+        dbg_err_if (is_nonblocking(sd, &nonblocking));
+        if (!nonblocking)
+            dbg_err_if (u_net_set_nonblocking(sd));
         dbg_err_sif (gettimeofday(&tstart, NULL) == -1);
     }
    
@@ -520,7 +524,8 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
      * instead a rather convoluted select() based machinery must be put in
      * place.  Anyway, since the timeout'ed version shares the same code layout
      * we can kill two birds with one stone... */
-    nop_return_if ((rc = connect(sd, addr, addrlen)) == 0, 0);
+    if ((rc = connect(sd, addr, addrlen)) == 0)
+        goto end;
     dbg_err_sif (errno != EINTR && errno != EINPROGRESS);
 
     /* "When the connection has been established asynchronously, select() and 
@@ -578,15 +583,18 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         warn_err("error detected on socket %d: %s", sd, strerror(errno));
     }
 
-    if (timeout)
+end:
+    if (!nonblocking)
         (void) u_net_unset_nonblocking(sd);
 
     return 0;
 err:
-    if (timeout)
+    rc = (errno == ETIMEDOUT) ? -2 : -1;
+
+    if (!nonblocking)
         (void) u_net_unset_nonblocking(sd);
 
-    return (errno == ETIMEDOUT) ? -2 : -1;
+    return rc;
 }
 
 /** \brief  bind(2) wrapper */
@@ -659,6 +667,24 @@ err:
 #endif  /* HAVE_GETSOCKOPT */
 }
 
+/* tell if the supplied socket is in non-blocking mode */
+static int is_nonblocking (int s, int *pnb)
+{
+#ifdef HAVE_FCNTL
+    int flags;
+
+    dbg_err_sif ((flags = fcntl(s, F_GETFL, 0)) == -1);
+    *pnb = (flags & O_NONBLOCK) ? 1 : 0;
+#else   /* !HAVE_FCNTL */
+    u_unused_args(s);
+    *pnb = 0;
+#endif  /* HAVE_FCNTL */
+
+    return 0;
+err:
+    return ~0;
+}
+
 /**
  *  \brief  Mark the supplied socket descriptor as non-blocking
  *
-- 
2.43.0


From 93d5118c76c5df309a7578baeca68e48c5c0c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 032/102] fix: u_uri_crumble() must refuse components that
 don't fit instead of dropping them

---
 srcs/toolbox/uri.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index beb22c7..d341e20 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -426,7 +426,7 @@ static int u_uri_parse_scheme (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_rmatch(l);
 
     /* The match includes the first non-scheme char. */
-    (void) u_lexer_get_match(l, u->scheme);
+    warn_err_if (u_lexer_get_match(l, u->scheme) == NULL);
     u->scheme[strlen(u->scheme) - 1] = '\0';
 
     return 0;
@@ -481,7 +481,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->port);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->port));
 
     return 0;
 err:
@@ -512,7 +512,7 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_rmatch(l);
 
-    (void) u_uri_adjust_greedy_match(l, u->host);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->host));
 
     return 0;
 err:
@@ -526,7 +526,8 @@ static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ])
     dbg_return_if (l == NULL, ~0);
     dbg_return_if (match == NULL, ~0);
 
-    (void) u_lexer_get_match(l, match);
+    /* Tokens that don't fit must not be silently dropped. */
+    dbg_return_if (u_lexer_get_match(l, match) == NULL, ~0);
     mlen = strlen(match);
 
     if (!u_lexer_eot(l))
@@ -624,7 +625,7 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->userinfo);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->userinfo));
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
@@ -657,7 +658,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->user);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->user));
 
     /* Check if we've exhausted the userinfo string. */
     nop_goto_if (u_lexer_eot(l), end);
@@ -671,7 +672,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (!u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->pwd);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->pwd));
 
 end:
     u_lexer_free(l);
@@ -686,7 +687,7 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_lmatch(l);
     warn_err_if (u_uri_expect_path_abempty(l));
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -706,7 +707,7 @@ static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -745,7 +746,7 @@ static int u_uri_parse_query (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->query);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->query));
 
     return 0;
 err:
@@ -768,7 +769,7 @@ static int u_uri_parse_fragment (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_lexer_get_match(l, u->fragment);
+    warn_err_if (u_lexer_get_match(l, u->fragment) == NULL);
 
     return 0;
 err:
-- 
2.43.0


From 8cf3325532e9e99d5cabaf83cac8c430f9fcaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 033/102] fix: each address a socket is tried on must get the
 whole connection timeout

---
 srcs/toolbox/net.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index de1befa..97fd234 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -848,11 +848,17 @@ static int do_sock (
     int sock_type, sd = -1;
     u_addrinfo_t *ap;
     char h[1024];
+    struct timeval tcopy, *ptcopy = timeout ? &tcopy : NULL;
 
     dbg_return_if ((ap = a->addr) == NULL, ~0);
 
     for ( ; ap != NULL; ap = ap->ai_next)
     {
+        /* each address is given the whole timeout: u_connect_ex() consumes
+         * the supplied object when it is interrupted by a signal */
+        if (timeout)
+            tcopy = *timeout;
+
 #ifndef NO_SCTP
         /* override .ai_socktype for SCTP one-to-many sockets with 
          * SOCK_SEQPACKET.  the default is SOCK_STREAM, see scheme_mapper() 
@@ -865,7 +871,7 @@ static int do_sock (
 #endif  /* !NO_SCTP */
 
         if ((sd = wf(ap->ai_addr, ap->ai_addrlen, ap->ai_family, sock_type, 
-                    ap->ai_protocol, a->opts, backlog, timeout)) >= 0)
+                    ap->ai_protocol, a->opts, backlog, ptcopy)) >= 0)
         {
             /* TODO call getsockname to catch the real connected/bound address 
              * to feed 'pai' */
-- 
2.43.0


From 7023a70954876ac200b13adba2fbe32b206305a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 034/102] fix: u_connect_ex() must not store a descriptor out
 of an fd_set's range

---
 srcs/toolbox/net.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 97fd234..83d512f 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -531,6 +531,15 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
     /* "When the connection has been established asynchronously, select() and 
      *  poll() shall indicate that the file descriptor for the socket is ready 
      *  for writing." */
+#ifdef FD_SETSIZE
+    /* An fd_set can't hold it. */
+    if (sd >= FD_SETSIZE)
+    {
+        errno = EINVAL;
+        dbg_err("socket %d is out of select() reach", sd);
+    }
+#endif  /* FD_SETSIZE */
+
     FD_ZERO(&writefds);
     FD_SET(sd, &writefds);
 
-- 
2.43.0


From 2d82bba7e2f0a175d85699d643ad3a93c83acadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 035/102] fix: config lines longer than the read buffer, or
 without a final newline, must not be mangled

---
 srcs/toolbox/config.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bf84372..0896c7b 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1078,7 +1078,7 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
 {
     enum { BUFSZ = 1024 };
     char buf[BUFSZ], *p = NULL;
-    ssize_t len;
+    size_t len;
 
     u_string_clear(ln);
 
@@ -1087,14 +1087,18 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
         len = strlen(buf);
         if(len == 0)
             break; /* empty line */
+        if(!u_isnl(buf[len - 1]))
+        {
+            /* line's longer than bufsz (or eof): get next line chunk */
+            dbg_err_if(u_string_append(ln, buf, len));
+            continue;
+        }
         dbg_err_if(u_string_append(ln, buf, --len));
-        if(!u_isnl(buf[len]))
-            continue; /* line's longer the bufsz (or eof);get next line chunk */
-        else
-            break;
+        break;
     }
 
-    nop_err_if(p == NULL); /* eof */
+    /* eof (the last line may lack the ending newline) */
+    nop_err_if(p == NULL && u_string_len(ln) == 0);
 
     return 0;
 err:
-- 
2.43.0


From d6c473e07038767945d4253105b85de835afcc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 036/102] fix: config load must report read and memory errors,
 not take them for end of file

---
 srcs/toolbox/config.c    | 25 ++++++++++++++++++++-----
 srcs/toolbox/config_fs.c |  7 +++++--
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 0896c7b..e08ed33 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -601,6 +601,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     dbg_err_if(file == NULL);
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_sif(ferror(file));  /* gets() can't tell errors from eof */
 
     fclose(file);
 
@@ -903,7 +904,12 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
 
     if(drv->close)
-        dbg_err_if (drv->close(arg));
+    {
+        void *tmp = arg;
+
+        arg = NULL;     /* once only, even if it fails */
+        dbg_err_if (drv->close(tmp));
+    }
 
     *pc = c;
 
@@ -1074,6 +1080,7 @@ err:
     return ~0;
 }
 
+/* Return 0 if a line was read, 1 on end of file, ~0 on error. */
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
 {
     enum { BUFSZ = 1024 };
@@ -1098,7 +1105,8 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
     }
 
     /* eof (the last line may lack the ending newline) */
-    nop_err_if(p == NULL && u_string_len(ln) == 0);
+    if(p == NULL && u_string_len(ln) == 0)
+        return 1;
 
     return 0;
 err:
@@ -1112,7 +1120,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
-    int lineno = 1;
+    int rc, lineno = 1;
     u_config_t *child = NULL;
     u_config_t *subkey;
 
@@ -1123,7 +1131,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if(drv->gets == NULL);
 
-    for(; cs_getline(drv->gets, arg, line) == 0; u_string_clear(line), ++lineno)
+    for(; (rc = cs_getline(drv->gets, arg, line)) == 0; 
+            u_string_clear(line), ++lineno)
     {
         dbg_err_if (u_config_remove_comment(line));
 
@@ -1211,6 +1220,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
     }
+    dbg_err_if(rc < 0);
     
     u_string_free(lastkey);
     u_string_free(value);
@@ -1272,8 +1282,13 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
 
     if(drv->close)
-        crit_err_ifm (drv->close(arg),
+    {
+        void *tmp = arg;
+
+        arg = NULL;     /* once only, even if it fails */
+        crit_err_ifm (drv->close(tmp),
             "unable to close input file: %s", p);
+    }
     else
         u_warn("the 'close' driver callback is not defined, not closing...");
 
diff --git a/srcs/toolbox/config_fs.c b/srcs/toolbox/config_fs.c
index fbd5d06..cf95aa6 100644
--- a/srcs/toolbox/config_fs.c
+++ b/srcs/toolbox/config_fs.c
@@ -48,15 +48,18 @@ err:
 
 static int drv_fs_close (void *arg)
 {
-    int rc;
+    int rc, read_err;
     FILE *file = (FILE *) arg;
 
     dbg_return_if (file == NULL, ~0);
 
+    /* gets() can't tell errors from end of file */
+    read_err = ferror(file);
+
     if ((rc = fclose(file)) != 0)
         dbg_strerror(errno);
 
-    return (rc == 0) ? 0 : ~0;
+    return (rc == 0 && !read_err) ? 0 : ~0;
 }
 
 static char *drv_fs_gets (void *arg, char *buf, size_t size)
-- 
2.43.0


From 34fc02b33cecec06b118255ed1d12ccecf32ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 037/102] fix: u_config_load() must not leak the dup'ed
 descriptor

---
 srcs/toolbox/config.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index e08ed33..e430bb7 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -597,7 +597,10 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     FILE *file = NULL;
 
     /* must dup because fclose() calls close(2) on fd */
-    file = fdopen(dup(fd), "r");
+    dbg_err_sif((fd = dup(fd)) == -1);
+    file = fdopen(fd, "r");
+    if(file == NULL)
+        close(fd);
     dbg_err_if(file == NULL);
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
-- 
2.43.0


From 7483a00056e2d6ce5586c9bce5113ea710c3b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 038/102] fix: config lines may be longer than 2047 bytes

---
 srcs/toolbox/config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index e430bb7..f4a6dc5 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1371,11 +1371,11 @@ err:
 
 static int u_config_remove_comment(u_string_t *line)
 {
-    char last, ln[2048], *p;
+    char last, *ln = NULL, *p;
 
     dbg_return_if (line == NULL, ~0);
 
-    dbg_err_if (u_strlcpy(ln, u_string_c(line), sizeof ln));
+    dbg_err_if ((ln = u_strdup(u_string_c(line))) == NULL);
 
     for (last = '\0', p = ln; *p != '\0'; )
     {
@@ -1408,8 +1408,11 @@ static int u_config_remove_comment(u_string_t *line)
 
     dbg_err_if (u_string_set(line, ln, strlen(ln)));
 
+    u_free(ln);
+
     return 0;
 err:
+    U_FREE(ln);
     return ~0;
 }
 
-- 
2.43.0


From 7f8f011a01ae8b19af6da3df484b9e7e11c38baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 039/102] fix: u_config_set_value() must keep the previous
 value when it fails

---
 srcs/toolbox/config.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index f4a6dc5..9073ca8 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -446,16 +446,10 @@ int u_config_set_value (u_config_t *c, const char *val)
     u_config_t *root, *ignore;
     const char *varval, *vs, *ve, *p;
     u_string_t *var = NULL, *value = NULL;
+    char *new_value = NULL;
 
     dbg_err_if(c == NULL);
 
-    /* free() previous value if any */
-    if(c->value)
-    {
-        U_FREE(c->value);
-        c->value = NULL;
-    } 
-
     if(val)
     {
         dbg_err_if(u_string_create(NULL, 0, &var));
@@ -497,13 +491,17 @@ int u_config_set_value (u_config_t *c, const char *val)
 
         u_string_trim(value); /* remove leading and trailing spaces */
 
-        c->value = u_strdup(u_string_c(value));;
-        dbg_err_if(c->value == NULL);
+        new_value = u_strdup(u_string_c(value));
+        dbg_err_if(new_value == NULL);
 
         u_string_free(value);
         u_string_free(var);
     }
 
+    /* free() previous value if any, now that nothing can fail */
+    U_FREE(c->value);
+    c->value = new_value;
+
     return 0;
 err:
     if(value)
-- 
2.43.0


From 83033a00e7af810743da11afdeeb58498cbc859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 040/102] fix: u_config_add_child() must not leak the child
 when it fails

---
 srcs/toolbox/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 9073ca8..ef7e9c1 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -324,6 +324,7 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     return 0;
 err:
+    u_config_free(child);
     return ~0;
 }
 
-- 
2.43.0


From 384a08311d5883310c2853251efe544a53768e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 041/102] fix: a failed config key insertion must leave the
 tree as it was

---
 srcs/toolbox/config.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index ef7e9c1..90f05e8 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1054,7 +1054,7 @@ static u_config_t *u_config_get_root (u_config_t *c)
 static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild)
 {
-    u_config_t *child = NULL;
+    u_config_t *child = NULL, *added = NULL;
     char *p, *child_key;
 
     if((p = strchr(key, '.')) == NULL)
@@ -1062,7 +1062,8 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         child = u_config_get_child(c, key);
         if(child == NULL || !overwrite)
         {   /* there's no such child, add a new child */
-            dbg_err_if(u_config_add_child(c, key, &child));
+            dbg_err_if(u_config_add_child(c, key, &added));
+            child = added;
         } 
         dbg_err_if(u_config_set_value(child, val));
 
@@ -1073,12 +1074,19 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         child_key = u_strndup(key, p-key);
         dbg_err_if(child_key == NULL);
         if((child = u_config_get_child(c, child_key)) == NULL)
-            dbg_err_if(u_config_add_child(c, child_key, &child));
+        {
+            (void) u_config_add_child(c, child_key, &added);
+            child = added;
+        }
         U_FREE(child_key);
-        return u_config_do_set_key(child, ++p, val, overwrite, NULL);
+        dbg_err_if(child == NULL);
+        dbg_err_if(u_config_do_set_key(child, ++p, val, overwrite, NULL));
     }
     return 0;
 err:
+    /* don't leave half-initialised nodes attached */
+    if(added)
+        u_config_del_child(c, added);
     return ~0;
 }
 
-- 
2.43.0


From 202d4a1ecb17e03ec2ca33267df1db4c138adc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 042/102] fix: u_config_save_to_buf() must report failures in
 building the text

---
 srcs/toolbox/config.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 90f05e8..8b9db41 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1323,18 +1323,19 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(s == NULL);
 
     if(c->key && strcmp(c->key, "include"))
-        u_string_aprintf(s, "%s %s\n", c->key, (c->value ? c->value : ""));
+        dbg_err_if(u_string_aprintf(s, "%s %s\n", c->key, 
+                    (c->value ? c->value : "")));
     
     if(u_config_has_children(c))
     {
         if(c->parent)
-            u_string_aprintf(s, "%s", "{\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "{\n"));
 
         TAILQ_FOREACH(item, &c->children, np)
-            u_config_to_str(item, s);
+            dbg_err_if(u_config_to_str(item, s));
 
         if(c->parent)
-            u_string_aprintf(s, "%s", "}\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "}\n"));
     }
 
     return 0;
-- 
2.43.0


From a078b361319301bcff9da67088ef81f4df29217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 043/102] fix: u_config_set_value() must not look variables up
 in the parent of the root

---
 srcs/toolbox/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 8b9db41..0040db7 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -477,7 +477,7 @@ int u_config_set_value (u_config_t *c, const char *val)
 
             /* first see if the variable can be resolved in the local scope
                otherwise resolve it from the root */
-            root = c->parent;
+            root = c->parent ? c->parent : c;
             if(u_config_get_subkey(root, u_string_c(var), &ignore))
                 root = u_config_get_root(c);
             dbg_err_if(root == NULL);
-- 
2.43.0


From 5fff44f4a126e99d58ea9573616564fafca1d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 044/102] fix: u_config_get_subkey_nth() must honour the index
 of dotted keys, and not depend on free memory

---
 srcs/toolbox/config.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 0040db7..d6d4dff 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -388,7 +388,8 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
         u_config_t **pc)
 {
     u_config_t *child = NULL;
-    char *first_key = NULL, *p;
+    size_t len;
+    char *p;
 
     if ((p = strchr(subkey, '.')) == NULL)
     {
@@ -400,14 +401,13 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
     } 
     else 
     {
-        if ((first_key = u_strndup(subkey, p - subkey)) != NULL)
+        len = p - subkey;
+
+        TAILQ_FOREACH(child, &c->children, np)
         {
-            child = u_config_get_child(c, first_key);
-            U_FREE(first_key);
+            if (!strncmp(child->key, subkey, len) && child->key[len] == '\0')
+                return u_config_get_subkey_nth(child, ++p, n, pc);
         }
-
-        if (child != NULL)
-            return u_config_get_subkey(child, ++p, pc);
     }
 
     return ~0; /* not found */
-- 
2.43.0


From da02ca34c319e234b2f99503aa16bf48f1f8bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 045/102] fix: a config section which is never closed is an
 error

---
 srcs/toolbox/config.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index d6d4dff..ddd2fec 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -46,7 +46,7 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite);
+        void *arg, int overwrite, int nested);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
         u_config_t *inckey, int overwrite);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
@@ -568,7 +568,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
 
     return 0;
 err:
@@ -602,7 +602,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
         close(fd);
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
     dbg_err_sif(ferror(file));  /* gets() can't tell errors from eof */
 
     fclose(file);
@@ -903,7 +903,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     if(drv->open)
         dbg_err_if (drv->open(uri, &arg));
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
     {
@@ -997,7 +997,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
 
     *pc = c;
 
@@ -1124,7 +1124,7 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite)
+        void *arg, int overwrite, int nested)
 {
     enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
@@ -1178,13 +1178,13 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1));
 
             dbg_err_if(u_string_clear(lastkey));
 
             continue;
         } else if(ln[0] == '}') {
-            crit_err_ifm(c->parent == NULL,"config error: unmatched '}'");
+            crit_err_ifm(!nested,"config error: unmatched '}'");
             if(!u_isblank_str(++ln))
                 dbg_err("config error [line %d]: { or } must be the "
                          "only not-blank char in a line", lineno);
@@ -1231,6 +1231,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         overwrite, NULL));
     }
     dbg_err_if(rc < 0);
+    crit_err_ifm(rc == 1 && nested, "config error: missing '}'");
     
     u_string_free(lastkey);
     u_string_free(value);
@@ -1289,7 +1290,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
     {
-- 
2.43.0


From 71e72e9e44861736a583c370252db61c44348ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 046/102] fix: '#' in config keys and values must be escaped
 when the tree is written out

---
 srcs/toolbox/config.c | 48 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index ddd2fec..190feb8 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -45,6 +45,8 @@ static u_config_t *u_config_get_root (u_config_t *c);
 static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
+static void u_config_puts_escaped (const char *t, FILE *fp);
+static int u_config_cat_escaped (u_string_t *s, const char *t);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
         void *arg, int overwrite, int nested);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
@@ -248,9 +250,12 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
      * there) */
     if (c->key && strcmp(c->key, "include"))
     {
-        fprintf(fp, "%s", c->key);
+        u_config_puts_escaped(c->key, fp);
         if (c->value != NULL) 
-            fprintf(fp, "\t%s", c->value);
+        {
+            fputs("\t", fp);
+            u_config_puts_escaped(c->value, fp);
+        }
         fputs("\n", fp);
     }
 
@@ -1316,6 +1321,36 @@ static void u_config_del_key (u_config_t *c, u_config_t *child)
     TAILQ_REMOVE(&c->children, child, np);
 }
 
+/* Write out a key or value so that it reads back the same: an unescaped '#'
+ * would start a comment. */
+static void u_config_puts_escaped (const char *t, FILE *fp)
+{
+    for(; *t; ++t)
+    {
+        if(*t == '#')
+            fputs("\\", fp);
+        fputc(*t, fp);
+    }
+}
+
+/* The same as u_config_puts_escaped(), with a string as destination. */
+static int u_config_cat_escaped (u_string_t *s, const char *t)
+{
+    size_t len;
+
+    for(; *t; t += len)
+    {
+        if(*t == '#')
+            dbg_err_if(u_string_append(s, "\\", 1));
+        len = 1 + strcspn(t + 1, "#");
+        dbg_err_if(u_string_append(s, t, len));
+    }
+
+    return 0;
+err:
+    return ~0;
+}
+
 static int u_config_to_str (u_config_t *c, u_string_t *s)
 {
     u_config_t *item;
@@ -1324,8 +1359,13 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(s == NULL);
 
     if(c->key && strcmp(c->key, "include"))
-        dbg_err_if(u_string_aprintf(s, "%s %s\n", c->key, 
-                    (c->value ? c->value : "")));
+    {
+        dbg_err_if(u_config_cat_escaped(s, c->key));
+        dbg_err_if(u_string_aprintf(s, "%s", " "));
+        if(c->value)
+            dbg_err_if(u_config_cat_escaped(s, c->value));
+        dbg_err_if(u_string_aprintf(s, "%s", "\n"));
+    }
     
     if(u_config_has_children(c))
     {
-- 
2.43.0


From 358f40420670cbc5a96859c97f2e2e3b3df97034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 047/102] fix: u_config_include() must not use the include
 value after it is overwritten

---
 srcs/toolbox/config.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 190feb8..b42341b 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1288,9 +1288,11 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     if(drv->resolv)
     {
         dbg_err_if (drv->resolv(p, uri, sizeof(uri)));
-
-        p = uri;
     } 
+    else    /* the included text may overwrite our value */
+        dbg_err_if (u_strlcpy(uri, p, sizeof uri));
+
+    p = uri;
 
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
-- 
2.43.0


From a5cb60855d8dcbeed50f5222ddd1155bebed19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 048/102] fix: a failed reload must keep the pwd snapshot in
 place and be retried

---
 srcs/toolbox/pwd.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c756bd1..fafe3f4 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -425,19 +425,27 @@ int u_pwd_in_memory (u_pwd_t *pwd)
 
 static int u_pwd_load (u_pwd_t *pwd)
 {
+    u_hmap_t *old_db = NULL;
+
     dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (!pwd->in_memory, ~0);
 
-    /* wipe away old snapshot */
-    if (pwd->db)
-        (void) u_pwd_db_term(pwd);
+    /* the old snapshot is replaced only by a complete new one */
+    old_db = pwd->db;
+    pwd->db = NULL;
     
     /* create new hash map and load master db contents into it */
     dbg_err_if (u_pwd_db_new(pwd));
     dbg_err_if (u_pwd_db_load(pwd));
 
+    /* wipe away old snapshot */
+    if (old_db)
+        u_hmap_easy_free(old_db);
+
     return 0;
 err:
+    (void) u_pwd_db_term(pwd);
+    pwd->db = old_db;
     return ~0;
 }
 
@@ -613,11 +621,15 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
     if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
         return 0;
 
-    /* update notified: set .last_mod */
-    pwd->last_mod = update_timestamp;
-    
     /* reload db to memory */
-    return u_pwd_load(pwd);
+    dbg_err_if (u_pwd_load(pwd));
+
+    /* update done: set .last_mod (otherwise retry at the next query) */
+    pwd->last_mod = update_timestamp;
+
+    return 0;
+err:
+    return ~0;
 }
 
 static int u_pwd_db_new (u_pwd_t *pwd)
-- 
2.43.0


From ed6a5a8aad79558d1c8ae50c76987e656c83c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 049/102] fix: the pwd snapshot must not lack records because
 of read errors or missing memory

---
 srcs/toolbox/pwd.c | 55 ++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index fafe3f4..96bb024 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -475,9 +475,8 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
             continue;
 
         /* check if we're on user line, in case break the read loop... 
-         * this is different from using the in-memory version in case an 
-         * entry is duplicated: in-memory matches the last entry, here
-         * we would get the first one */
+         * just like in the in-memory version, the first one wins in case an 
+         * entry is duplicated */
         if (strstr(ln, uu) == ln)
         {
             got_it = 1;
@@ -692,43 +691,38 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             ln[strlen(ln) - 1] = '\0';
 
         /* tokenize line */
-        dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
+        dbg_err_if (u_strtok(ln, ":", &toks, &ntoks));
+
+        if (ntoks < 2)
         {
             u_info("bad syntax at line %zu (%s)", lc, ln);
             continue;
         }
 
-        /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                    &rec))
+        /* in case an entry is duplicated the first one wins */
+        if (u_hmap_easy_get(pwd->db, toks[0]))
         {
-            u_info("could not create record for entry at line %zu", lc);
+            u_info("duplicate entry at line %zu", lc);
             continue;
         }
 
-        /* push rec to db */
-        dbg_ifb (u_pwd_db_push(pwd, rec))
-        {
-            u_info("could not push record for entry at line %zu", lc);
-            u_pwd_rec_free(pwd, rec), rec = NULL;
-        }
-
-        rec = NULL;
+        /* create u_pwd_rec_t from tokens, and push it to db */
+        dbg_err_if (u_pwd_rec_new(toks[0], toks[1], 
+                    ntoks < 3 ? NULL : toks[2], &rec));
+        dbg_err_if (u_pwd_db_push(pwd, rec));
     }
 
+    /* the file based load method can't tell errors from end of file */
+    dbg_err_if (pwd->cb_load == __file_load && 
+            ferror((FILE *) pwd->res_handler));
+
     if (toks)
         u_strtok_cleanup(toks, ntoks);
- 
-    if (rec)
-        u_pwd_rec_free(pwd, rec);
 
     u_pwd_res_close(pwd);
 
     return 0;
 err:
-    if (rec)
-        u_pwd_rec_free(pwd, rec);
-
     if (toks)
         u_strtok_cleanup(toks, ntoks);
  
@@ -737,13 +731,22 @@ err:
     return ~0;
 }
 
+/* 'rec' is consumed, whatever the outcome */
 static int u_pwd_db_push (u_pwd_t *pwd, u_pwd_rec_t *rec)
 {
-    dbg_return_if (pwd->db == NULL, ~0);
-    dbg_return_if (rec == NULL, ~0);
-    dbg_return_if (rec->user == NULL, ~0);
+    u_hmap_o_t *obj = NULL;
+
+    dbg_err_if (pwd->db == NULL);
+    dbg_err_if (rec == NULL);
+    dbg_err_if (rec->user == NULL);
 
-    return u_hmap_easy_put(pwd->db, rec->user, (const void *) rec);
+    dbg_err_if ((obj = u_hmap_o_new(pwd->db, rec->user, rec)) == NULL);
+
+    return u_hmap_put(pwd->db, obj, NULL);
+err:
+    if (rec)
+        __hmap_pwd_rec_free(rec);
+    return ~0;
 }
 
 /* 
-- 
2.43.0


From aa761ed70bdcb70d6e4c84c1f5e8c7aed1410383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 050/102] fix: u_pwd_db_new() must not leak the hmap options

---
 srcs/toolbox/pwd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 96bb024..b5ba188 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -640,7 +640,11 @@ static int u_pwd_db_new (u_pwd_t *pwd)
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
             
-    return u_hmap_easy_new(hopts, &pwd->db);
+    dbg_err_if (u_hmap_easy_new(hopts, &pwd->db));
+
+    u_hmap_opts_free(hopts);
+
+    return 0;
 err:
     if (hopts)
         u_hmap_opts_free(hopts);
-- 
2.43.0


From 140af04cba1136ab28432486fcca27e680801c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 051/102] fix: u_pwd_rec_free() must not release records owned
 by the in-memory snapshot

---
 srcs/toolbox/pwd.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index b5ba188..71031c7 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -335,8 +335,9 @@ int u_pwd_init_file (const char *res_uri, u_pwd_hash_cb_t cb_hash,
  *  \brief  Dispose a ::u_pwd_rec_t object 
  *
  *  Dispose the supplied ::u_pwd_rec_t object \p rec.  It MUST be called
- *  on ::u_pwd_rec_t records returned from ::u_pwd_retr when using "in memory" 
- *  pwd instances (for non "in memory" pwd's the function is a NOP)
+ *  on ::u_pwd_rec_t records returned from ::u_pwd_retr when not using "in 
+ *  memory" pwd instances (for "in memory" pwd's, where records belong to the
+ *  snapshot, the function is a NOP)
  *
  *  \param  pwd     the pwd instance which owns \p rec
  *  \param  rec     the pwd_rec record to be disposed
@@ -348,11 +349,11 @@ void u_pwd_rec_free (u_pwd_t *pwd, u_pwd_rec_t *rec)
     dbg_return_if (pwd == NULL, );
     dbg_return_if (rec == NULL, );
 
-    U_FREE(rec->user);
-    U_FREE(rec->pass);
-    U_FREE(rec->opaque);
+    /* the record is owned by the snapshot */
+    if (pwd->in_memory)
+        return;
 
-    u_free(rec);
+    __hmap_pwd_rec_free(rec);
 
     return;
 }
@@ -804,11 +805,13 @@ err:
 /* hmap glue */
 static void __hmap_pwd_rec_free (void *val)
 {
-    u_pwd_t fake_pwd;
+    u_pwd_rec_t *rec = (u_pwd_rec_t *) val;
 
-    fake_pwd.in_memory = 1;
+    U_FREE(rec->user);
+    U_FREE(rec->pass);
+    U_FREE(rec->opaque);
 
-    u_pwd_rec_free(&fake_pwd, (u_pwd_rec_t *) val);
+    u_free(rec);
 
     return;
 }
-- 
2.43.0


From d5ef4078b0144ed0ffcea8a9335b655a33e5b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 052/102] fix: the hashed password buffer must have room for
 the string terminator

---
 srcs/toolbox/pwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 71031c7..ce27e16 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -258,7 +258,7 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     if (pwd->cb_hash)
     {
         /* create a buffer that fits the specific hash function */
-        dbg_err_if ((__p = u_zalloc(pwd->hash_len)) == NULL);
+        dbg_err_if ((__p = u_zalloc(pwd->hash_len + 1)) == NULL);
         (void) pwd->cb_hash(password, strlen(password), __p);
     }
     else
-- 
2.43.0


From 658f2ff376c077fd3f777aefa7ca0a4d64863092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 053/102] fix: the tail of an overlong pwd line must not be
 taken for another record

---
 srcs/toolbox/pwd.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index ce27e16..052d78d 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -28,6 +28,9 @@ static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user,
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec);
 
+/* line ops */
+static char *u_pwd_getline (u_pwd_t *pwd, char ln[U_PWD_LINE_MAX]);
+
 /* res ops */
 static int u_pwd_res_open (u_pwd_t *pwd);
 static void u_pwd_res_close (u_pwd_t *pwd);
@@ -469,7 +472,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     u_snprintf(uu, sizeof uu, "%s:", user);
     
     /* read line by line */
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 1; u_pwd_getline(pwd, ln) != NULL; lc++)
     {
         /* skip comments */
         if (ln[0] == '#')
@@ -522,6 +525,36 @@ err:
     return ~0;
 }
 
+/* Get next line from the master db.  Lines which don't fit U_PWD_LINE_MAX are
+ * skipped as a whole: their pieces must not be taken for records. */
+static char *u_pwd_getline (u_pwd_t *pwd, char ln[U_PWD_LINE_MAX])
+{
+    size_t len;
+    char more[U_PWD_LINE_MAX];
+
+    while (pwd->cb_load(ln, U_PWD_LINE_MAX, pwd->res_handler) != NULL)
+    {
+        len = strlen(ln);
+
+        if (len < U_PWD_LINE_MAX - 1 || ln[len - 1] == '\n')
+            return ln;
+
+        /* last line, with no newline at its end */
+        if (pwd->cb_load(more, sizeof more, pwd->res_handler) == NULL)
+            return ln;
+
+        u_info("line too long: skipped");
+
+        while ((len = strlen(more)) > 0 && more[len - 1] != '\n')
+        {
+            if (pwd->cb_load(more, sizeof more, pwd->res_handler) == NULL)
+                return NULL;
+        }
+    }
+
+    return NULL;
+}
+
 static int u_pwd_res_open (u_pwd_t *pwd)
 {
     dbg_return_if (pwd->cb_open == NULL, ~0);
@@ -678,7 +711,7 @@ static int u_pwd_db_load (u_pwd_t *pwd)
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 1; u_pwd_getline(pwd, ln) != NULL; lc++)
     {
         /* cleanup strtok rubbish from the previous loop */
         if (toks)
-- 
2.43.0


From ab6ddb86f943ed930d5f4dc325d61af437f5ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 054/102] fix: pwd lines must be parsed the same way in both
 modes, without merging empty fields or splitting user names

---
 srcs/toolbox/pwd.c | 107 +++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 52 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 052d78d..77d6960 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -30,10 +30,12 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
 
 /* line ops */
 static char *u_pwd_getline (u_pwd_t *pwd, char ln[U_PWD_LINE_MAX]);
+static int u_pwd_parse_line (char *ln, char *toks[3]);
 
 /* res ops */
 static int u_pwd_res_open (u_pwd_t *pwd);
 static void u_pwd_res_close (u_pwd_t *pwd);
+static int u_pwd_res_failed (u_pwd_t *pwd);
 
 /* file specialization */
 static int __file_open (const char *path, void **pfp);
@@ -456,9 +458,9 @@ err:
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec)
 {
-    size_t lc, got_it = 0, ntoks;
-    char ln[U_PWD_LINE_MAX], uu[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* expected line fmt is: "name:password[:opaque]\n" */
+    size_t lc, got_it = 0;
+    char ln[U_PWD_LINE_MAX];
+    char *toks[3];  /* expected line fmt is: "name:password[:opaque]\n" */
     u_pwd_rec_t *rec = NULL;
 
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -468,9 +470,6 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    /* do suitable search string for strstr(3) */
-    u_snprintf(uu, sizeof uu, "%s:", user);
-    
     /* read line by line */
     for (lc = 1; u_pwd_getline(pwd, ln) != NULL; lc++)
     {
@@ -478,10 +477,17 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
         if (ln[0] == '#')
             continue;
 
+        /* tokenize line: expect at least 2 fields: user and password */
+        if (u_pwd_parse_line(ln, toks))
+        {
+            u_info("bad syntax at line %zu", lc);
+            continue;
+        }
+
         /* check if we're on user line, in case break the read loop... 
          * just like in the in-memory version, the first one wins in case an 
          * entry is duplicated */
-        if (strstr(ln, uu) == ln)
+        if (strcmp(toks[0], user) == 0)
         {
             got_it = 1;
             break;
@@ -491,20 +497,8 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* check if we've reached here due to simple loop exhaustion */
     dbg_err_ifm (!got_it, "user %s not found", user);
 
-    /* remove terminating \n if needed */
-    if (ln[strlen(ln) - 1] == '\n')
-        ln[strlen(ln) - 1] = '\0';
-
-    /* tokenize line: expect at least 2 fields: user and password */
-    dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
-            "bad syntax at line %zu (%s)", lc, ln);
-
     /* create new record */
-    dbg_err_if (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                &rec));
-
-    /* dispose u_strtok rubbish */
-    u_strtok_cleanup(toks, ntoks);
+    dbg_err_if (u_pwd_rec_new(toks[0], toks[1], toks[2], &rec));
 
     /* dispose resource handler (if a 'close' method has been set) */
     u_pwd_res_close(pwd);
@@ -517,14 +511,38 @@ err:
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
-
     u_pwd_res_close(pwd);
 
     return ~0;
 }
 
+/* Break a line up into its (in place) fields: user, password and, if present,
+ * opaque.  User and password can't be empty. */
+static int u_pwd_parse_line (char *ln, char *toks[3])
+{
+    size_t i;
+    char *p = ln;
+
+    toks[0] = toks[1] = toks[2] = NULL;
+
+    /* remove trailing \n */
+    ln[strcspn(ln, "\n")] = '\0';
+
+    for (i = 0; i < 3 && p != NULL; i++)
+    {
+        toks[i] = p;
+
+        if ((p = strchr(p, ':')) != NULL)
+            *p++ = '\0';
+    }
+
+    /* an empty opaque field is the same as a missing one */
+    if (toks[2] && *toks[2] == '\0')
+        toks[2] = NULL;
+
+    return (*toks[0] && toks[1] && *toks[1]) ? 0 : ~0;
+}
+
 /* Get next line from the master db.  Lines which don't fit U_PWD_LINE_MAX are
  * skipped as a whole: their pieces must not be taken for records. */
 static char *u_pwd_getline (u_pwd_t *pwd, char ln[U_PWD_LINE_MAX])
@@ -541,7 +559,7 @@ static char *u_pwd_getline (u_pwd_t *pwd, char ln[U_PWD_LINE_MAX])
 
         /* last line, with no newline at its end */
         if (pwd->cb_load(more, sizeof more, pwd->res_handler) == NULL)
-            return ln;
+            return u_pwd_res_failed(pwd) ? NULL : ln;
 
         u_info("line too long: skipped");
 
@@ -567,6 +585,13 @@ static int u_pwd_res_open (u_pwd_t *pwd)
     return pwd->cb_open(pwd->res_uri, &pwd->res_handler);
 }
 
+/* The file based load method can't tell errors from end of file. */
+static int u_pwd_res_failed (u_pwd_t *pwd)
+{
+    return (pwd->cb_load == __file_load && 
+            ferror((FILE *) pwd->res_handler));
+}
+
 static void u_pwd_res_close (u_pwd_t *pwd)
 {
     nop_return_if (pwd->res_handler == NULL, );
@@ -699,9 +724,9 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
-    size_t lc, ntoks;
+    size_t lc;
     char ln[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
+    char *toks[3];  /* line fmt is: "name:password[:hint]\n" */
     u_pwd_rec_t *rec = NULL;
     
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -713,27 +738,14 @@ static int u_pwd_db_load (u_pwd_t *pwd)
 
     for (lc = 1; u_pwd_getline(pwd, ln) != NULL; lc++)
     {
-        /* cleanup strtok rubbish from the previous loop */
-        if (toks)
-        {
-            u_strtok_cleanup(toks, ntoks);
-            toks = NULL;
-        }
-
         /* skip comment lines */
         if (ln[0] == '#')
             continue;
 
-        /* remove trailing \n */
-        if (ln[strlen(ln) - 1] == '\n')
-            ln[strlen(ln) - 1] = '\0';
-
         /* tokenize line */
-        dbg_err_if (u_strtok(ln, ":", &toks, &ntoks));
-
-        if (ntoks < 2)
+        if (u_pwd_parse_line(ln, toks))
         {
-            u_info("bad syntax at line %zu (%s)", lc, ln);
+            u_info("bad syntax at line %zu", lc);
             continue;
         }
 
@@ -745,25 +757,16 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         }
 
         /* create u_pwd_rec_t from tokens, and push it to db */
-        dbg_err_if (u_pwd_rec_new(toks[0], toks[1], 
-                    ntoks < 3 ? NULL : toks[2], &rec));
+        dbg_err_if (u_pwd_rec_new(toks[0], toks[1], toks[2], &rec));
         dbg_err_if (u_pwd_db_push(pwd, rec));
     }
 
-    /* the file based load method can't tell errors from end of file */
-    dbg_err_if (pwd->cb_load == __file_load && 
-            ferror((FILE *) pwd->res_handler));
-
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
+    dbg_err_if (u_pwd_res_failed(pwd));
 
     u_pwd_res_close(pwd);
 
     return 0;
 err:
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
     u_pwd_res_close(pwd);
 
     return ~0;
-- 
2.43.0


From 53787b60126d505e05dc9563012f65e2a2d98dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 055/102] fix: u_env_init must not report success when the
 shell fails or can't be read

---
 srcs/toolbox/env.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index d95236b..bdc768e 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -90,6 +90,7 @@ int u_env_init (const char *prefix, const char *cfile)
     struct stat sb;
     char line[BUFSZ], pcmd[BUFSZ], *val;
     FILE *pi = NULL;
+    int rc;
 
     dbg_return_if (cfile == NULL || prefix == NULL, ~0);
 
@@ -114,7 +115,13 @@ int u_env_init (const char *prefix, const char *cfile)
         }
     }
 
-    pclose(pi);
+    /* fgets() can't tell errors from end of file */
+    dbg_err_sif (ferror(pi));
+
+    /* the variables are good only if the shell got to the end of the script */
+    rc = pclose(pi), pi = NULL;
+    dbg_err_ifm (rc != 0, "%s: shell returned %d", cfile, rc);
+
     return 0;
 err:
     U_PCLOSE(pi);
-- 
2.43.0


From 5793c202aef2068a96f5988a551abea8728d5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 056/102] fix: u_env_init must not split long lines nor cut the
 last one

---
 srcs/toolbox/env.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index bdc768e..9e1b640 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -12,6 +12,7 @@
 #include <toolbox/env.h>
 #include <toolbox/carpal.h>
 #include <toolbox/misc.h>
+#include <toolbox/str.h>
 
 /**
     \defgroup env Environment
@@ -88,7 +89,8 @@ int u_env_init (const char *prefix, const char *cfile)
 {
     enum { BUFSZ = 1024 };
     struct stat sb;
-    char line[BUFSZ], pcmd[BUFSZ], *val;
+    char buf[BUFSZ], pcmd[BUFSZ], *p, *line, *val;
+    u_string_t *ln = NULL;
     FILE *pi = NULL;
     int rc;
 
@@ -99,31 +101,49 @@ int u_env_init (const char *prefix, const char *cfile)
 
     dbg_err_if (u_snprintf(pcmd, BUFSZ, ". %s 2>/dev/null && env", cfile));
 
+    dbg_err_if (u_string_create(NULL, 0, &ln));
+
     dbg_err_if ((pi = popen(pcmd, "r")) == NULL);
 
-    while(fgets(line, BUFSZ-1, pi))
+    /* a line may need more than one read, and the last one may lack its '\n' */
+    do
     {
+        if((p = fgets(buf, BUFSZ-1, pi)) != NULL)
+        {
+            dbg_err_if(u_string_append(ln, buf, strlen(buf)));
+
+            if(strchr(buf, '\n') == NULL)
+                continue;
+        }
+
+        /* fgets() can't tell errors from end of file */
+        dbg_err_sif (ferror(pi));
+
+        line = (char *) u_string_c(ln);
+
         if(strncmp(line, prefix, strlen(prefix)) == 0)
         {
-            line[strlen(line)-1] = 0;
+            line[strcspn(line, "\n")] = 0;
             val = strchr(line, '=');
             if(!val)
-                continue; /* should never happen... */
+                goto next; /* should never happen... */
             *val++ = 0;
             /* line is the name and val the value */
             dbg_err_if(setenv(line, val, 1));
         }
+next:
+        dbg_err_if(u_string_clear(ln));
     }
-
-    /* fgets() can't tell errors from end of file */
-    dbg_err_sif (ferror(pi));
+    while(p != NULL);
 
     /* the variables are good only if the shell got to the end of the script */
     rc = pclose(pi), pi = NULL;
     dbg_err_ifm (rc != 0, "%s: shell returned %d", cfile, rc);
 
+    u_string_free(ln);
     return 0;
 err:
+    U_FREEF(ln, u_string_free);
     U_PCLOSE(pi);
     return ~0;
 }
-- 
2.43.0


From 74bcb88284aaacf51901cb2f3a0dd4847dab65a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 057/102] fix: crit_goto_if and crit_strerror did not expand to
 a log call

---
 include/toolbox/carpal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index de65df5..a6cc66c 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -471,8 +471,8 @@ extern "C" {
 #define crit_err_sifm(expr, ...)        msg_err_sifm(crit_, expr, __VA_ARGS__)
 #define crit_err_rcif(expr, ...)        msg_err_rcif(crit_, expr, __VA_ARGS__)
 
-#define crit_goto_if(expr, gt)          msg_goto_if(crit, expr, gt)
-#define crit_strerror(err)              msg_strerror(crit, err)
+#define crit_goto_if(expr, gt)          msg_goto_if(crit_, expr, gt)
+#define crit_strerror(err)              msg_strerror(crit_, err)
 
 /* err_ macros */
 #define u_err(...)                      msg(err_, 0, __VA_ARGS__)
-- 
2.43.0


From 1640eaec7d8b785f55114f0b81a366d80b53eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 058/102] fix: *_strerror macros must print the error code they
 were given

---
 include/toolbox/carpal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index a6cc66c..004f171 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -368,7 +368,7 @@ extern "C" {
         if(u_strerror_r(en, _eb, _DBG_BUFSZ)) {                     \
             msg(label, 0, "strerror_r(%d, ...) failed", en);        \
         } else {                                                    \
-            msg(label, 0, "errno: %d (%s)", errno, _eb);            \
+            msg(label, 0, "errno: %d (%s)", en, _eb);               \
         }                                                           \
     } while(0)  
 #endif /* OS_WIN */
-- 
2.43.0


From 7f13a552769b62caad342c8061e34ff39e0d3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 059/102] fix: log messages that could not be formatted must
 not be delivered

---
 srcs/toolbox/log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d7877c7..b90be8e 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -100,6 +100,7 @@ static int u_log(int fac, int level, const char *fmt, ...)
 {
     va_list ap;
     char buf[U_MAX_LOG_LENGTH];
+    int rc;
 
     va_start(ap, fmt); 
 
@@ -107,11 +108,12 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) > U_MAX_LOG_LENGTH)
+        rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
+        if(rc < 0 || rc > U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
-            return ~0; /* buffer too small */
+            return ~0; /* bad format or buffer too small */
         }
         buf[U_MAX_LOG_LENGTH - 1] = 0; 
         hook(hook_arg, level, buf);
@@ -157,8 +159,8 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
     rc = vsnprintf(msg, U_MAX_LOG_LENGTH, fmt, ap);
     va_end(ap);
 
-    if(rc >= U_MAX_LOG_LENGTH)
-        goto err; /* message too long */
+    if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
+        goto err; /* bad format or message too long */
 
     /* init empty strings */
     errmsg[0] = strerr[0] = 0;
-- 
2.43.0


From d7bdd4d58ecd17f7edaafc32c02f944e4c89af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 060/102] fix: u_log_write_ex must not report success for a
 dropped message

---
 srcs/toolbox/log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index b90be8e..648b722 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -174,12 +174,15 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
 
     /* ok, send the msg to the logger */
     if(flags & LOG_WRITE_FLAG_CTX)
-        u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
                u_log_label(lev), getpid(), file, line, func, msg, errmsg);
     else
-        u_log(fac, lev, "[%s][%d:::] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:::] %s %s", 
                u_log_label(lev), getpid(), msg, errmsg);
 
+    if(rc)
+        goto err; /* not delivered */
+
     restore_errno(savederr);
     return 0;
 err:
-- 
2.43.0


From 9b7a47a1794bd0054aac7d0699be4b33af8fef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:08 +0000
Subject: [PATCH 061/102] fix: u_json_encode must not encode the siblings of
 the supplied object

---
 srcs/toolbox/json.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b77059d..b6db214 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1136,6 +1136,8 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
 
 static int u_json_do_encode (u_json_t *jo, u_string_t *s)
 {
+    u_json_t *chld;
+
     if (jo == NULL)
         return 0;
 
@@ -1171,8 +1173,14 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             dbg_err("!");
     }
 
-    /* Explore depth. */
-    dbg_err_if (u_json_do_encode(TAILQ_FIRST(&jo->children), s));
+    /* Explore depth, adding comma to separate siblings when needed. */
+    TAILQ_FOREACH (chld, &jo->children, siblings)
+    {
+        dbg_err_if (u_json_do_encode(chld, s));
+
+        if (TAILQ_NEXT(chld, siblings))
+            dbg_err_if (u_string_aprintf(s, ", "));
+    }
 
     /* Close matching paren. */
     switch (jo->type)
@@ -1187,13 +1195,6 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             break;
     }
 
-    /* When needed, add comma to separate siblings. */
-    if (TAILQ_NEXT(jo, siblings))
-        dbg_err_if (u_string_aprintf(s, ", "));
-
-    /* Explore horizontally. */
-    dbg_err_if (u_json_do_encode(TAILQ_NEXT(jo, siblings), s));
-
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 20c246e7428b438eb6c519006dffcd8465c14a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:08 +0000
Subject: [PATCH 062/102] fix: u_json_encode must write empty keys, and no key
 inside arrays

---
 srcs/toolbox/json.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b6db214..178bed4 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1141,8 +1141,9 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
     if (jo == NULL)
         return 0;
 
-    /* Optional key. */
-    if (strlen(jo->key))
+    /* The key (which may be empty) goes with the members of an object, never 
+     * with the elements of an array. */
+    if (jo->parent ? jo->parent->type == U_JSON_TYPE_OBJECT : strlen(jo->key))
         dbg_err_if (u_string_aprintf(s, "\"%s\": ", jo->key));
 
     /* Value. */
-- 
2.43.0


From 07853b27cce78799611e0cc72880f2267875c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:08 +0000
Subject: [PATCH 063/102] fix: u_json_walk must stay inside the supplied object
 (u_json_remove freed its siblings)

---
 srcs/toolbox/json.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 178bed4..22f7fc4 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -613,6 +613,8 @@ err:
 void u_json_walk (u_json_t *jo, int strategy, size_t l, 
         void (*cb)(u_json_t *, size_t, void *), void *cb_args)
 {
+    u_json_t *chld, *next;
+
     dbg_return_if (strategy != U_JSON_WALK_PREORDER && 
             strategy != U_JSON_WALK_POSTORDER, );
 
@@ -622,11 +624,13 @@ void u_json_walk (u_json_t *jo, int strategy, size_t l,
     if (strategy == U_JSON_WALK_PREORDER && cb)
         cb(jo, l, cb_args);
 
-    /* When recurring into the children branch, increment depth by one. */
-    u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
-
-    /* Siblings are at the same depth as the current node. */
-    u_json_walk(TAILQ_NEXT(jo, siblings), strategy, l, cb, cb_args);
+    /* When recurring into the children branch, increment depth by one (the
+     * callback is allowed to free the node it is invoked on). */
+    for (chld = TAILQ_FIRST(&jo->children); chld != NULL; chld = next)
+    {
+        next = TAILQ_NEXT(chld, siblings);
+        u_json_walk(chld, strategy, l + 1, cb, cb_args);
+    }
 
     if (strategy == U_JSON_WALK_POSTORDER && cb)
         cb(jo, l, cb_args);
-- 
2.43.0


From 5bb680e45213a8c5bb50a82c016484427d9555e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:31 +0000
Subject: [PATCH 064/102] fix: u_json_set_val_ex must check the whole value,
 not just how it starts

---
 srcs/toolbox/json.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 22f7fc4..702f119 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -407,10 +407,12 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
     switch (jo->type)
     {
         case U_JSON_TYPE_STRING:
-            dbg_err_if (check && u_json_match_string(vl, NULL));
+            dbg_err_if (check && 
+                    (u_json_match_string(vl, NULL) || !u_lexer_eot(vl)));
             break;
         case U_JSON_TYPE_NUMBER:
-            dbg_err_if (check && u_json_match_number(vl, NULL));
+            dbg_err_if (check && 
+                    (u_json_match_number(vl, NULL) || !u_lexer_eot(vl)));
             break;
         default:
             /* Non-critical error, just emit some debug info. */
-- 
2.43.0


From 35ab6f3624e24edd9486b258ae93d57618b81f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:31 +0000
Subject: [PATCH 065/102] fix: failed u_json_set_key and u_json_set_val must
 leave the object as it was (and don't leak the lexer)

---
 srcs/toolbox/json.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 702f119..bab4d09 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -397,8 +397,8 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
         char qval[strlen(val) + 3]; 
 
         /* If we are supposed to set a string value, we need to quote it. */
-        (void) u_snprintf(qval, sizeof qval, 
-                (jo->type == U_JSON_TYPE_STRING) ? "\"%s\"" : "%s", val);
+        dbg_err_if (u_snprintf(qval, sizeof qval, 
+                (jo->type == U_JSON_TYPE_STRING) ? "\"%s\"" : "%s", val));
 
         dbg_err_if (u_lexer_new(qval, &vl));
     }
@@ -419,7 +419,9 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
             goto end;
     }
 
-    dbg_return_if (u_strlcpy(jo->val, val, sizeof jo->val), ~0);
+    /* Don't leave a truncated value behind. */
+    dbg_err_if (strlen(val) >= sizeof jo->val);
+    (void) u_strlcpy(jo->val, val, sizeof jo->val);
 
     /* Fall through. */       
 end:
@@ -447,7 +449,9 @@ int u_json_set_key (u_json_t *jo, const char *key)
     dbg_return_if (jo == NULL, ~0);
     dbg_return_ifm (jo->map, ~0, "Cannot set key of a cached object");
 
-    dbg_return_if (u_strlcpy(jo->key, key ? key : "", sizeof jo->key), ~0);
+    /* Don't leave a truncated key behind. */
+    dbg_return_if (key && strlen(key) >= sizeof jo->key, ~0);
+    (void) u_strlcpy(jo->key, key ? key : "", sizeof jo->key);
 
     return 0;
 }
-- 
2.43.0


From dfb211500e8594e39d99f5b1fea2e17b5a284ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 066/102] fix: JSON strings may contain the DEL character

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index bab4d09..4a49dd8 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1699,7 +1699,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
                     U_LEXER_ERR(jl, "invalid char %c in escape", c);
             }
         }
-        else if (iscntrl((int) c))
+        else if ((unsigned char) c < 0x20)  /* 0x7f is allowed by RFC 4627 */
             U_LEXER_ERR(jl, "control character in string", c); 
         else    
             U_LEXER_NEXT(jl, &c);
-- 
2.43.0


From ca1012673e61aeacd19bfa6d9041e3279d77c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 067/102] fix: no white space is allowed inside the JSON
 literals true, false and null

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 4a49dd8..6f506c0 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1430,7 +1430,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
 
     for (i = 0; i < rem_sz; i++)
     {
-        U_LEXER_SKIP(jl, &c);
+        U_LEXER_NEXT(jl, &c);
         if (c != *(rem + i))
         {
             U_LEXER_ERR(jl, "expect \'%c\', got %c at %s", 
-- 
2.43.0


From e8d5e3ab66a3091948f9f495d7625c6e17d05416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 068/102] fix: JSON tokens that don't fit must be refused
 instead of using an uninitialised buffer

---
 srcs/toolbox/json.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 6f506c0..c3fda5a 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1309,12 +1309,12 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
 
     /* Take care of the fact that the match includes the first non-number char
      * (see u_json_match_{int,exp,frac} for details). */
-    (void) u_lexer_get_match(jl, match);
-    match[strlen(match) - 1] = '\0';
-
     /* Push the matched number into the supplied json object. */
     if (jo)
     {
+        dbg_err_if (u_lexer_get_match(jl, match) == NULL);
+        match[strlen(match) - 1] = '\0';
+
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_NUMBER));
         dbg_err_if (u_json_set_val(jo, match));
     }
@@ -1622,14 +1622,16 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_depth(pair, jo->depth + 1));
     }
 
-    (void) u_lexer_get_match(jl, match);
+    if (jo)
+    {
+        dbg_err_if (u_lexer_get_match(jl, match) == NULL);
 
-    /* Trim trailing '"'. */
-    if ((mlen = strlen(match)) >= 1)
-        match[mlen - 1] = '\0';
+        /* Trim trailing '"'. */
+        if ((mlen = strlen(match)) >= 1)
+            match[mlen - 1] = '\0';
 
-    if (jo)
         dbg_err_if (u_json_set_key(pair, match));
+    }
 
     /* Consume trailing white spaces, if any. */
     if (isspace((int) u_lexer_peek(jl)))
@@ -1724,7 +1726,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
 
         /* Remove trailing '"' from match. */
-        (void) u_lexer_get_match(jl, match);
+        dbg_err_if (u_lexer_get_match(jl, match) == NULL);
 
         /* Trim trailing '"'. */
         if ((mlen = strlen(match)) >= 1)
-- 
2.43.0


From cf0391f618c5de9383fcb1fc55763e5a55afc2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 069/102] fix: u_json_cache_get must find the members of the
 root by their documented name

---
 srcs/toolbox/json.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index c3fda5a..6e0f327 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -748,26 +748,20 @@ int u_json_unindex (u_json_t *jo)
  */
 u_json_t *u_json_cache_get (u_json_t *jo, const char *name)
 {
-    u_json_t *res, *p;
+    u_json_t *res;
     char fqn[U_JSON_FQN_SZ];
 
     dbg_return_if (jo == NULL, NULL);
     dbg_return_if (jo->map == NULL, NULL);
     dbg_return_if (name == NULL, NULL);
 
-    if ((p = jo->parent) == NULL)
-    {
-        /* If 'jo' is top level, 'name' must be fully qualified. */ 
-        return (u_json_t *) u_hmap_easy_get(jo->map, name);
-    }
-
-    /* Else ('jo' != top): first try 'name' as it were fully qualified. */
+    /* First try 'name' as it were fully qualified. */
     if ((res = (u_json_t *) u_hmap_easy_get(jo->map, name)))
         return res;
 
     /* If 'name' is relative, we need to prefix it with the parent name 
-     * space. */
-    dbg_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name));
+     * space (also when 'jo' is top level: ".k" is member "k" of the root). */
+    dbg_return_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name), NULL);
 
     return (u_json_t *) u_hmap_easy_get(jo->map, fqn);
 }
-- 
2.43.0


From 20b78007c738d3c23c1ed5d33a3073e0d513ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 070/102] fix: u_json_cache_set_tv refused every lookup from a
 container and let containers become leaves

---
 srcs/toolbox/json.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 6e0f327..f1c6d2c 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -787,7 +787,6 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
 {
     u_json_t *res;
 
-    dbg_return_if (U_JSON_OBJ_IS_CONTAINER(jo), ~0);
     dbg_return_if (type == U_JSON_TYPE_OBJECT || type == U_JSON_TYPE_ARRAY, ~0);
     /* 'jo' and 'name' will be checked by u_json_cache_get(); 
      * 'val' consistency is checked after type has been set. */
@@ -795,15 +794,22 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
     /* Retrieve the node. */
     dbg_err_if ((res = u_json_cache_get(jo, name)) == NULL);
 
-    /* First set type (in case !unknown) so that we know how to check the
-     * subsequent value setting. */
-    if (type != U_JSON_TYPE_UNKNOWN)
-        res->type = type;
+    /* Only leaf nodes can be changed. */
+    dbg_err_if (U_JSON_OBJ_IS_CONTAINER(res));
+
+    if (type == U_JSON_TYPE_UNKNOWN)
+        type = res->type;
 
     /* Set value.  The caller must have supplied some non-NULL 'val' in case 
      * the final underlying type is a string or a number. */
-    if (res->type == U_JSON_TYPE_STRING || res->type == U_JSON_TYPE_NUMBER)
-        dbg_err_if (val == NULL || u_strlcpy(res->val, val, sizeof res->val));
+    if (type == U_JSON_TYPE_STRING || type == U_JSON_TYPE_NUMBER)
+    {
+        dbg_err_if (val == NULL || strlen(val) >= sizeof res->val);
+        (void) u_strlcpy(res->val, val, sizeof res->val);
+    }
+
+    /* Set type last, so that nothing has changed in case of error. */
+    res->type = type;
 
     return 0;
 err:
-- 
2.43.0


From 7c3cae5a890e38d5777ba30e0427aaabcb455699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:50 +0000
Subject: [PATCH 071/102] fix: u_json_validate must not crash when the lexer
 can't be created

---
 srcs/toolbox/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index f1c6d2c..a6262da 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1952,7 +1952,8 @@ static int u_json_do_parse (const char *json, u_json_t **pjo,
 err:
     /* Copy out the lexer error string (if requested). */
     if (status)
-        (void) u_strlcpy(status, u_lexer_geterr(jl), U_LEXER_ERR_SZ);
+        (void) u_strlcpy(status, jl ? u_lexer_geterr(jl) : "no memory", 
+                U_LEXER_ERR_SZ);
 
     u_lexer_free(jl);
     u_json_free(jo);
-- 
2.43.0


From b444a534ef6a19868e52dd800b2eb8c5132692cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 072/102] fix: u_atol and u_atoumax must not take a stale errno
 for their own failure

---
 srcs/toolbox/misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 8f23f6f..c452d63 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -730,6 +730,9 @@ int u_atol (const char *nptr, long *pl)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pl == NULL, ~0);
  
+    /* Reset errno: a stale ERANGE or EINVAL is not our failure. */
+    errno = 0;
+
     tmp = strtol(nptr, &endptr, 10);
     
     dbg_err_sif (tmp == 0 && errno == EINVAL);
@@ -809,6 +812,9 @@ int u_atoumax (const char *nptr, uintmax_t *pumax)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pumax == NULL, ~0);
  
+    /* Reset errno: a stale ERANGE or EINVAL is not our failure. */
+    errno = 0;
+
     tmp = strtoumax(nptr, (char **) NULL, 10);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
-- 
2.43.0


From 8fbcf4d378b66f0377e81d6ff9fa4baafc202c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 073/102] fix: u_json_it_prev must not crash on a node without
 container

---
 srcs/toolbox/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index a6262da..7275205 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1134,8 +1134,9 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
 
     dbg_return_if (it == NULL, NULL);
 
+    /* A node out of any container has no siblings. */
     if ((jo = it->cur) != NULL)
-        it->cur = TAILQ_PREV(jo, u_json_chld_s, siblings);
+        it->cur = jo->parent ? TAILQ_PREV(jo, u_json_chld_s, siblings) : NULL;
 
     return jo;
 }
-- 
2.43.0


From 720d1bcee816d86a820fc31b3e208ee8e51d32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 074/102] fix: u_json_index must restart counting the elements
 of every array

---
 srcs/toolbox/json.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 7275205..ae449d5 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -694,9 +694,6 @@ int u_json_index (u_json_t *jo)
     dbg_err_if (u_hmap_easy_new(opts, &hmap));
     u_hmap_opts_free(opts), opts = NULL;
 
-    /* Initialize array elems' indexing. */
-    jo->icur = 0;
-
     /* Walk the tree in pre-order and cache each node while we traverse. */
     u_json_walk(jo, U_JSON_WALK_PREORDER, u, u_json_do_index, hmap);
 
@@ -1831,15 +1828,13 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
-
-        /* In case we have an array inside another array, initialize the 
-         * counter for later recursive invocation. */
-        if (jo->type == U_JSON_TYPE_ARRAY)
-            jo->icur = 0;
     }
     else
         u_warn("Expecting an object, an array, or a top-level node.");
 
+    /* Initialize array elems' indexing (pre-order: parents come first). */
+    jo->icur = 0;
+
     /* Insert node into the hmap. */
     dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
 
-- 
2.43.0


From 2538fcd0c371fbf51a8e87c8aef35789af4b906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 075/102] fix: u_json_unindex must detach every node from the
 destroyed cache

---
 srcs/toolbox/json.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index ae449d5..acaf180 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -82,6 +82,7 @@ static const char *u_json_type_str (int type);
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
 static int u_json_do_encode (u_json_t *jo, u_string_t *s);
@@ -726,7 +727,9 @@ int u_json_unindex (u_json_t *jo)
     nop_return_if (jo->map == NULL, 0);
 
     u_hmap_easy_free(jo->map);
-    jo->map = NULL;
+
+    /* No node can refer to the cache any more. */
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
 
     return 0;
 }
@@ -1849,6 +1852,15 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     return;
 }
 
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque)
+{
+    u_unused_args(l, opaque);
+
+    jo->map = NULL;
+
+    return;
+}
+
 static int u_json_new_container (u_json_type_t type, const char *key, 
         u_json_t **pjo)
 {
-- 
2.43.0


From 2756abd50813bc780c601d2f70ac327fc399b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 076/102] fix: u_json_index must not report success for an
 incomplete or misnamed cache

---
 srcs/toolbox/json.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index acaf180..1ce133c 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -38,6 +38,13 @@ struct u_json_s
     u_hmap_t *map;              /* Alias reference to the global cache. */
 };
 
+/* What is needed while creating the cache. */
+struct u_json_idx_s
+{
+    u_hmap_t *map;
+    int rc;
+};
+
 /* Pointer to the name part of .fqn */
 #define U_JSON_OBJ_NAME(jo) \
         ((jo->parent != NULL) ? jo->fqn + strlen(p->fqn) : jo->fqn)
@@ -81,7 +88,7 @@ static const char *u_json_type_str (int type);
 /* Objects misc stuff. */
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
-static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_index (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
@@ -680,9 +687,9 @@ void u_json_print (u_json_t *jo)
  */
 int u_json_index (u_json_t *jo)
 {
-    size_t u;   /* Unused. */
     u_hmap_opts_t *opts = NULL;
     u_hmap_t *hmap = NULL;
+    struct u_json_idx_s idx;
 
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map, 0);     /* If already cached, return ok. */
@@ -696,7 +703,11 @@ int u_json_index (u_json_t *jo)
     u_hmap_opts_free(opts), opts = NULL;
 
     /* Walk the tree in pre-order and cache each node while we traverse. */
-    u_json_walk(jo, U_JSON_WALK_PREORDER, u, u_json_do_index, hmap);
+    idx.map = hmap, idx.rc = 0;
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_index, &idx);
+
+    /* An incomplete cache is worse than no cache. */
+    dbg_err_if (idx.rc);
 
     /* Attach the associative array to the top level object. */
     jo->map = hmap, hmap = NULL;
@@ -706,7 +717,10 @@ err:
     if (opts)
         u_hmap_opts_free(opts);
     if (hmap)
+    {
+        u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
         u_hmap_easy_free(hmap);
+    }
     return ~0;
 }
 
@@ -1807,10 +1821,11 @@ static void u_json_do_print (u_json_t *jo, size_t l, void *opaque)
     return;
 }
 
-static void u_json_do_index (u_json_t *jo, size_t l, void *map)
+static void u_json_do_index (u_json_t *jo, size_t l, void *opaque)
 {
     u_json_t *p;
-    u_hmap_t *hmap = (u_hmap_t *) map;
+    struct u_json_idx_s *idx = (struct u_json_idx_s *) opaque;
+    u_hmap_t *hmap = idx->map;
 
     u_unused_args(l);
 
@@ -1822,12 +1837,14 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     else if (p->type == U_JSON_TYPE_OBJECT)
     {
         /* Nodes in object containers are named after their key. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key));
+        dbg_err_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", 
+                    p->fqn, jo->key));
     }
     else if (p->type == U_JSON_TYPE_ARRAY)
     {
         /* Nodes in array containers are named after their ordinal position. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur));
+        dbg_err_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", 
+                    p->fqn, p->icur));
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
@@ -1838,17 +1855,22 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     /* Initialize array elems' indexing (pre-order: parents come first). */
     jo->icur = 0;
 
-    /* Insert node into the hmap. */
-    dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
+    /* Insert node into the hmap (homonyms can't be told apart: the first one 
+     * gets the name). */
+    dbg_err_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo) && 
+            u_hmap_easy_get(hmap, jo->fqn) == NULL);
 
     /* Stick the map pointer inside each visited node, so that it can
      * be readily referenced on retrieval. */
-    jo->map = map;
+    jo->map = hmap;
 
 #ifdef U_JSON_IDX_DEBUG
     u_con("%p => %s (%s) = %s", jo, jo->fqn, U_JSON_OBJ_NAME(jo), jo->val);
 #endif
 
+    return;
+err:
+    idx->rc = ~0;
     return;
 }
 
-- 
2.43.0


From 422adc572337219e4bd7f6565cb2e96530158482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:23 +0000
Subject: [PATCH 077/102] fix: u_json_array_get_nth must not return the element
 of a homonym when indexed

---
 srcs/toolbox/json.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 1ce133c..e58d701 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -852,8 +852,12 @@ u_json_t *u_json_array_get_nth (u_json_t *jo, unsigned int n)
     if (jo->map)
     {
         char elem_fqn[U_JSON_FQN_SZ] = { '\0' };
-        dbg_if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n));
-        return u_json_cache_get(jo, elem_fqn);
+
+        /* Go the slow way if the name belongs to some homonym. */
+        if (!u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n)
+                && (elem = u_json_cache_get(jo, elem_fqn)) != NULL
+                && elem->parent == jo)
+            return elem;
     }
     
     /* Too bad if we don't have cache in place: we have to go through the 
-- 
2.43.0


From 798ca303743aaa27fd865cb17de6d478ddc82fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 078/102] fix: test cases that were never run, or could not be
 waited for, must not be reported as passed

---
 srcs/toolbox/test.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 237ce56..7cab46f 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1155,7 +1155,7 @@ static int u_test_obj_init (const char *id, u_test_what_t what,
     to->parent = NULL;
     to->sequenced = 0;
     to->rank = 0;
-    to->status = U_TEST_SUCCESS;
+    to->status = U_TEST_ABORTED;    /* Until it is run to an end. */
     to->start = to->stop = -1;
     dbg_err_if (u_strlcpy(to->id, id, sizeof to->id)); 
 
@@ -1471,6 +1471,7 @@ static int u_test_suite_scheduler (u_test_obj_t *to)
     ts->o.start = time(NULL);
 
     /* Go through children test cases. */
+    ts->o.status = U_TEST_SUCCESS;
     rc = u_test_obj_scheduler(&ts->u_test_cases, u_test_case_scheduler);
 
     /* See if we've been interrupted, in which case we need to cleanup
@@ -1528,7 +1529,10 @@ static int u_test_case_exec (u_test_case_t *tc)
     dbg_return_if (tc == NULL, ~0);
 
     if (tc->func == NULL)
+    {
+        tc->o.status = U_TEST_SUCCESS;
         return 0;
+    }
 
     /* Record test case begin timestamp. */
     tc->o.start = time(NULL);
-- 
2.43.0


From 6f26a07e5bd72859d49abae25f8af4d1c9fa6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 079/102] fix: signals must not keep the test runner from
 waiting for its children

---
 srcs/toolbox/test.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 7cab46f..d050090 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1332,7 +1332,9 @@ static int u_test_cases_reap (TO *h)
         {
             /* Interrupted (should be by user interaction) or no more child 
              * processes */
-            if (errno == EINTR || errno == ECHILD)
+            if (errno == EINTR && !g_interrupted)
+                continue;
+            else if (errno == EINTR || errno == ECHILD)
                 break;
             else    /* THIS IS BAD */
                 con_err_sifm (1, "wait3 failed badly, test aborted");
-- 
2.43.0


From 7015382f6ba62d768c57c8149744f22dcdaa6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 080/102] fix: a dependency registered twice must not be taken
 for a dependency loop

---
 srcs/toolbox/test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index d050090..70b3952 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -984,7 +984,7 @@ static int u_test_obj_dep_add (u_test_dep_t *td, u_test_obj_t *to)
 
     /* See if the dependency isn't already recorded, in which case
      * insert it into the dependency list for this test case/suite. */
-    if (u_test_dep_search(&to->deps, to->id) == NULL)
+    if (u_test_dep_search(&to->deps, td->id) == NULL)
     {
         LIST_INSERT_HEAD(&to->deps, td, links);
     }
-- 
2.43.0


From fbdfb85bcf9812f55ef120eefc41b2edad6c02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 081/102] fix: the test scheduler must neither loop on skipped
 cases nor exceed the parallel limit

---
 srcs/toolbox/test.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 70b3952..8ce768a 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1262,7 +1262,12 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
             tc = TC_HANDLE(tptr);
 
         resched:
-            for (to = tptr; to != NULL; to = LIST_NEXT(to, links))
+            parallel = 0;       /* Reset parallel counter. */
+
+            /* Make sure 'tptr' is unset, so that, in case we go out on 
+             * loop exhaustion, the reaper branch knows that we don't need
+             * to be restarted. */
+            for (to = tptr, tptr = NULL; to != NULL; to = LIST_NEXT(to, links))
             {
                 if (to->rank == r)
                 {
@@ -1286,11 +1291,6 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
                         goto reap;
                     }
                 }
-                    
-                /* Make sure 'tptr' is unset, so that, in case we go out on 
-                 * loop exhaustion, the reaper branch knows that we don't need
-                 * to be restarted. */
-                tptr = NULL;
             }
 
         reap:
@@ -1298,10 +1298,7 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
 
             /* If 'tptr' was set, it means that we need to restart. */
             if (tptr != NULL)
-            {
-                parallel = 0;       /* Reset parallel counter. */
                 goto resched;       /* Go to sched again. */
-            }
         }
     }
 
-- 
2.43.0


From 147799b8cbe1b5fc32a14469a9e649f27735f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 082/102] fix: an incompletely written test report is an error,
 and standard output is not to be closed

---
 srcs/toolbox/test.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 8ce768a..0d37c92 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1574,7 +1574,8 @@ static int u_test_case_exec (u_test_case_t *tc)
 
 static int u_test_reporter (u_test_t *t)
 {
-    FILE *fp;
+    int rc;
+    FILE *fp = NULL;
     u_test_obj_t *tso, *tco;
     u_test_suite_t *ts;
 
@@ -1604,10 +1605,17 @@ static int u_test_reporter (u_test_t *t)
 
     dbg_err_if (t->reporters.t_cb(fp, t, U_TEST_REP_TAIL));
 
-    (void) fclose(fp);
+    /* Errors may surface as late as when the buffered data is flushed. */
+    rc = fflush(fp) || ferror(fp);
+    if (fp != stdout)
+        rc |= fclose(fp);
+    fp = NULL;
+    dbg_err_sif (rc);
 
     return 0;
 err:
+    if (fp && fp != stdout)
+        (void) fclose(fp);
     return ~0;
 }
 
-- 
2.43.0


From f424926a78a3bffcd4f78c6386de1d9cc841fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 083/102] fix: the cases of skipped test suites must be counted
 in the report

---
 srcs/toolbox/test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 0d37c92..810e99d 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1508,7 +1508,7 @@ static int u_test_suite_update_all_status (u_test_suite_t *ts, int status)
     LIST_FOREACH (to, &ts->u_test_cases.objs, links)
         to->status = status;
 
-    return 0;
+    return u_test_syn_update(&ts->syn, &ts->u_test_cases);
 }
 
 static int u_test_case_scheduler (u_test_obj_t *to)
-- 
2.43.0


From 264bb9bfcb16bd2112eeda2d2a2302a07f57197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 084/102] fix: test case return codes that are multiples of 256
 are no success

---
 srcs/toolbox/test.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 810e99d..6e4aef0 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1556,7 +1556,9 @@ static int u_test_case_exec (u_test_case_t *tc)
             u_warn("test case %s spawn failed: %s", tc->o.id, strerror(errno));
             return ~0;
         case 0:
-            exit(tc->func(tc));
+            /* Don't let the truncation to 8 bits make a success of it. */
+            rc = tc->func(tc);
+            exit((rc & 0xff) == rc ? rc : U_TEST_FAILURE);
         default:
             break;
     }
-- 
2.43.0


From 39b7b8a364abcc967f7eda94408a732f90ab44d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 085/102] fix: an overlong report file name must be refused
 instead of truncated

---
 srcs/toolbox/test.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 6e4aef0..f4febda 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1859,7 +1859,8 @@ static int u_test_getopt (int ac, char *av[], u_test_t *t)
         switch (c)
         {
             case 'o':   /* Report file. */
-                (void) u_strlcpy(t->outfn, optarg, sizeof t->outfn);
+                if (u_strlcpy(t->outfn, optarg, sizeof t->outfn))
+                    u_test_usage(av[0], "report file name too long");
                 break;
             case 'f':   /* Report format. */
                 if (u_test_set_outfmt(t, optarg))
-- 
2.43.0


From ee5d2f07586aac25f799bc5c2a835daf3679b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 086/102] fix: test cases ending with an unexpected return code
 have failed

---
 srcs/toolbox/test.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index f4febda..42748d8 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1361,6 +1361,8 @@ static int u_test_cases_reap (TO *h)
             tc->o.status = WEXITSTATUS(status);
             dbg_if (tc->o.status != U_TEST_SUCCESS && 
                     tc->o.status != U_TEST_FAILURE);
+            if (tc->o.status > U_TEST_SKIPPED)
+                tc->o.status = U_TEST_FAILURE;
         }
         else if (WIFSIGNALED(status))
         {
@@ -1543,7 +1545,7 @@ static int u_test_case_exec (u_test_case_t *tc)
         dbg_if ((rc = tc->func(tc)) != U_TEST_SUCCESS && rc != U_TEST_FAILURE);
 
         /* Update test case stats. */
-        tc->o.status = rc;
+        tc->o.status = (rc < 0 || rc > U_TEST_SKIPPED) ? U_TEST_FAILURE : rc;
         tc->o.stop = time(NULL);
 
         return 0;
-- 
2.43.0


From 91c35daf4daedd33bc0a696db7a377aac5a1fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 087/102] fix: children reaped by somebody else must not make
 the test runner give up the cases not yet started

---
 srcs/toolbox/test.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 42748d8..94a1819 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -171,6 +171,7 @@ static int u_test_case_exec (u_test_case_t *tc);
 /* Test cases routines. */
 static int u_test_cases_reap (TO *h);
 static u_test_case_t *u_test_cases_search_by_pid (TO *h, pid_t pid);
+static void u_test_cases_lost (TO *h);
 
 /* Test suite routines. */
 static int u_test_suite_scheduler (u_test_obj_t *to);
@@ -1331,8 +1332,13 @@ static int u_test_cases_reap (TO *h)
              * processes */
             if (errno == EINTR && !g_interrupted)
                 continue;
-            else if (errno == EINTR || errno == ECHILD)
+            else if (errno == EINTR)
                 break;
+            else if (errno == ECHILD)   /* Reaped by somebody else. */
+            {
+                u_test_cases_lost(h);
+                break;
+            }
             else    /* THIS IS BAD */
                 con_err_sifm (1, "wait3 failed badly, test aborted");
         }
@@ -1396,6 +1402,24 @@ err:
 #endif  /* U_TEST_SANDBOX_ENABLED */
 }
 
+static void u_test_cases_lost (TO *h)
+{
+    u_test_obj_t *to;
+    u_test_case_t *tc;
+
+    LIST_FOREACH (to, &h->objs, links)
+    {
+        if (tc = TC_HANDLE(to), tc->pid != U_TEST_CASE_PID_INITIALIZER)
+        {
+            tc->pid = U_TEST_CASE_PID_INITIALIZER;
+            tc->o.status = U_TEST_ABORTED;
+            tc->o.stop = time(NULL);
+        }
+    }
+
+    h->nchildren = 0;
+}
+
 static u_test_case_t *u_test_cases_search_by_pid (TO *h, pid_t pid)
 {
     u_test_obj_t *to;
-- 
2.43.0


From 2e59c761715d30799aecdf3656d6a3a58b4b70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 088/102] fix: printing a hash map's policy queue must not call
 a missing or failing serializer

---
 srcs/toolbox/hmap.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index a1730f3..f73e413 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1998,14 +1998,13 @@ void u_hmap_dbg (u_hmap_t *hmap)
             }
             else
             {
-                st = hmap->opts->f_str(obj);
-                dbg_err_if (u_string_append(s, u_string_c(st),
-                            u_string_len(st)-1));
-                u_string_free(st);
+                dbg_err_if ((st = hmap->opts->f_str(obj)) == NULL);
+                dbg_err_if (u_string_cat(s, u_string_c(st)));
+                U_FREEF(st, u_string_free);
             }
         }
-        u_dbg(u_string_c(s));
-        u_string_free(s);
+        u_dbg("%s", u_string_c(s));
+        U_FREEF(s, u_string_free);
     }
 
     return;
@@ -2035,14 +2034,21 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
 
     TAILQ_FOREACH(q, &hmap->pcy.queue, next)
     {
-        s2 = hmap->opts->f_str(q->ho);
-        dbg_err_if (u_string_cat(s, u_string_c(s2)));
+        if (hmap->opts->f_str == NULL)
+        {
+            dbg_err_if (u_string_cat(s, "[]"));
+        }
+        else
+        {
+            dbg_err_if ((s2 = hmap->opts->f_str(q->ho)) == NULL);
+            dbg_err_if (u_string_cat(s, u_string_c(s2)));
+            U_FREEF(s2, u_string_free);
+        }
         if (hmap->opts->policy == U_HMAP_PCY_LFU)  /* print count */
             dbg_err_if (u_string_aprintf(s, "-%d", *((int *)q->data)));
-        u_string_free(s2);
     }
 
-    u_dbg(u_string_c(s));
+    u_dbg("%s", u_string_c(s));
     u_string_free(s);
 
     return;
-- 
2.43.0


From 643d511e4dcc2bf7d662b018bcedc3ee61426ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:10 +0000
Subject: [PATCH 089/102] fix: u_uri_crumble() must not drop user and password
 silently when out of memory

---
 srcs/toolbox/uri.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index d341e20..22234e5 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -630,7 +630,11 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
     if (!(u->opts & U_URI_OPT_DONT_PARSE_USERINFO))
-        dbg_if (u_uri_crumble_user_password(u)); 
+    {
+        /* An empty userinfo has nothing to split. */
+        if (strlen(u->userinfo))
+            warn_err_if (u_uri_crumble_user_password(u));
+    }
 
     /* Consume '@' and go out. */
     U_LEXER_NEXT(l, NULL);
-- 
2.43.0


From aeaf516d1bb3702c684e427b78eedf1c2dcf7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:10 +0000
Subject: [PATCH 090/102] fix: a new URI host must not inherit the brackets of
 the previous one

---
 srcs/toolbox/uri.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 22234e5..d992f37 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -316,12 +316,15 @@ err:
     return 0;
 }
 
-#define U_URI_GETSET_F(field)                                       \
+#define U_URI_GET_F(field)                                          \
 const char *u_uri_get_##field (u_uri_t *uri)                        \
 {                                                                   \
     dbg_return_if (uri == NULL, NULL);                              \
     return uri->field;                                              \
-}                                                                   \
+}
+
+#define U_URI_GETSET_F(field)                                       \
+U_URI_GET_F(field)                                                  \
                                                                     \
 int u_uri_set_##field (u_uri_t *uri, const char *val)               \
 {                                                                   \
@@ -339,13 +342,29 @@ U_URI_GETSET_F(scheme)
 U_URI_GETSET_F(userinfo)
 U_URI_GETSET_F(user)
 U_URI_GETSET_F(pwd)
-U_URI_GETSET_F(host)
+U_URI_GET_F(host)
 U_URI_GETSET_F(port)
 U_URI_GETSET_F(authority)
 U_URI_GETSET_F(path)
 U_URI_GETSET_F(query)
 U_URI_GETSET_F(fragment)
 
+int u_uri_set_host (u_uri_t *uri, const char *val)
+{
+    dbg_return_if (uri == NULL, ~0);
+    dbg_return_if (val == NULL, ~0);
+
+    dbg_err_if (u_strlcpy(uri->host, val, sizeof uri->host));
+
+    /* What was known about the previous host doesn't apply to the new one. */
+    uri->flags &= ~(U_URI_FLAGS_HOST_IS_IPADDRESS | 
+            U_URI_FLAGS_HOST_IS_IPLITERAL);
+
+    return 0;
+err:
+    return ~0;
+}
+
 u_uri_flags_t u_uri_get_flags (u_uri_t *uri) { return uri->flags; }
 
 /**
-- 
2.43.0


From 4538fe1a8425cfd9746e3192de75dc630523ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:10 +0000
Subject: [PATCH 091/102] fix: u_uri_knead() must separate the authority from a
 relative path

---
 srcs/toolbox/uri.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index d992f37..20d7785 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -172,6 +172,11 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
     else /* try recompose authority through its atoms */
         dbg_err_if (u_uri_knead_authority(u, s));
 
+    /* A path that follows an authority begins with a slash, see RFC 3986, 
+     * Section 3.3. */
+    if (strlen(u->path) && u->path[0] != '/')
+        dbg_err_if (u_strlcat(s, "/", U_URI_STRMAX));
+
     dbg_err_if (u_strlcat(s, u->path, U_URI_STRMAX));
 
     if (strlen(u->query))
-- 
2.43.0


From 884ec3fc096b1f8413604d6b671e8db324b6ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 092/102] fix: a message one byte too long for the log hook
 must be refused instead of truncated

---
 srcs/toolbox/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index 648b722..46fdcbd 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -109,7 +109,7 @@ static int u_log(int fac, int level, const char *fmt, ...)
     if(hook)
     {
         rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
-        if(rc < 0 || rc > U_MAX_LOG_LENGTH)
+        if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
-- 
2.43.0


From 16df2d962588f587e4912223c18a842137a8d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:42 +0000
Subject: [PATCH 093/102] fix: u_tokenize() must not write past a vector of one
 cell

---
 srcs/toolbox/misc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index c452d63..5153171 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -918,15 +918,14 @@ int u_tokenize (char *wlist, const char *delim, char **tokv, size_t tokv_sz)
 
     ap = tokv;
 
-    for ( ; (*ap = strsep(&wlist, delim)) != NULL; )
+    /* the last cell is for the stopper */
+    while (ap < &tokv[tokv_sz - 1] && (*ap = strsep(&wlist, delim)) != NULL)
     {
         /* skip empty field */
         if (**ap == '\0')
             continue;
 
-        /* check bounds */
-        if (++ap >= &tokv[tokv_sz - 1])
-            break;
+        ++ap;
     }
 
     /* put an explicit stopper to tokv */
-- 
2.43.0


From a871f204216bc45c7a7fba618ec620344e10f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 094/102] fix: SCTP events that were not asked for must not be
 enabled at random

---
 srcs/toolbox/net.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 83d512f..81fdfae 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1010,6 +1010,9 @@ static int sctp_enable_events (int s, int o)
 {
     struct sctp_event_subscribe e;
 
+    /* there are more events than those we know about */
+    memset(&e, 0, sizeof e);
+
     e.sctp_data_io_event = 
         (o & U_NET_OPT_SCTP_DATA_IO_EVENT) ? 1 : 0;
 
-- 
2.43.0


From 36cd1a2292e4b7433ef3a6623232a73dc0a09698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 095/102] fix: u_sa_ntop() must not return an unwritten buffer
 when formatting fails

---
 srcs/toolbox/net.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 81fdfae..62d7aeb 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -779,7 +779,8 @@ const char *u_inet_ntop (int af, const void *src, char *dst, u_socklen_t len)
     {
         char s[U_INET_ADDRSTRLEN];
 
-        dbg_if (u_snprintf(s, sizeof s, "%d.%d.%d.%d", p[0], p[1], p[2], p[3]));
+        dbg_return_if (u_snprintf(s, sizeof s, "%d.%d.%d.%d", 
+                    p[0], p[1], p[2], p[3]), NULL);
 
         if (u_strlcpy(dst, s, len))
         {
@@ -813,7 +814,8 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         {
             const struct sockaddr_in *s4 = (const struct sockaddr_in *) sa;
             dbg_err_if (!u_inet_ntop(AF_INET, &s4->sin_addr, a, sizeof a));
-            dbg_if (u_snprintf(d, dlen, "%s:%d", a, ntohs(s4->sin_port)));
+            dbg_err_if (u_snprintf(d, dlen, "%s:%d", a, 
+                        ntohs(s4->sin_port)));
             break;
         }
 #ifndef NO_IPV6
@@ -821,7 +823,8 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         {
             const struct sockaddr_in6 *s6 = (const struct sockaddr_in6 *) sa;
             dbg_err_if (!u_inet_ntop(AF_INET6, &s6->sin6_addr, a, sizeof a));
-            dbg_if (u_snprintf(d, dlen, "[%s]:%d", a, ntohs(s6->sin6_port)));
+            dbg_err_if (u_snprintf(d, dlen, "[%s]:%d", a, 
+                        ntohs(s6->sin6_port)));
             break;
         }
 #endif  /* !NO_IPV6 */
-- 
2.43.0


From 1c9045d1c5908f0e105aa10a8344154a49c3b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:33 +0000
Subject: [PATCH 096/102] fix: u_json_add() must drop the index of the object
 it adds

Only top level objects can be cached: once added, the object's index was
never released, and its nodes kept being taken as frozen.
---
 srcs/toolbox/json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index e58d701..77be419 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -503,6 +503,9 @@ int u_json_add (u_json_t *head, u_json_t *jo)
             head, u_json_type_str(head->type), head->key, head->depth);
 #endif  /* U_JSON_OBJ_DEBUG */
 
+    /* Only top level objects can be cached: 'jo' is one no more. */
+    dbg_return_if (u_json_unindex(jo), ~0);
+
     TAILQ_INSERT_TAIL(&head->children, jo, siblings);
     jo->parent = head;
 
-- 
2.43.0


From 45989ab8e25cd22678c2341fceafc0da70bdddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:00 +0000
Subject: [PATCH 097/102] fix: circular includes must be refused wherever they
 occur, and only they

An include inside a section, or an optional one, that led back to a file
being included recursed until the stack overflowed, while a file included
twice side by side was refused as circular.  Keep the chain of files being
included and refuse exactly the files that are on it.
---
 srcs/toolbox/config.c | 47 +++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index b42341b..e157068 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -38,6 +38,13 @@ struct u_config_buf_s
     size_t len;
 };
 
+/* the files being included, innermost first */
+struct u_config_inc_s
+{
+    const char *uri;
+    const struct u_config_inc_s *up;
+};
+
 /* file system pre-defined driver */
 extern u_config_driver_t u_config_drv_fs;
 
@@ -48,9 +55,9 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static void u_config_puts_escaped (const char *t, FILE *fp);
 static int u_config_cat_escaped (u_string_t *s, const char *t);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite, int nested);
+        void *arg, int overwrite, int nested, const struct u_config_inc_s *inc);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite);
+        u_config_t *inckey, int overwrite, const struct u_config_inc_s *up);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
@@ -573,7 +580,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0, NULL));
 
     return 0;
 err:
@@ -607,7 +614,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
         close(fd);
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0, NULL));
     dbg_err_sif(ferror(file));  /* gets() can't tell errors from eof */
 
     fclose(file);
@@ -908,7 +915,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     if(drv->open)
         dbg_err_if (drv->open(uri, &arg));
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0, NULL));
 
     if(drv->close)
     {
@@ -1002,7 +1009,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0, NULL));
 
     *pc = c;
 
@@ -1129,7 +1136,7 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite, int nested)
+        void *arg, int overwrite, int nested, const struct u_config_inc_s *inc)
 {
     enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
@@ -1183,7 +1190,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1, inc));
 
             dbg_err_if(u_string_clear(lastkey));
 
@@ -1217,9 +1224,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
             /* load the included file */
             if (u_string_c(key)[0] == '-')  /* failure is not critical */
-                dbg_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_if(u_config_include(c, drv, subkey, overwrite, inc));
             else                            /* failure is critical */
-                dbg_err_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_err_if(u_config_include(c, drv, subkey, overwrite, inc));
         } 
 
         /* if the valus is empty an open bracket will follow, save the key */
@@ -1257,11 +1264,10 @@ err:
 }
 
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite)
+        u_config_t *inckey, int overwrite, const struct u_config_inc_s *up)
 {
-    u_config_t *subkey;
-    int i;
     const char *p, *path;
+    struct u_config_inc_s inc;
     void *arg = NULL;
     char uri[U_FILENAME_MAX + 1];
 
@@ -1270,12 +1276,6 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     path = u_config_get_value(inckey);
     dbg_err_if(path == NULL);
 
-    for(i = 0; u_config_get_subkey_nth(c, "include", i, &subkey) == 0; ++i)
-    {
-        if(subkey != inckey && !strcmp(path, u_config_get_value(subkey)))
-            crit_err("circular dependency error loading %s", path);
-    }
-
     /* find the end of the key string */
     for(p = path; *p && u_isblank(*p); ++p);
 
@@ -1294,10 +1294,17 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 
     p = uri;
 
+    /* a file can't include, not even indirectly, itself */
+    for(inc.up = up; up != NULL; up = up->up)
+        crit_err_ifm (!strcmp(p, up->uri), 
+            "circular dependency error loading %s", p);
+
+    inc.uri = uri;
+
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0, &inc));
 
     if(drv->close)
     {
-- 
2.43.0


From e82554bb2464457026325f1e217196870c61d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:00 +0000
Subject: [PATCH 098/102] fix: bound the nesting of configuration sections

A file with very deeply nested sections (or a key of very many parts)
overflowed the stack while being loaded, printed or freed.  Refuse to nest
deeper than U_CONFIG_MAX_DEPTH.
---
 include/toolbox/config.h |  7 +++++++
 srcs/toolbox/config.c    | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/toolbox/config.h b/include/toolbox/config.h
index a10d712..b4395f7 100644
--- a/include/toolbox/config.h
+++ b/include/toolbox/config.h
@@ -20,6 +20,13 @@ struct u_config_s;
  *  \{
  */
 
+/** \brief  Maximum depth of a configuration, i.e. number of nested sections 
+ *          (you can change it at compile time via 
+ *          \c -DU_CONFIG_MAX_DEPTH=nnn compiler flag) */
+#ifndef U_CONFIG_MAX_DEPTH
+  #define U_CONFIG_MAX_DEPTH    256
+#endif  /* !U_CONFIG_MAX_DEPTH */
+
 /** \brief  Configuration base type */
 typedef struct u_config_s u_config_t;
 
diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index e157068..203b6cf 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -311,7 +311,7 @@ void u_config_print(u_config_t *c, int lev)
  *          object
  *
  *  Create a child ::u_config_t object with key \p key, attached to the 
- *  supplied \p c.
+ *  supplied \p c.  Objects can't be nested deeper than U_CONFIG_MAX_DEPTH.
  *
  *  \param  c   the parent ::u_config_t object
  *  \param  key the key which will be assigned to the newly created child
@@ -322,7 +322,13 @@ void u_config_print(u_config_t *c, int lev)
  */
 int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 {
-    u_config_t *child = NULL;
+    u_config_t *p, *child = NULL;
+    int depth = 0;
+
+    /* Bound the nesting: loading, printing and disposing are recursive, and
+     * a file that includes itself from inside a section goes on forever. */
+    for (p = c; p != NULL; p = p->parent)
+        dbg_err_ifm (++depth > U_CONFIG_MAX_DEPTH, "too many nested sections");
 
     dbg_err_if(u_config_create(&child));
 
-- 
2.43.0


From ed94cf33d81113c8d3542f59427a25107bc53c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:51 +0000
Subject: [PATCH 099/102] fix: u_sleep must sleep when asked for more than
 INT_MAX seconds

The remaining time was kept in an int: from 2147483648 seconds on it was
negative and u_sleep() reported success without sleeping at all.
Failing history: u_sleep(2147483648u) returns 0 at once.
---
 srcs/toolbox/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 5153171..c6057a4 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -694,7 +694,7 @@ int u_sleep(unsigned int secs)
 #ifdef OS_WIN
     Sleep(secs * 1000);
 #else
-    int sleep_for, c;
+    unsigned int sleep_for, c;
 
     for (sleep_for = secs; sleep_for > 0; sleep_for = c)
     {
-- 
2.43.0


From 2e3138215a8fde84f47feb3a7ca6bb0d105774aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:51 +0000
Subject: [PATCH 100/102] fix: reserving SIZE_MAX bytes must fail and leave the
 buffer or string alone

size + 1 is 0 then: realloc(ptr, 0) releases the block the object goes on
using, and with no block yet the terminator is written one byte before the
one obtained.
Failing history: u_buf_reserve(b, SIZE_MAX), u_string_reserve(s, SIZE_MAX).
---
 srcs/toolbox/buf.c | 1 +
 srcs/toolbox/str.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index b0a3374..753a960 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -45,6 +45,7 @@ int u_buf_reserve (u_buf_t *ubuf, size_t size)
     dbg_err_if (ubuf == NULL);
 
     nop_return_if (size <= ubuf->size, 0);  /* nothing to do */
+    dbg_err_if (size + 1 == 0);             /* no room for the '\0' */
    
     /* size plus 1 char to store a '\0' */
     dbg_err_sif ((nbuf = u_realloc(ubuf->data, size + 1)) == NULL);
diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 5c0c308..ec85201 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -322,6 +322,7 @@ int u_string_reserve (u_string_t *s, size_t size)
 
     dbg_return_if (s == NULL, ~0);
     nop_return_if (size <= s->data_sz, 0);
+    dbg_err_if (size + 1 == 0);     /* no room for the '\0' */
    
     /* realloc requested size plus 1 char to store the terminating '\0' */
     nbuf = u_realloc(((s->data == null) ? NULL : s->data), size + 1);
-- 
2.43.0


From c7f1007001a7f6856cd64ed72b6c9b9b42d4e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:51 +0000
Subject: [PATCH 101/102] fix: a priority queue of SIZE_MAX elements can't be
 created

nitems + 1 is 0 then: the queue had no slot at all, and every push was
accepted and written past the end of the (empty) block.
Failing history: u_pq_create(SIZE_MAX, &pq), u_pq_push(pq, 1, NULL).
---
 srcs/toolbox/pqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/pqueue.c b/srcs/toolbox/pqueue.c
index 0c95546..4118e24 100644
--- a/srcs/toolbox/pqueue.c
+++ b/srcs/toolbox/pqueue.c
@@ -92,6 +92,7 @@ int u_pq_create (size_t nitems, u_pq_t **ppq)
 
     dbg_return_if (ppq == NULL, ~0);
     dbg_return_if (nitems < 2, ~0); /* Expect at least 2 elements. */
+    dbg_return_if (nitems + 1 == 0, ~0);    /* Slot 0 is there, but unused. */
 
     /* Make room for both the queue head and items' array. */
     dbg_err_sif ((pq = u_zalloc(sizeof *pq)) == NULL);
-- 
2.43.0


From 77673d173a2bb9d2137607ab88b1ec5de72354f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:56 +0000
Subject: [PATCH 102/102] fix: a map must not hash an unformatted number

When the result of a caller's hash function can't be turned into text,
u_hmap_put() and the lookups went on with an uninitialised buffer: the
entry ended up in a random bucket, where it could not be found again.
---
 srcs/toolbox/hmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index f73e413..6eddbd7 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -738,7 +738,7 @@ static int __put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
         enum { MAX_INT = 20 };
         char h[MAX_INT];
 
-        u_snprintf(h, MAX_INT, "%u", hash);
+        dbg_err_if (u_snprintf(h, MAX_INT, "%u", hash));
         hash = __f_hash(h, hmap->size);
     }
 
@@ -1665,7 +1665,7 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
         enum { MAX_INT = 20 };
         char h[MAX_INT];
 
-        u_snprintf(h, MAX_INT, "%u", hash);
+        dbg_err_if (u_snprintf(h, MAX_INT, "%u", hash));
         hash = __f_hash(h, hmap->size);
     }
 
-- 
2.43.0

