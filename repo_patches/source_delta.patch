From fa5cd51f30416ca84f06ee8ce4bd26b749804d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 01/89] fix: vfs: find a chunked .bupm when other names sort
 before it

A .bupm that was split is a tree, and so sorts as ".bupm/", i.e. after
entries like ".bupm.bup" or ".bupm-x".  Stop searching only after
".bupm/" so that those don't hide a directory's metadata.
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 170d914..eef08d8 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -467,7 +467,7 @@ def tree_data_and_bupm(repo, oid):
     for _, mangled_name, sub_oid in tree_entries(data):
         if mangled_name == b'.bupm':
             return data, sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # it's a tree when chunked
             break
     return data, None
 
@@ -752,7 +752,7 @@ def _find_bupm_oid(entries):
     for _, mangled_name, sub_oid in entries:
         if mangled_name == b'.bupm':
             return sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # it's a tree when chunked
             break
     return None
 
@@ -829,7 +829,7 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
                 break
         else:
             split_or_not_known = True
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # it's a tree when chunked
             break
 
     # When repairing, "." wouldn't be affected by the missing entries
-- 
2.43.0


From 1e554f12d64244d022b8b406a449b5f1ad6967a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 02/89] fix: index: store normalized metadata, as save does

Otherwise a special file saved via its index entry gets a different .bupm
record (size) than it had when it was first saved, and so an incremental
save of an unchanged directory can differ from a new save.
---
 lib/bup/cmd/index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index f9a3fea..09c7e57 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -127,7 +127,8 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                 need_repack = False
                 if(rig.cur.stale(pst, check_device=check_device)):
                     try:
-                        meta = metadata.from_path(path, statinfo=pst)
+                        meta = metadata.from_path(path, statinfo=pst,
+                                                  normalized=True)
                     except (OSError, IOError) as e:
                         add_error(e)
                         rig.next()
@@ -169,7 +170,8 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                 rig.next()
             else:  # new paths
                 try:
-                    meta = metadata.from_path(path, statinfo=pst)
+                    meta = metadata.from_path(path, statinfo=pst,
+                                              normalized=True)
                 except (OSError, IOError) as e:
                     add_error(e)
                     continue
-- 
2.43.0


From 901dd37e2ef9c58fed07e2f9b3d90a31e196cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 03/89] fix: save --smaller: don't drop directories or validate
 incomplete ones

Apply the limit to files only; directories larger than the limit were
skipped, losing empty ones, and a save where everything was skipped
crashed.  Don't record a directory as saved when a large file in it was
skipped because it had been saved before; later saves of the unchanged
directory omitted the file.
---
 lib/bup/cmd/save.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6cecdbd..b8bc5e1 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -276,11 +276,11 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
 
         if not exists:
             continue
-        if opt.smaller and ent.size >= opt.smaller:
-            if exists and not already_saved_oid:
-                if opt.verbose:
-                    log('skipping large file "%s"\n' % path_msg(ent.name))
-                lastskip_name = ent.name
+        if opt.smaller and ent.size >= opt.smaller and not stat.S_ISDIR(ent.mode):
+            if opt.verbose and not already_saved_oid:
+                log('skipping large file "%s"\n' % path_msg(ent.name))
+            # Even when already saved, it won't be in the parent's tree.
+            lastskip_name = ent.name
             continue
 
         assert(dir.startswith(b'/'))
-- 
2.43.0


From fbe9d38af18d99d8e9cf4618ef5b54d740535d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 04/89] fix: strip/graft: only match whole path components

"--strip-path /foo" and "--graft /foo=/x" also affected /foobar.  Also
don't treat the graft destination as a regular expression template.
---
 lib/bup/helpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b3eb852..e28d7d3 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -1067,7 +1067,7 @@ def stripped_path_components(path, strip_prefixes):
         normalized_bp = os.path.abspath(bp)
         if normalized_bp == b'/':
             continue
-        if normalized_path.startswith(normalized_bp):
+        if (normalized_path + b'/').startswith(normalized_bp + b'/'):
             prefix = normalized_path[:len(normalized_bp)]
             result = []
             for p in normalized_path[len(normalized_bp):].split(b'/'):
@@ -1101,9 +1101,8 @@ def grafted_path_components(graft_points, path):
         # Expand prefixes iff not absolute paths.
         old_prefix = os.path.normpath(old_prefix)
         new_prefix = os.path.normpath(new_prefix)
-        if clean_path.startswith(old_prefix):
-            escaped_prefix = re.escape(old_prefix)
-            grafted_path = re.sub(br'^' + escaped_prefix, new_prefix, clean_path)
+        if (clean_path + b'/').startswith(slashappend(old_prefix)):
+            grafted_path = new_prefix + clean_path[len(old_prefix):]
             # Handle /foo=/ (at least) -- which produces //whatever.
             grafted_path = b'/' + grafted_path.lstrip(b'/')
             clean_path_components = path_components(clean_path)
-- 
2.43.0


From ba969d6c4882ada44f453b09f865ef8d172a1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 05/89] fix: save: never add a path to the wrong directory

Finish the current directory whenever the next path isn't inside it,
rather than only when the next path sorts before it.  Otherwise
"save a/x a.b/y" stored a.b/y as a/y, since the directory entries
themselves, which would have finished a, aren't part of the save.
---
 lib/bup/cmd/save.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index b8bc5e1..af1da8b 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -313,7 +313,11 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             root_collision = True
 
         # If switching to a new sub-tree, finish the current sub-tree.
-        while stack.path() > [x[0] for x in dirp]:
+        # Don't rely on the order of the paths: it's not the index order
+        # after a graft, and the directories themselves may not be included
+        # (e.g. after "save a/x a.b/y", a must not be used for a.b).
+        dir_names = [x[0] for x in dirp]
+        while len(stack) > 1 and stack.path() != dir_names[:len(stack)]:
             _ = stack.pop()
 
         # If switching to a new sub-tree, start a new sub-tree.
-- 
2.43.0


From b13ef95314484ed800f00482c719aea352dbfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 06/89] fix: save: don't use or record trees that strip or
 graft rearrange

When everything was up to date, "save --strip DIR" produced an empty save
because DIR itself was skipped as already saved.  Similarly, a directory
containing a graft point was stored ungrafted if it had been saved before,
and was recorded as saved without the grafted content, so that later saves
omitted that.
---
 lib/bup/cmd/save.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index af1da8b..ef4b005 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -28,6 +28,7 @@ from bup.helpers import \
      progress,
      qprogress,
      resolve_parent,
+     slashappend,
      stripped_path_components,
      valid_save_name)
 from bup.io import byte_stream, path_msg
@@ -195,8 +196,20 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                   % (pct, cc/1024, total/1024, fcount, ftotal,
                      remainstr, kpsstr))
 
+    # Directories containing (or at) any of these paths can't be handled
+    # as a unit because strip or graft may rearrange their content.
+    moved_paths = [slashappend(os.path.abspath(x))
+                   for x in ((opt.strip and opt.sources)
+                             or (opt.strip_path and [opt.strip_path])
+                             or [old for old, new_ in opt.grafts])]
+
+    def rearranged(ent):
+        return ent.name.endswith(b'/') \
+            and any(x.startswith(ent.name) for x in moved_paths)
+
     def already_saved(ent):
-        return ent.is_valid() and repo.exists(ent.sha) and ent.sha
+        return ent.is_valid() and not rearranged(ent) \
+            and repo.exists(ent.sha) and ent.sha
 
     def wantrecurse_pre(ent):
         return not already_saved(ent)
@@ -340,7 +353,8 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             oldtree = already_saved_oid # may be False
             newtree = stack.pop(override_tree=oldtree)
             if not oldtree:
-                if lastskip_name and lastskip_name.startswith(ent.name):
+                if (lastskip_name and lastskip_name.startswith(ent.name)) \
+                   or rearranged(ent):
                     ent.invalidate()
                 else:
                     ent.validate(GIT_MODE_TREE, newtree)
-- 
2.43.0


From 26e6fa6d206b2ab1e11a30675ea5c66742517b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 07/89] fix: hashsplit: don't crash when next() is called after
 exhaustion

The buffer was released (and nulled) the first time, and then
decremented again as NULL by the next call.
---
 lib/bup/_hashsplit.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/bup/_hashsplit.c b/lib/bup/_hashsplit.c
index 237f64e..44a95de 100644
--- a/lib/bup/_hashsplit.c
+++ b/lib/bup/_hashsplit.c
@@ -627,8 +627,7 @@ static PyObject *HashSplitter_iternext(HashSplitter *self)
         /* check first if we've completed */
         if (self->start == self->end && !self->fobj) {
             /* quick free - not really required */
-            Py_DECREF(self->buf);
-            self->buf = NULL;
+            Py_CLEAR(self->buf);
             return NULL;
         }
 
-- 
2.43.0


From a0ff3d1563ea43de9f23ff834ea6773468bfd868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 08/89] fix: hashsplit: don't release a progress callback we
 don't own

When the files argument isn't iterable, the error path dropped a
reference to the (still borrowed) progress callback.
---
 lib/bup/_hashsplit.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/bup/_hashsplit.c b/lib/bup/_hashsplit.c
index 44a95de..808075d 100644
--- a/lib/bup/_hashsplit.c
+++ b/lib/bup/_hashsplit.c
@@ -317,22 +317,23 @@ static int HashSplitter_init(HashSplitter *self, PyObject *args, PyObject *kwds)
         NULL
      };
     PyObject *files = NULL, *py_bits = NULL, *py_fanbits = NULL;
+    PyObject *progress = NULL;
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "OO|OpO", argnames,
                                      &files, &py_bits,
-                                     &self->progress, &self->boundaries,
+                                     &progress, &self->boundaries,
                                      &py_fanbits))
         goto error;
 
+    /* simplify later checks */
+    if (progress && progress != Py_None) {
+        Py_INCREF(progress);
+        self->progress = progress;
+    }
+
     self->files = PyObject_GetIter(files);
     if (!self->files)
         goto error;
 
-    /* simplify later checks */
-    if (!self->progress || self->progress == Py_None)
-        self->progress = NULL;
-    else
-        Py_INCREF(self->progress);
-
     if (!bits_from_py_kw(&self->bits, py_bits, "HashSplitter(bits)"))
         goto error;
 
-- 
2.43.0


From f92a56ea8f69da33272bb77e5842888257456011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 09/89] fix: hashsplit: check for errors when moving to the
 next file

Iteration continued with the exception (from the files iterator, the
progress callback, or fstat, etc.) still pending.
---
 lib/bup/_hashsplit.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/bup/_hashsplit.c b/lib/bup/_hashsplit.c
index 808075d..6b55221 100644
--- a/lib/bup/_hashsplit.c
+++ b/lib/bup/_hashsplit.c
@@ -138,7 +138,7 @@ static int HashSplitter_nextfile(HashSplitter *self)
     self->mincore = NULL;
 #endif
 
-    Py_XDECREF(self->fobj);
+    Py_CLEAR(self->fobj);
 
     /* grab the next file */
     if (!INT_ADD_OK(self->filenum, 1, &self->filenum)) {
@@ -153,9 +153,10 @@ static int HashSplitter_nextfile(HashSplitter *self)
     }
 
     if (self->progress) {
-        // CAUTION: Py_XDECREF evaluates its argument twice!
         PyObject *o = PyObject_CallFunction(self->progress, "li", self->filenum, 0);
-        Py_XDECREF(o);
+        if (!o)
+            return -1;
+        Py_DECREF(o);
     }
 
     self->eof = 0;
@@ -615,8 +616,10 @@ static PyObject *HashSplitter_iternext(HashSplitter *self)
 
         /* read some data if possible/needed */
         if (self->end < self->bufsz && self->fobj) {
-            if (self->eof && (!self->boundaries || self->start == self->end))
-                HashSplitter_nextfile(self);
+            if (self->eof && (!self->boundaries || self->start == self->end)) {
+                if (HashSplitter_nextfile(self))
+                    return NULL;
+            }
 
             int rc = HashSplitter_read(self);
             if (rc < 0)
-- 
2.43.0


From 49dece6df1bd14139191db80168649d1f9e07b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 10/89] fix: hashsplit: don't read past the end of the mincore
 buffer

The buffer only covers st_size at open, i.e. nothing at all for a pipe
(as in "... | bup split ..."), and less than is read from a file that's
growing.  Treat anything beyond it as not having been in the cache.
---
 lib/bup/_hashsplit.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/bup/_hashsplit.c b/lib/bup/_hashsplit.c
index 6b55221..4ad5ea0 100644
--- a/lib/bup/_hashsplit.c
+++ b/lib/bup/_hashsplit.c
@@ -77,6 +77,7 @@ typedef struct {
     unsigned int fanbits;
 #ifdef HASHSPLITTER_ADVISE
     BUP_MINCORE_BUF_TYPE *mincore;
+    size_t mincore_pages; // number of pages described by mincore
     size_t uncached, read;
 #endif
 } HashSplitter;
@@ -267,6 +268,7 @@ static int HashSplitter_nextfile(HashSplitter *self)
     }
     PyEval_RestoreThread(thread_state);
     self->mincore = mcore;
+    self->mincore_pages = pages;
 #endif
     return 0;
 }
@@ -305,6 +307,7 @@ static int HashSplitter_init(HashSplitter *self, PyObject *args, PyObject *kwds)
     self->fanbits = 4;
 #ifdef HASHSPLITTER_ADVISE
     self->mincore = NULL;
+    self->mincore_pages = 0;
     self->uncached = 0;
     self->read = 0;
 #endif
@@ -434,7 +437,8 @@ static int HashSplitter_uncache(HashSplitter *self, int last)
     size_t i;
     for (i = 0, len = 0; i < pages; i++) {
         // We check that page_size fits in an off_t elsewhere, at startup
-        if (self->mincore[pgstart + i] & HASHSPLITTER_MINCORE_INCORE) {
+        if (pgstart + i < self->mincore_pages
+            && self->mincore[pgstart + i] & HASHSPLITTER_MINCORE_INCORE) {
             if (len) {
                 if(!bup_py_fadvise(self->fd, start, len, POSIX_FADV_DONTNEED))
                     return -1;
-- 
2.43.0


From c2e1dd086d568cb1f3d30cb0dc883f5996bef955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 11/89] fix: vint: size the C encoding buffers for the largest
 values

A 64-bit value needs up to 10 bytes, but the stack buffers only had
room for 8, so values of 2^56 (2^55 for vint) and above overflowed
them.  Also avoid negating LLONG_MIN, and don't return a result from
limited_vint_pack() with an exception pending (or leak its buffer)
when a value is invalid.
---
 lib/bup/_helpers.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 0d81033..272ed64 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -1346,12 +1346,13 @@ static unsigned int vuint_encode(long long val, char *buf)
     return len;
 }
 
-static unsigned int vint_encode(long long val, char *buf)
+static unsigned int vint_encode(long long signed_val, char *buf)
 {
     unsigned int len = 1;
     char sign = 0;
+    unsigned long long val = signed_val;
 
-    if (val < 0) {
+    if (signed_val < 0) {
         sign = 0x40;
         val = -val;
     }
@@ -1375,8 +1376,8 @@ static unsigned int vint_encode(long long val, char *buf)
 static PyObject *bup_vuint_encode(PyObject *self, PyObject *args)
 {
     long long val;
-    // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    // need 8 bits to encode each 7 (rounded up)
+    char buf[(sizeof(val) * 8 + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
@@ -1391,8 +1392,8 @@ static PyObject *bup_vuint_encode(PyObject *self, PyObject *args)
 static PyObject *bup_vint_encode(PyObject *self, PyObject *args)
 {
     long long val;
-    // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    // need 8 bits to encode each 7 (rounded up), including the sign
+    char buf[(sizeof(val) * 8 + 1 + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
@@ -1941,18 +1942,19 @@ static PyObject *bup_limited_vint_pack(PyObject *self, PyObject *args)
         case 'V': {
             long long val = PyLong_AsLongLong(item);
             if (val == -1 && PyErr_Occurred())
-                return PyErr_Format(PyExc_OverflowError, "pack arg %zd invalid",
-                                    i);
+                goto invalid;
             if (end - pos < 10)
                 goto overflow;
-	    pos += vuint_encode(val, pos);
+            const unsigned int len = vuint_encode(val, pos);
+            if (!len)
+                goto error;
+            pos += len;
             break;
         }
         case 'v': {
             long long val = PyLong_AsLongLong(item);
             if (val == -1 && PyErr_Occurred())
-                return PyErr_Format(PyExc_OverflowError, "pack arg %zd invalid",
-                                    i);
+                goto invalid;
             if (end - pos < 10)
                 goto overflow;
             pos += vint_encode(val, pos);
@@ -1983,6 +1985,9 @@ static PyObject *bup_limited_vint_pack(PyObject *self, PyObject *args)
     free(buf);
     return result;
 
+ invalid:
+    PyErr_Format(PyExc_OverflowError, "pack arg %zd invalid", i);
+    goto error;
  overflow:
     PyErr_SetString(PyExc_OverflowError, "buffer (potentially) overflowed");
  error:
-- 
2.43.0


From 3125cda65351af68efe24e9e9c0c0739d57485c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 12/89] fix: bloom: check the filter's size in bloom_contains

A damaged (e.g. truncated) filter caused reads beyond the end of the
map.  Also handle filters of 2^31 bytes and above without undefined
shifts, reject negative sizes, and set an exception when rejecting the
arguments.
---
 lib/bup/_helpers.c | 55 +++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 272ed64..dda687f 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -442,7 +442,7 @@ static void to_bloom_address_bitmask4(const unsigned char *buf,
     uint64_t raw, mask;
 
     memcpy(&high, buf, 4);
-    mask = (1<<nbits) - 1;
+    mask = ((uint64_t) 1 << nbits) - 1;
     raw = (((uint64_t)ntohl(high) << 8) | buf[4]);
     bit = (raw >> (37-nbits)) & 0x7;
     *v = (raw >> (40-nbits)) & mask;
@@ -457,7 +457,7 @@ static void to_bloom_address_bitmask5(const unsigned char *buf,
     uint32_t raw, mask;
 
     memcpy(&high, buf, 4);
-    mask = (1<<nbits) - 1;
+    mask = ((uint32_t) 1 << nbits) - 1;
     raw = ntohl(high);
     bit = (raw >> (29-nbits)) & 0x7;
     *v = (raw >> (32-nbits)) & mask;
@@ -488,6 +488,28 @@ BLOOM_GET_BIT(bloom_get_bit4, to_bloom_address_bitmask4, uint64_t)
 BLOOM_GET_BIT(bloom_get_bit5, to_bloom_address_bitmask5, uint32_t)
 
 
+static int check_bloom(const Py_buffer *bloom, const int nbits, const int k)
+{
+    // Return true if the filter is large enough for nbits, and nbits
+    // and k are valid, otherwise set an exception and return false.
+    if (k != 4 && k != 5) {
+        PyErr_Format(PyExc_ValueError, "invalid bloom k value %d", k);
+        return 0;
+    }
+    if (nbits < 1 || nbits > (k == 5 ? 29 : 37)) {
+        PyErr_Format(PyExc_ValueError, "invalid bloom size 2^%d (k=%d)",
+                     nbits, k);
+        return 0;
+    }
+    if (bloom->len < BLOOM2_HEADERLEN
+        || (uint64_t) bloom->len - BLOOM2_HEADERLEN < (uint64_t) 1 << nbits) {
+        PyErr_Format(PyExc_ValueError, "bloom is too small for 2^%d bytes",
+                     nbits);
+        return 0;
+    }
+    return 1;
+}
+
 static PyObject *bloom_add(PyObject *self, PyObject *args)
 {
     Py_buffer bloom, sha;
@@ -498,29 +520,27 @@ static PyObject *bloom_add(PyObject *self, PyObject *args)
 
     PyObject *result = NULL;
 
-    if (bloom.len < 16+(1<<nbits) || sha.len % 20 != 0)
+    if (!check_bloom(&bloom, nbits, k))
+        goto clean_and_return;
+    if (sha.len % 20 != 0) {
+        PyErr_SetString(PyExc_ValueError, "bloom_add() expects 20-byte ids");
         goto clean_and_return;
+    }
 
     if (k == 5)
     {
-        if (nbits > 29)
-            goto clean_and_return;
         unsigned char *cur = sha.buf;
         unsigned char *end;
         for (end = cur + sha.len; cur < end; cur += 20/k)
             bloom_set_bit5(bloom.buf, cur, nbits);
     }
-    else if (k == 4)
+    else
     {
-        if (nbits > 37)
-            goto clean_and_return;
         unsigned char *cur = sha.buf;
         unsigned char *end = cur + sha.len;
         for (; cur < end; cur += 20/k)
             bloom_set_bit4(bloom.buf, cur, nbits);
     }
-    else
-        goto clean_and_return;
 
     result = Py_BuildValue("n", sha.len / 20);
 
@@ -542,13 +562,16 @@ static PyObject *bloom_contains(PyObject *self, PyObject *args)
 
     PyObject *result = NULL;
 
-    if (len != 20)
+    if (!check_bloom(&bloom, nbits, k))
+        goto clean_and_return;
+    if (len != 20) {
+        PyErr_SetString(PyExc_ValueError,
+                        "bloom_contains() expects a 20-byte id");
         goto clean_and_return;
+    }
 
     if (k == 5)
     {
-        if (nbits > 29)
-            goto clean_and_return;
         int steps;
         unsigned char *end;
         for (steps = 1, end = sha + 20; sha < end; sha += 20/k, steps++)
@@ -558,10 +581,8 @@ static PyObject *bloom_contains(PyObject *self, PyObject *args)
                 goto clean_and_return;
             }
     }
-    else if (k == 4)
+    else
     {
-        if (nbits > 37)
-            goto clean_and_return;
         int steps;
         unsigned char *end;
         for (steps = 1, end = sha + 20; sha < end; sha += 20/k, steps++)
@@ -571,8 +592,6 @@ static PyObject *bloom_contains(PyObject *self, PyObject *args)
                 goto clean_and_return;
             }
     }
-    else
-        goto clean_and_return;
 
     result = Py_BuildValue("ii", 1, k);
 
-- 
2.43.0


From 197fdf62fa34e56c52cabbd4c2a557a501bd2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 13/89] fix: firstword/extract_bits: report invalid arguments

Set an exception when the buffer is too short (e.g. a truncated midx)
rather than provoking a SystemError, and don't shift by 32 when asked
for no bits (as for a small midx).
---
 lib/bup/_helpers.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index dda687f..a78fbe3 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -425,10 +425,10 @@ static PyObject *firstword(PyObject *self, PyObject *args)
 	return NULL;
     
     if (len < 4)
-	return NULL;
-    
-    v = ntohl(*(uint32_t *)buf);
-    return PyLong_FromUnsignedLong(v);
+        return PyErr_Format(PyExc_ValueError, "firstword() needs 4 bytes");
+
+    memcpy(&v, buf, 4);
+    return PyLong_FromUnsignedLong(ntohl(v));
 }
 
 
@@ -601,14 +601,15 @@ static PyObject *bloom_contains(PyObject *self, PyObject *args)
 }
 
 
-static uint32_t _extract_bits(unsigned char *buf, int nbits)
+static uint32_t _extract_bits(const unsigned char *buf, int nbits)
 {
-    uint32_t v, mask;
+    // Requires 0 <= nbits <= 32
+    uint32_t v;
 
-    mask = (1<<nbits) - 1;
-    v = ntohl(*(uint32_t *)buf);
-    v = (v >> (32-nbits)) & mask;
-    return v;
+    if (nbits == 0)
+        return 0;
+    memcpy(&v, buf, 4);
+    return ntohl(v) >> (32 - nbits);
 }
 
 
@@ -622,8 +623,10 @@ static PyObject *extract_bits(PyObject *self, PyObject *args)
 	return NULL;
     
     if (len < 4)
-	return NULL;
-    
+        return PyErr_Format(PyExc_ValueError, "extract_bits() needs 4 bytes");
+    if (nbits < 0 || nbits > 32)
+        return PyErr_Format(PyExc_ValueError, "invalid bit count %d", nbits);
+
     return PyLong_FromUnsignedLong(_extract_bits(buf, nbits));
 }
 
-- 
2.43.0


From b3074107a8c3491665a84be115fe87f3e51155b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 14/89] fix: merge_into: validate the index information

A damaged index (say a fanout table claiming more objects than the
file holds) caused accesses beyond the end of the maps.  Also release
everything when an argument can't be parsed, and allocate and free the
idx structs with the same allocator.
---
 lib/bup/_helpers.c | 70 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index a78fbe3..745b231 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -660,7 +660,7 @@ static void _fix_idx_order(struct idx **idxs, Py_ssize_t *last_i)
     if (idxs[*last_i]->cur >= idxs[*last_i]->end)
     {
 	idxs[*last_i] = NULL;
-	PyMem_Free(idx);
+	free(idx);
 	--*last_i;
 	return;
     }
@@ -709,7 +709,7 @@ static PyObject *merge_into(PyObject *self, PyObject *args)
 
 
     Py_buffer fmap;
-    int bits;;
+    int bits;
     PyObject *py_total, *ilist = NULL;
     if (!PyArg_ParseTuple(args, wbuf_argf "iOO",
                           &fmap, &bits, &py_total, &ilist))
@@ -724,40 +724,78 @@ static PyObject *merge_into(PyObject *self, PyObject *args)
     if (!bup_uint_from_py(&total, py_total, "total"))
         goto clean_and_return;
 
+    if (!PyList_Check(ilist)) {
+        PyErr_SetString(PyExc_TypeError, "merge_into() expects an index list");
+        goto clean_and_return;
+    }
     num_i = PyList_Size(ilist);
 
-    if (!(idxs = checked_malloc(num_i, sizeof(struct idx *))))
+    if (bits < 0 || bits > 31
+        || fmap.len < MIDX4_HEADERLEN
+        || ((uint64_t) fmap.len - MIDX4_HEADERLEN
+            < ((uint64_t) 4 << bits) + (uint64_t) 24 * total)) {
+        PyErr_SetString(PyExc_ValueError, "midx map is too small");
+        goto clean_and_return;
+    }
+
+    // Always non-empty to avoid malloc(0)
+    if (!(idxs = checked_calloc(num_i + 1, sizeof(struct idx *))))
         goto clean_and_return;
-    if (!(idx_buf_init = checked_calloc(num_i, sizeof(int))))
+    if (!(idx_buf_init = checked_calloc(num_i + 1, sizeof(int))))
         goto clean_and_return;
-    if (!(idx_buf = checked_malloc(num_i, sizeof(Py_buffer))))
+    if (!(idx_buf = checked_malloc(num_i + 1, sizeof(Py_buffer))))
         goto clean_and_return;
 
+    uint64_t expected = 0;
+    Py_ssize_t used_i = 0; // non-empty idxs
+
     for (i = 0; i < num_i; i++)
     {
 	long len, sha_ofs, name_map_ofs;
-	if (!(idxs[i] = checked_malloc(1, sizeof(struct idx))))
+	struct idx * const idx = checked_malloc(1, sizeof(struct idx));
+	if (!idx)
             goto clean_and_return;
+	idxs[used_i] = idx;
 	PyObject *itup = PyList_GetItem(ilist, i);
 	if (!PyArg_ParseTuple(itup, wbuf_argf "llli",
                               &(idx_buf[i]), &len, &sha_ofs, &name_map_ofs,
-                              &idxs[i]->name_base))
-	    return NULL;
+                              &idx->name_base))
+            goto clean_and_return;
         idx_buf_init[i] = 1;
-        idxs[i]->map = idx_buf[i].buf;
-        idxs[i]->bytes = idx_buf[i].len;
-	idxs[i]->cur = (struct sha *)&idxs[i]->map[sha_ofs];
-	idxs[i]->end = &idxs[i]->cur[len];
+        const Py_ssize_t map_len = idx_buf[i].len;
+        if (len < 0 || sha_ofs < 0 || name_map_ofs < 0
+            || sha_ofs > map_len || (map_len - sha_ofs) / 20 < len
+            || name_map_ofs > map_len
+            || (name_map_ofs && (map_len - name_map_ofs) / 4 < len)) {
+            PyErr_Format(PyExc_ValueError,
+                         "index %d is too small for its contents", i);
+            goto clean_and_return;
+        }
+        expected += len;
+        if (len == 0) { // nothing to merge
+            free(idx);
+            idxs[used_i] = NULL;
+            continue;
+        }
+        used_i++;
+        idx->map = idx_buf[i].buf;
+        idx->bytes = map_len;
+	idx->cur = (struct sha *)&idx->map[sha_ofs];
+	idx->end = &idx->cur[len];
 	if (name_map_ofs)
-	    idxs[i]->cur_name = (uint32_t *)&idxs[i]->map[name_map_ofs];
+	    idx->cur_name = (uint32_t *)&idx->map[name_map_ofs];
 	else
-	    idxs[i]->cur_name = NULL;
+	    idx->cur_name = NULL;
+    }
+    if (expected != total) {
+        PyErr_SetString(PyExc_ValueError, "midx total doesn't match indexes");
+        goto clean_and_return;
     }
     table_ptr = (uint32_t *) &((unsigned char *) fmap.buf)[MIDX4_HEADERLEN];
-    sha_start = sha_ptr = (struct sha *)&table_ptr[1<<bits];
+    sha_start = sha_ptr = (struct sha *)&table_ptr[(size_t) 1 << bits];
     name_start = name_ptr = (uint32_t *)&sha_ptr[total];
 
-    Py_ssize_t last_i = num_i - 1;
+    Py_ssize_t last_i = used_i - 1;
     count = 0;
     prefix = 0;
     while (last_i >= 0)
-- 
2.43.0


From 01b9fdaac5d0f00965f45bb58bef9636b7b9ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 15/89] fix: write_idx: validate the entries

Check that the map is large enough for what's written to it, and set
an exception when an id has the wrong size.
---
 lib/bup/_helpers.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 745b231..1c792b7 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -869,7 +869,8 @@ static PyObject *write_idx(PyObject *self, PyObject *args)
     if (!bup_uint_from_py(&total, py_total, "total"))
         goto clean_and_return;
 
-    if (PyList_Size (idx) != FAN_ENTRIES) // Check for list of the right length.
+    // Check for list of the right length.
+    if (!PyList_Check(idx) || PyList_Size (idx) != FAN_ENTRIES)
     {
         result = PyErr_Format (PyExc_TypeError, "idx must contain %d entries",
                                FAN_ENTRIES);
@@ -877,6 +878,14 @@ static PyObject *write_idx(PyObject *self, PyObject *args)
     }
 
     const char idx_header[] = "\377tOc\0\0\0\002";
+    const uint64_t fixed_len =
+        (sizeof(idx_header) - 1) + 4 * FAN_ENTRIES + (uint64_t) 28 * total;
+    if (fmap.len < 0 || (uint64_t) fmap.len < fixed_len) {
+        PyErr_SetString(PyExc_ValueError, "idx map is too small");
+        goto clean_and_return;
+    }
+    const uint64_t max_ofs64 = (fmap.len - fixed_len) / 8;
+
     memcpy (fmap.buf, idx_header, sizeof(idx_header) - 1);
 
     fan_ptr = (uint32_t *)&((unsigned char *)fmap.buf)[sizeof(idx_header) - 1];
@@ -890,7 +899,12 @@ static PyObject *write_idx(PyObject *self, PyObject *args)
     for (i = 0; i < FAN_ENTRIES; ++i)
     {
 	part = PyList_GET_ITEM(idx, i);
-	PyList_Sort(part);
+        if (!PyList_Check(part)) {
+            PyErr_SetString(PyExc_TypeError, "idx parts must be lists");
+            goto clean_and_return;
+        }
+	if (PyList_Sort(part))
+            goto clean_and_return;
         uint32_t plen;
         if (!INTEGRAL_ASSIGNMENT_FITS(&plen, PyList_GET_SIZE(part))
             || UINT32_MAX - count < plen) {
@@ -898,6 +912,10 @@ static PyObject *write_idx(PyObject *self, PyObject *args)
             goto clean_and_return;
         }
         count += plen;
+        if (count > total) {
+            PyErr_SetString(PyExc_ValueError, "idx has more than total items");
+            goto clean_and_return;
+        }
 	*fan_ptr++ = htonl(count);
         uint32_t j;
         for (j = 0; j < plen; ++j)
@@ -918,13 +936,20 @@ static PyObject *write_idx(PyObject *self, PyObject *args)
             assert(crc <= UINT32_MAX);
             assert(ofs_ull <= UINT64_MAX);
 	    ofs = ofs_ull;
-	    if (sha_len != sizeof(struct sha))
+            if (sha_len != sizeof(struct sha)) {
+                PyErr_SetString(PyExc_ValueError, "idx item id isn't 20 bytes");
                 goto clean_and_return;
+            }
 	    memcpy(sha_ptr++, sha, sizeof(struct sha));
 	    *crc_ptr++ = htonl(crc);
 	    if (ofs > 0x7fffffff)
 	    {
-                *ofs64_ptr++ = htonll(ofs);
+                if (ofs64_count >= max_ofs64) {
+                    PyErr_SetString(PyExc_ValueError, "idx map is too small");
+                    goto clean_and_return;
+                }
+                const uint64_t net_ofs = htonll(ofs);
+                memcpy(ofs64_ptr++, &net_ofs, sizeof(net_ofs));
 		ofs = 0x80000000 | ofs64_count++;
 	    }
 	    *ofs_ptr++ = htonl((uint32_t)ofs);
-- 
2.43.0


From 5ffbb0f48343f3ce721cfbcc07ad071e1f7ef5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 16/89] fix: xstat: support file descriptors, as intended

fstat (i.e. _helpers.stat) ignored a descriptor argument and passed a
NULL path to fstatat, and follow_symlinks was uninitialized unless it
was specified, so stat() might not follow symlinks.
---
 lib/bup/_helpers.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 1c792b7..4fd80a9 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -1351,7 +1351,7 @@ static PyObject
     PyBytesObject *path_bytes = NULL; // if set, must eventually be unrefed
     const char *path = NULL;
     if (PyLong_Check(py_path)) {
-        if (dir_fd != Py_None)
+        if (dir_fd && dir_fd != Py_None)
             return PyErr_Format(PyExc_ValueError, "fd disallows dir_fd");
         if (!bup_int_from_py (&path_fd, py_path, "path"))
             return NULL;
@@ -1370,7 +1370,10 @@ static PyObject
     if (dir_fd && dir_fd != Py_None &&
         !bup_int_from_py (&dfd, dir_fd, "dir_fd"))
         goto failed;
-    rc = fstatat(dfd, path, &st, follow_symlinks ? 0 : AT_SYMLINK_NOFOLLOW);
+    if (path)
+        rc = fstatat(dfd, path, &st, follow_symlinks ? 0 : AT_SYMLINK_NOFOLLOW);
+    else
+        rc = fstat(path_fd, &st);
     if (rc != 0) {
         PyErr_SetFromErrnoWithFilename(PyExc_OSError, path);
         goto failed;
@@ -1385,7 +1388,7 @@ static PyObject
 // Handle stat(path_or_fd, *, dir_fd=None) or equivalent lstat.
 static PyObject *bup_stat(PyObject *self, PyObject *args, PyObject *kwds)
 {
-    int follow_symlinks;
+    int follow_symlinks = 1;
     PyObject *py_path, *dir_fd = NULL;
     static char *keys[] = {"path", "dir_fd", "follow_symlinks", NULL };
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|$Op", keys,
-- 
2.43.0


From e73095727aea6de393627a6067adad5c88229692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 17/89] fix: write_sparsely: notice lseek failures

The error indication was always NULL, i.e. the same as success.
---
 lib/bup/_helpers.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 4fd80a9..f146ba3 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -156,39 +156,42 @@ static inline int uadd(unsigned long long *dest,
 }
 
 
-static PyObject *append_sparse_region(const int fd, unsigned long long n)
+static int append_sparse_region(const int fd, unsigned long long n)
 {
+    // Return 0, or -1 with an exception set.
     while (n)
     {
         off_t new_off;
         if (!INTEGRAL_ASSIGNMENT_FITS(&new_off, n))
             new_off = INT_MAX;
         const off_t off = lseek(fd, new_off, SEEK_CUR);
-        if (off == (off_t) -1)
-            return PyErr_SetFromErrno(PyExc_IOError);
+        if (off == (off_t) -1) {
+            PyErr_SetFromErrno(PyExc_IOError);
+            return -1;
+        }
         n -= new_off;
     }
-    return NULL;
+    return 0;
 }
 
 
-static PyObject *record_sparse_zeros(unsigned long long *new_pending,
-                                     const int fd,
-                                     unsigned long long prev_pending,
-                                     const unsigned long long count)
+static int record_sparse_zeros(unsigned long long *new_pending,
+                               const int fd,
+                               unsigned long long prev_pending,
+                               const unsigned long long count)
 {
     // Add count additional sparse zeros to prev_pending and store the
     // result in new_pending, or if the total won't fit in
     // new_pending, write some of the zeros to fd sparsely, and store
-    // the remaining sum in new_pending.
+    // the remaining sum in new_pending.  Return 0, or -1 with an
+    // exception set.
     if (!uadd(new_pending, prev_pending, count))
     {
-        PyObject *err = append_sparse_region(fd, prev_pending);
-        if (err != NULL)
-            return err;
+        if (append_sparse_region(fd, prev_pending))
+            return -1;
         *new_pending = count;
     }
-    return NULL;
+    return 0;
 }
 
 
@@ -330,9 +333,8 @@ static PyObject *bup_write_sparsely(PyObject *self, PyObject *args)
             const byte * const probe = find_non_sparse_end(block + 1, end,
                                                            min_sparse_len);
             // Either at end of block, or end of non-sparse; write pending data
-            PyObject *err = append_sparse_region(fd, zeros);
-            if (err != NULL)
-                return err;
+            if (append_sparse_region(fd, zeros))
+                return NULL;
             int rc = write_all(fd, block, probe - block);
             if (rc)
                 return PyErr_SetFromErrno(PyExc_IOError);
@@ -349,10 +351,8 @@ static PyObject *bup_write_sparsely(PyObject *self, PyObject *args)
             // zeros, or nearly at the end of the block (within
             // min_sparse_len).
             const byte * const zeros_end = find_not_zero(block, end);
-            PyObject *err = record_sparse_zeros(&zeros, fd,
-                                                zeros, zeros_end - block);
-            if (err != NULL)
-                return err;
+            if (record_sparse_zeros(&zeros, fd, zeros, zeros_end - block))
+                return NULL;
             assert(block <= zeros_end);
             block = zeros_end;
         }
-- 
2.43.0


From 97ba6f84553c36635c387e0cead8bbf21ac0a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 18/89] fix: vfs: keep the rest of the path after an absolute
 symlink

Resolving a path through a symlink with an absolute target dropped all
of the segments following the link, so /branch/latest/link/x denoted
whatever link did.
---
 lib/bup/vfs.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index eef08d8..32f545d 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1193,12 +1193,8 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
                 if is_absolute:
-                    if not target_future:  # path was effectively '/'
-                        return notice_resolution(((b'', _root),))
                     past = [(b'', _root)]
-                    future = target_future
-                else:
-                    future.extend(target_future)
+                future.extend(target_future)
                 hops += 1
 
 def resolve(repo, path, parent=None, want_meta=True, follow=True):
-- 
2.43.0


From 0f8247ae56e40d4cccd0631117050ea0023c310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 19/89] fix: vfs: don't treat read(0) as end of file

It made all the following reads return nothing.
---
 lib/bup/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 32f545d..e926f6d 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -273,6 +273,8 @@ class _FileReader:
             if self.ofs == self._size:
                 return b''
             assert self.ofs < self._size, f'{self.ofs} > {self._size}'
+        if count == 0: # an empty result below means EOF
+            return b''
         if not self.reader or self.reader.ofs != self.ofs:
             self.reader = _ChunkReader(self._repo, self.oid, self.ofs)
         try:
-- 
2.43.0


From bb6106829f1215a17ae0ddab76605e3926077c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 20/89] fix: ftp: allow mget from the current directory

A pattern without a directory failed an assertion.
---
 lib/bup/cmd/ftp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/ftp.py b/lib/bup/cmd/ftp.py
index 99d8add..9b2430a 100644
--- a/lib/bup/cmd/ftp.py
+++ b/lib/bup/cmd/ftp.py
@@ -189,7 +189,7 @@ def present_interface(stdin, out, extra, repo):
                 for parm in words[1:]:
                     dir, base = os.path.split(parm)
 
-                    res = vfs.resolve(repo, dir, parent=pwd)
+                    res = vfs.resolve(repo, dir or b'.', parent=pwd)
                     _, dir_item = res[-1]
                     if not dir_item:
                         raise CommandError('path does not exist: ' + path_msg(dir))
-- 
2.43.0


From 29d8e7b96585fe2bd0756e954a57d60342f9d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 21/89] fix: web: return the normalized value of boolean
 request parameters

normalize_bool() always returned None, so every link that changes a
parameter had "=None" in its query, and following it failed.
---
 lib/bup/cmd/web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/web.py b/lib/bup/cmd/web.py
index 0ef9ba8..f74e6b7 100644
--- a/lib/bup/cmd/web.py
+++ b/lib/bup/cmd/web.py
@@ -37,7 +37,7 @@ def http_date_from_utc_ns(utc_ns):
     return time.strftime('%a, %d %b %Y %H:%M:%S', time.gmtime(utc_ns / 10**9))
 
 
-def normalize_bool(k_, v): bool(v)
+def normalize_bool(k_, v): return 1 if v else 0
 
 
 def from_req_bool(k, v):
-- 
2.43.0


From 0f428d622dc618bbbeeedc74149d393720680068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 22/89] fix: web: show symlink targets and owner names that are
 not UTF-8

Listing a directory with meta=1 failed with an internal error when a
symlink target, or a user or group name, was not valid UTF-8.
---
 lib/bup/cmd/web.py          | 1 +
 lib/web/list-directory.html | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/web.py b/lib/bup/cmd/web.py
index f74e6b7..ff2e7f4 100644
--- a/lib/bup/cmd/web.py
+++ b/lib/bup/cmd/web.py
@@ -249,6 +249,7 @@ class BupRequestHandler(tornado.web.RequestHandler):
             files_hidden=_contains_hidden_files(self.repo, resolution[-1][1]),
             local_time_str=xstat.local_time_str,
             mode_str=xstat.mode_str,
+            path_msg=path_msg,
             params=params,
             amend_query=amend_query,
             dir_contents=_dir_contents(self.repo, resolution, params, param_info))
diff --git a/lib/web/list-directory.html b/lib/web/list-directory.html
index 3fca83c..910b79e 100644
--- a/lib/web/list-directory.html
+++ b/lib/web/list-directory.html
@@ -60,9 +60,9 @@
                     {% end %}
                     {% if params.get('meta') and meta is not None%}
                         <td class="dir-meta-mode">{{ mode_str(meta.mode) }}</td>
-                        <td class="dir-meta-owner">{{ '' if meta.user is None else meta.user }}</td>
+                        <td class="dir-meta-owner">{{ '' if meta.user is None else path_msg(meta.user) }}</td>
                         <td class="dir-meta-uid">{{ '' if meta.uid is None else meta.uid }}</td>
-                        <td class="dir-meta-group">{{ '' if meta.group is None else meta.group }}</td>
+                        <td class="dir-meta-group">{{ '' if meta.group is None else path_msg(meta.group) }}</td>
                         <td class="dir-meta-gid">{{ '' if meta.gid is None else meta.gid }}</td>
                     {% end %}
                     <td class="dir-size">{{ '' if size is None else size }}</td>
@@ -72,7 +72,7 @@
                     <td class="dir-name">
                       <a href="{% raw link %}">{{ name }}</a>
                       {% if params.get('meta') and meta and meta.symlink_target %}
-                        → {{ meta.symlink_target }}
+                        → {{ path_msg(meta.symlink_target) }}
                       {% end %}
                     </td>
                 </tr>
-- 
2.43.0


From bcbf56d165394077d81019e0018a87d1f2d58b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 23/89] fix: save: keep real timestamps when saving again
 without an index

The index limits the mtime and ctime of entries to just before the
index run, and a save of an entry that an earlier save had validated
took the times from the index, so when the file's times exceeded that
limit (times in the future, or a file changed within a second of the
index), a second save recorded the wrong times.
---
 lib/bup/cmd/index.py | 13 +++++++++++--
 lib/bup/cmd/save.py  |  5 +++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 09c7e57..9b63a7a 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -82,6 +82,10 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
     # tmax must be epoch nanoseconds.
     tmax = (time.time() - 1) * 10**9
 
+    def exceeds_tmax(st):
+        # True if the times in the index will be limited to tmax
+        return max(st.st_mtime_ns, st.st_ctime_ns) > tmax
+
     with index.MetaStoreWriter(fsindex.meta) as msw, \
          hlinkdb.HLinkDB(fsindex.hlink) as hlinks, \
          index.Writer(fsindex.stat, msw, tmax) as wi, \
@@ -149,8 +153,12 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     # read/used from the index if hashvalid is true. (3)
                     # "faked" entries will be stale(), and so we'll invalidate
                     # them below.
+                    # However, an entry that "save" has validated is still used
+                    # by further saves that aren't preceded by an index, so
+                    # keep the real times whenever the index won't have them.
                     meta.thaw()
-                    meta.ctime = meta.mtime = meta.atime = 0
+                    if not exceeds_tmax(pst):
+                        meta.ctime = meta.mtime = meta.atime = 0
                     meta.freeze()
                     meta_ofs = msw.store(meta)
                     rig.cur.update_from_stat(pst, meta_ofs)
@@ -177,7 +185,8 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     continue
                 # See same assignment to 0, above, for rationale.
                 meta.thaw()
-                meta.atime = meta.mtime = meta.ctime = 0
+                if not exceeds_tmax(pst):
+                    meta.atime = meta.mtime = meta.ctime = 0
                 meta.freeze()
                 meta_ofs = msw.store(meta)
                 wi.add(path, pst, meta_ofs, hashgen=fake_hash)
diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index ef4b005..5fc4a1b 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -367,8 +367,9 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
         if already_saved_oid:
             meta = msr.metadata_at(ent.meta_ofs).thaw()
             meta.hardlink_target = find_hardlink_target(hlink_db, ent)
-            # Restore the times that were cleared to 0 in the metastore.
-            meta.atime, meta.mtime, meta.ctime = ent.atime, ent.mtime, ent.ctime
+            # Restore the times if they were cleared to 0 in the metastore.
+            if not (meta.atime or meta.mtime or meta.ctime):
+                meta.atime, meta.mtime, meta.ctime = ent.atime, ent.mtime, ent.ctime
             meta.freeze()
             stack.append_to_current(file, ent.mode, ent.gitmode, ent.sha, meta)
         else:
-- 
2.43.0


From 2ec0790aa3a44936baa91e0b503a671b513bd991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 24/89] fix: web: allow readable sizes together with metadata

Directories have no size, so the listing of any directory failed with
an internal error when both meta=1 and human=1 were requested.
---
 lib/bup/cmd/web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/web.py b/lib/bup/cmd/web.py
index ff2e7f4..3ab4136 100644
--- a/lib/bup/cmd/web.py
+++ b/lib/bup/cmd/web.py
@@ -139,7 +139,7 @@ def _dir_contents(repo, resolution, params, param_info):
 
         if include_size:
             size = vfs.item_size(repo, item)
-            if params.get('human'):
+            if size is not None and params.get('human'):
                 display_size = format_filesize(size)
             else:
                 display_size = size
-- 
2.43.0


From 02e755af00ac69bd9c1912d5304a162be781852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 25/89] fix: web: allow listing directories with names that are
 not UTF-8

The title was rendered from the raw path, which failed with an internal
error.
---
 lib/web/list-directory.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/web/list-directory.html b/lib/web/list-directory.html
index 910b79e..7dc68d9 100644
--- a/lib/web/list-directory.html
+++ b/lib/web/list-directory.html
@@ -3,7 +3,7 @@
 <html>
     <head>
         <meta http-equiv="Content-Type" content="text/html; charset=UTF-8">
-        <title>Directory listing for {{ path }}</title>
+        <title>Directory listing for {{ path_msg(path) }}</title>
         <link rel="stylesheet" href="/static/styles.css" />
     </head>
     <body>
-- 
2.43.0


From 275f3048689675d6ef8f085628ec63c47214b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 26/89] fix: vfs: report ENOTDIR and ELOOP when resolving
 relative to a parent

The parent is a tuple, so formatting it with a plain % raised TypeError
rather than the vfs IOError (and so crashed the server when the
resolution was remote).
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index e926f6d..b81b873 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1106,7 +1106,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
         raise IOError(ENOTDIR,
                       "path %s%s resolves to non-directory %r"
                       % (path,
-                         ' (relative to %r)' % parent if parent else '',
+                         ' (relative to %r)' % (parent,) if parent else '',
                          past),
                       terminus=past)
     global _root
@@ -1171,7 +1171,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                         raise IOError(ENOTDIR,
                                       'path %r%s ends internally in non-directory here: %r'
                                       % (path,
-                                         ' (relative to %r)' % parent if parent else '',
+                                         ' (relative to %r)' % (parent,) if parent else '',
                                          past),
                                       terminus=past)
                     if must_be_dir:
@@ -1190,7 +1190,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 if hops > 100:
                     raise IOError(ELOOP,
                                   'too many symlinks encountered while resolving %r%s'
-                                  % (path, ' relative to %r' % parent if parent else ''),
+                                  % (path, ' relative to %r' % (parent,) if parent else ''),
                                   terminus=tuple(past + [(segment, item)]))
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
-- 
2.43.0


From e228afb75e42bf646adc521e7990fa40d0948425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 27/89] fix: vfs: include metadata when asking a split tree for
 some names

When the names didn't include ".", the search for .bupm stopped at the
.bupd entry, and so the items came back without their metadata.
---
 lib/bup/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index b81b873..371a5ff 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -839,7 +839,8 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
     # (16f9f9829038f25aec80ebfae3c882a66281e145). Split trees should
     # also be unaffected because the bug was fixed before they were
     # introduced (47891d8951a95b8e0d9ca94387107cdf12ca3d3c).
-    if want_meta and bupm_oid:
+    # For a split tree, the search above may have stopped before .bupm
+    if want_meta and (bupm_oid or (depth and not dot_requested)):
         if depth is None:
             with _FileReader(repo, bupm_oid) as bupm:
                 if not dot_requested: # skip it
-- 
2.43.0


From 4f40e2d40528bbc07935f63a1cb6608cd0352922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 28/89] fix: vfs: treat root names containing newlines as
 missing

Resolving /NAME where NAME contains a newline or carriage return failed
an assertion (and so ended the server when it was remote), rather than
reporting that there's no such path.
---
 lib/bup/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 371a5ff..7f62b2f 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -590,6 +590,8 @@ def root_items(repo, names=None, want_meta=True):
     for ref in names:
         if ref in (b'.', b'.tag'):
             continue
+        if b'\n' in ref or b'\r' in ref:  # can't be a ref (or passed to cat)
+            continue
         oidx, typ, size_, it = repo.cat(b'refs/heads/' + ref)
         if not oidx:
             continue
-- 
2.43.0


From dee5783affefe9d5109eb46245c48d5f8cc3f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 29/89] fix: gc: never remove a pack that the collection just
 created

A rewritten pack may be byte for byte the same as, and so have the same
name as, its replacement (e.g. when gc --threshold 0 rewrites a full pack
that an earlier gc wrote).  When the replacement was finished by the last
object of the old pack, the stem was added to the stale packs after that,
and the next finished pack removed it: lost live data.
---
 lib/bup/gc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 7ca2c28..83f376e 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -145,17 +145,23 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     """Traverse all the packs, saving the (probably) live data."""
 
     stale_packs = [] # stems like /some/where/pack-OIDX (no suffix)
+    new_packs = set() # stems of all the packs created so far
 
     def remove_stale_packs(new_pack_prefix):
         nonlocal stale_packs
         if new_pack_prefix:
             assert _pack_stem_rx.fullmatch(basename(new_pack_prefix))
+            new_packs.add(new_pack_prefix)
             if verbosity:
                 log('created ' + path_msg(basename(new_pack_prefix)) + '\n')
         for stem in stale_packs:
             assert _pack_stem_rx.fullmatch(basename(stem))
-            if stem == new_pack_prefix:
-                continue  # Don't remove the new pack file
+            # Don't remove new pack files.  A rewritten pack may have
+            # exactly the same objects, and so the same name, as its
+            # replacement, and the replacement may be finished either
+            # before or after the old pack is marked as stale.
+            if stem in new_packs:
+                continue
             for p in glob.glob(stem + b'.*'):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
-- 
2.43.0


From 329316e79023855bb6bfb05349a8785115a62921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 30/89] fix: gc, validate-refs: remove the temporary bloom
 filter

Closing the filter renames it into place, so every run left a
tmp-gc-*.bloom file behind in objects/pack.
---
 lib/bup/cmd/validate_refs.py | 3 ++-
 lib/bup/gc.py                | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index f81b23f..0ee0209 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -7,7 +7,7 @@ from bup import git, options, vfs
 from bup.compat import argv_bytes
 from bup.gc import count_objects, find_live_objects
 from bup.git import BUP_CHUNKED, MissingObject, demangle_name, tree_iter
-from bup.helpers import EXIT_FAILURE, EXIT_FALSE, EXIT_TRUE, log
+from bup.helpers import EXIT_FAILURE, EXIT_FALSE, EXIT_TRUE, log, unlink
 from bup.metadata import Metadata
 from bup.io import walk_path_msg, path_msg
 from bup.repo import LocalRepo
@@ -142,6 +142,7 @@ def main(argv):
                                           for_item=for_item,
                                           verbosity=verbosity)
                     live_objs.close()
+                    unlink(live_objs.path)
         if bad_bupm:
             return EXIT_FAILURE
         if (ref_missing + found_missing + abridged_bupm):
diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 83f376e..9a739a2 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -8,7 +8,7 @@ from bup import bloom, git, midx
 from bup.bloom import BloomWriter
 from bup.git import MissingObject, walk_object
 from bup.helpers import \
-    EXIT_FAILURE, log, note_error, progress, qprogress, reprogress
+    EXIT_FAILURE, log, note_error, progress, qprogress, reprogress, unlink
 from bup.io import walk_path_msg, path_msg
 from bup.repo import LocalRepo
 
@@ -84,7 +84,8 @@ def find_live_objects(existing_count, cat_pipe, refs=None, *,
     # encountered and for_item has not been provided, or if for_item
     # has been provided and does not return True, then a MissingObject
     # will be raised.  If idx_list is provided, then existence checks
-    # will be broad.
+    # will be broad.  Closing the returned filter writes it to its
+    # path, which the caller must remove.
     assert existing_count > 0, existing_count
     pack_dir = git.repo(b'objects/pack')
     ffd, bloom_filename = tempfile.mkstemp(b'.bloom', b'tmp-gc-', pack_dir)
@@ -280,7 +281,9 @@ def bup_gc(threshold=10, compression=1, verbosity=0, ignore_missing=False):
         except MissingObject as ex:
             log('bup: missing object %r \n' % ex.oid.hex())
             sys.exit(EXIT_FAILURE)
-        with live_objects:
+        with ExitStack() as ctx:
+            ctx.callback(unlink, live_objects.path)
+            ctx.enter_context(live_objects)
             try:
                 # FIXME: just rename midxes and bloom, and restore them at the end if
                 # we didn't change any packs?
-- 
2.43.0


From 172f2d9e76893b035c2c0ecbb5987a158ed7a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 31/89] fix: gc: write objects that are in more than one pack
 only once

When the packs being rewritten had objects in common (e.g. after an
interrupted gc), the new pack contained duplicate objects.
---
 lib/bup/gc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 9a739a2..b7213b6 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -179,6 +179,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     try:
         # FIXME: sanity check .idx names vs .pack names?
         collect_count = 0
+        rewritten = set() # oids, the packs may have objects in common
         for idx_name in glob.glob(os.path.join(git.repo(b'objects/pack'), b'*.idx')):
             if verbosity:
                 qprogress('preserving live data (%d%% complete)\r'
@@ -222,7 +223,8 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
                     log(f'rewriting {rw_path} ({live_frac * 100:.2f}% live)\n')
                     reprogress()
                 for sha in idx:
-                    if sha in live_in_this_pack:
+                    if sha in live_in_this_pack and sha not in rewritten:
+                        rewritten.add(sha)
                         _, typ, _, item_it = cat_pipe.get(hexlify(sha))
                         repo.just_write(sha, typ, b''.join(item_it))
                 assert idx_name.endswith(b'.idx')
-- 
2.43.0


From d1410f3c21533ec27834c9b9db4f942a4e3c1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 32/89] fix: index: write metadata before index entries refer
 to it

The index was replaced (and, for existing paths, changed in place)
before the buffered metadata reached bupindex.meta, so when index was
killed in between, every later save failed because entries referred to
metadata that wasn't there, or used whatever metadata was later written
at that offset.  Also drop the incomplete last record of an interrupted
run instead of appending to it.
---
 lib/bup/cmd/index.py |  2 ++
 lib/bup/index.py     | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 9b63a7a..47892c9 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -161,6 +161,8 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                         meta.ctime = meta.mtime = meta.atime = 0
                     meta.freeze()
                     meta_ofs = msw.store(meta)
+                    # repack() changes the existing index immediately
+                    msw.flush()
                     rig.cur.update_from_stat(pst, meta_ofs)
                     rig.cur.invalidate()
                     need_repack = True
diff --git a/lib/bup/index.py b/lib/bup/index.py
index 6744617..7e3124a 100644
--- a/lib/bup/index.py
+++ b/lib/bup/index.py
@@ -148,7 +148,9 @@ class MetaStoreWriter:
                     m_off = m_file.tell()
                     m = metadata.Metadata.read(m_file)
             except EOFError:
-                pass
+                # Drop the incomplete record that an interrupted run
+                # left behind, so that what's appended can be read.
+                m_file.truncate(m_off)
             except:
                 log('index metadata in %r appears to be corrupt\n' % filename)
                 raise
@@ -164,6 +166,11 @@ class MetaStoreWriter:
     def __enter__(self): return self
     def __exit__(self, type, value, traceback): self.close()
 
+    def flush(self):
+        """Write everything stored so far to the file."""
+        if self._file:
+            self._file.flush()
+
     def store(self, meta):
         meta_encoded = meta.encode(include_path=False)
         ofs = self._offsets.get(meta_encoded)
@@ -645,6 +652,8 @@ class Writer:
                 self.pending_index.cancel()
             else:
                 self.flush()
+                # The index must not refer to metadata that isn't there
+                self.metastore.flush()
                 fsync(self.f.fileno())
 
     def __del__(self):
-- 
2.43.0


From 91b0e2488ecfdb6d7fc7cb99843ab65c9f1b1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 33/89] fix: git: fsync the directory that finished packs are
 moved to

The packs are moved to objects/pack, but it was objects that was synced,
so a ref could be durable before the names of its packs.
---
 lib/bup/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index aa5bcf1..158a520 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -841,7 +841,8 @@ class LocalPackStore():
                 objdir = os.path.join(self._repo_dir, b'objects')
                 self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
                 self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir, os.O_RDONLY),
+                packdir = os.path.join(objdir, b'pack') # where finish_pack moves them
+                self._parentfd = err_stack.enter_context(finalized(os.open(packdir, os.O_RDONLY),
                                                                    os.close))
                 self._file.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
-- 
2.43.0


From 5457bbe95a72ec18e4023752f855fa98cd292533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 34/89] fix: git: flush the index checksum before syncing the
 index

The checksum was still buffered, and so written after the fsync.
---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 158a520..02fff3a 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1072,6 +1072,7 @@ class PackIdxV2Writer:
             for b in chunkyreader(idx_f):
                 idx_sum.update(b)
             idx_f.write(idx_sum.digest())
+            idx_f.flush()
             fsync(idx_f.fileno())
 
 
-- 
2.43.0


From 0a64cd6d8733debc3060cf2ef43d8a7fa0ed6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 35/89] fix: index: restore hardlink information lost by an
 interrupted run

The hardlink database is saved after the index has already been changed,
so when index was killed in between, every later save failed with a
KeyError, even after indexing again.  Add unchanged paths with links
again, and make adding a path that's already there harmless (it used to
drop all the other links).
---
 lib/bup/cmd/index.py |  4 ++++
 lib/bup/hlinkdb.py   | 12 ++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 47892c9..93d50c0 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -166,6 +166,10 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     rig.cur.update_from_stat(pst, meta_ofs)
                     rig.cur.invalidate()
                     need_repack = True
+                elif rig.cur.nlink > 1 and not stat.S_ISDIR(rig.cur.mode):
+                    # An interrupted run may have changed the index
+                    # without saving the hardlinks.
+                    hlinks.add_path(path, rig.cur.dev, rig.cur.ino)
                 if not (rig.cur.flags & index.IX_HASHVALID):
                     if fake_hash:
                         if rig.cur.sha == index.EMPTY_SHA:
diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index b71b550..54ff33d 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -78,14 +78,14 @@ class HLinkDB:
         assert self.closed
 
     def add_path(self, path, dev, ino):
-        # Assume path is new.
         node = b'%d:%d' % (dev, ino)
+        prev_node = self._path_node.get(path)
+        if prev_node == node:
+            return
+        if prev_node:
+            self._del_node_path(prev_node, path)
         self._path_node[path] = node
-        link_paths = self._node_paths.get(node)
-        if link_paths and path not in link_paths:
-            link_paths.append(path)
-        else:
-            self._node_paths[node] = [path]
+        self._node_paths.setdefault(node, []).append(path)
 
     def _del_node_path(self, node, path):
         link_paths = self._node_paths[node]
-- 
2.43.0


From 4b7452c2ab10e4f3c418b64a6be731048dcb23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 36/89] fix: bloom: write the whole filter, and sync it, before
 it becomes visible

The names of the indexes were still buffered when the filter was moved
into place, and nothing was synced.
---
 lib/bup/bloom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index a28d263..e95f60e 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -89,6 +89,7 @@ from bup.helpers import \
     (debug1,
      debug2,
      finalized,
+     fsync,
      log,
      mmap_read,
      mmap_readwrite,
@@ -336,6 +337,8 @@ class BloomWriter(_BloomBase):
                 self._file.seek(16 + 2**self.bits)
                 if self.idxnames:
                     self._file.write(b'\0'.join(self.idxnames))
+                self._file.flush()
+                fsync(self._file.fileno())
                 os.rename(self._tmp_file_path, self.path)
         finally:
             self._file, self.map, self._tmp_file_path = None, None, None
-- 
2.43.0


From de0fc88798ec7bfea6c27f35f77ae2f01c1ed7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 37/89] fix: helpers: accept a bare relative path in
 atomically_replaced_file

The parent directory fallback was a str while the paths are bytes, so
mkdtemp() raised a TypeError, and "bup index -f NAME" (and so
import-rsnapshot) failed for any tree with hard links.
---
 lib/bup/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index e28d7d3..ce8d41b 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -739,7 +739,7 @@ class atomically_replaced_file:
         self._path_parent_fd = None
         self._path_parent, self._path_base = os.path.split(self.path)
         if not self._path_parent:
-            self._path_parent = '.'
+            self._path_parent = b'.'
         assert self._path_base, f'{self._path_base} is a directory'
         ctx = ExitStack()
         self._cleanup = ctx
-- 
2.43.0


From c4ca8ebf89c123d47f4cc830a1b04ac56c7aaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 38/89] fix: prune-older: don't merge days or months of
 different years

Dailies and monthlies were grouped by day of the year, and by month
alone, so when two consecutive saves were made on the same day (or in
the same month) of different years, the older one was removed even
though it was the newest (only) save for its day or month.
---
 lib/bup/cmd/prune_older.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 6c22182..98418fe 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -37,8 +37,10 @@ def classify_saves(saves, period_start):
     for save in matches:
         yield True, save
 
-    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0]).tm_yday),
-                 (period_start['monthlies'], lambda s: localtime(s[0]).tm_mon),
+    # The regions include the year so that, for example, two adjacent
+    # saves made on the same day of different years aren't one daily.
+    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0])[:3]),
+                 (period_start['monthlies'], lambda s: localtime(s[0])[:2]),
                  (period_start['yearlies'], lambda s: localtime(s[0]).tm_year))
 
     # Break the decreasing utc sorted saves up into the respective
-- 
2.43.0


From 8555fe4c18d9f77b9eb8a9be067cf9ed5a619cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 39/89] fix: prune-older: leave saves with out of order dates
 alone

As documented, only the saves at the end of the branch with
non-increasing dates may be affected, but any save behind one that was
outside a period was handled as if it were outside of it too, no
matter how new it was.
---
 lib/bup/cmd/prune_older.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 98418fe..d9cec44 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -33,7 +33,17 @@ def classify_saves(saves, period_start):
         for save in region[1:]:
             yield False, save
 
-    matches, rest = partition(lambda s: s[0] >= period_start['all'], saves)
+    # Only the leading (newest) saves with non-increasing dates are
+    # candidates; everything from the first one that's newer than its
+    # child on is kept.
+    prev_utc = float('inf')
+    def in_order(save):
+        nonlocal prev_utc
+        prev, prev_utc = prev_utc, save[0]
+        return save[0] <= prev
+    candidates, out_of_order = partition(in_order, saves)
+
+    matches, rest = partition(lambda s: s[0] >= period_start['all'], candidates)
     for save in matches:
         yield True, save
 
@@ -53,10 +63,13 @@ def classify_saves(saves, period_start):
         for region_id_, region_saves in groupby(matches, time_region_id):
             yield from retain_newest_in_region(list(region_saves))
 
-    # Finally, drop any saves older than the specified periods
+    # Drop any (ordered) saves older than the specified periods
     for save in rest:
         yield False, save
 
+    for save in out_of_order:
+        yield True, save
+
 
 optspec = """
 bup prune-older [options...] [BRANCH...]
-- 
2.43.0


From 5eb4190cf851cfc3042a9d68b171f8de4dc81931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 40/89] fix: git: don't mistake a show-ref failure for a
 repository without refs

---
 lib/bup/git.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 02fff3a..69b571d 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1094,6 +1094,8 @@ def list_refs(patterns=None, repo_dir=None,
     if patterns:
         argv.extend(patterns)
     cp = subprocess.run(argv, env=_gitenv(repo_dir), stdout=subprocess.PIPE)
+    if cp.returncode not in (0, 1): # 1 means there were no matches
+        _raise_git_cmd_error(argv, cp.returncode)
     if cp.returncode:
         assert not cp.stdout
     out = cp.stdout.strip()
-- 
2.43.0


From 86c328bc78c6f6875a67db500728353bdcdf7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 41/89] fix: prune-older: keep all of the saves newer than
 --wrt, as documented

---
 lib/bup/cmd/prune_older.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index d9cec44..603ff6e 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -141,6 +141,9 @@ def main(argv):
                 when = strftime('%Y-%m-%d-%H%M%S', period_local)
                 log(f'keeping {kind} since {when}\n')
 
+    # Saves newer than the end of the periods are always kept
+    period_start['all'] = min(period_start['all'], now + 1)
+
     git.check_repo_or_die()
 
     # This could be more efficient, but for now just build the whole list
-- 
2.43.0


From a1fd1c27395c36a24845849861e97fb468a57317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 42/89] fix: commit: parse names ending with a period, quote,
 etc.

bup writes the user's full name as is, so every save made by, say, "J.
Doe Jr." could not be read afterwards.
---
 lib/bup/commit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/bup/commit.py b/lib/bup/commit.py
index d364087..639154b 100644
--- a/lib/bup/commit.py
+++ b/lib/bup/commit.py
@@ -37,11 +37,9 @@ def parse_commit_gpgsig(sig):
 # https://github.com/git/git/blob/master/Documentation/technical/signature-format.txt
 # The continuation lines have only one leading space.
 
-_start_end_char = br'[^ .,:;<>"\'\0\n]'
-_content_char = br'[^\0\n<>]'
-_safe_str_rx = br'(?:%s{1,2}|(?:%s%s*%s))' \
-    % (_start_end_char,
-       _start_end_char, _content_char, _start_end_char)
+# While git itself strips some other characters from the ends of names,
+# we don't (e.g. for a user named "J. Doe Jr."), nor does it have to.
+_safe_str_rx = br'[^\0\n<>]*'
 _tz_rx = br'[-+]\d\d[0-5]\d'
 _parent_rx = br'(?:parent [abcdefABCDEF0123456789]{40}\n)'
 # Assumes every following line starting with a space is part of the
-- 
2.43.0


From da75f9745300f0d46bc127c358d8b429f6b95208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 43/89] fix: pwdgrp: allow users without a passwd entry, as
 intended

---
 lib/bup/pwdgrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/pwdgrp.py b/lib/bup/pwdgrp.py
index 2f76075..d72d388 100644
--- a/lib/bup/pwdgrp.py
+++ b/lib/bup/pwdgrp.py
@@ -110,7 +110,8 @@ def username():
     global _username
     if not _username:
         uid = os.getuid()
-        _username = pwd_from_uid(uid).pw_name or b'user%d' % uid
+        entry = pwd_from_uid(uid)
+        _username = (entry and entry.pw_name) or b'user%d' % uid
     return _username
 
 
-- 
2.43.0


From 467e8417ca61ef5ade7c0fa2cbe54414811d3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 44/89] fix: save, split: refuse dates that git can't represent

A negative --date was stored as is, and the result could not be read,
nor could anything else on that branch.
---
 lib/bup/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index ce8d41b..4ddd437 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -958,9 +958,12 @@ def parse_date_arg(arg, val):
     """Parses the given date arg or raises a ValueError.
     For now we expect a string that contains a float."""
     try:
-        return float(val)
+        result = float(val)
     except ValueError as ex:
         raise ValueError(f'{path_msg(arg)} {path_msg(val)} is not a float') from ex
+    if not 0 <= result < float('inf'): # git can't represent them
+        raise ValueError(f'{path_msg(arg)} {val} is not a valid date')
+    return result
 
 def parse_excludes(options, fatal: Callable[[str], NoReturn]):
     """Traverse the options and extract all excludes, or call Option.fatal()."""
-- 
2.43.0


From a34d1adb91b02ee9492ef391881f51484c1ab48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 45/89] fix: save, split: don't ignore --date=0

---
 lib/bup/cmd/save.py  | 2 +-
 lib/bup/cmd/split.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 5fc4a1b..bdbcef0 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -83,7 +83,7 @@ def opts_from_cmdline(argv):
         o.fatal("use one or more of -t, -c, -n")
     if not extra:
         o.fatal("no filenames given")
-    if opt.date:
+    if opt.date is not None:
         try:
             opt.date = parse_date_arg(b'--date', opt.date)
         except ValueError as ex:
diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 74aaeb0..385ea7d 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -92,7 +92,7 @@ def opts_from_cmdline(argv):
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
         opt.bwlimit = require_num('--bwlimit', opt.bwlimit)
-    if opt.date:
+    if opt.date is not None:
         try:
             opt.date = parse_date_arg(b'--date', opt.date)
         except ValueError as ex:
-- 
2.43.0


From afed9aa42c27d68b221891d2c38ccd79ce160e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 46/89] fix: split: don't let --max-pack-objects overwrite
 --max-pack-size

---
 lib/bup/cmd/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 385ea7d..9318dbb 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -87,7 +87,7 @@ def opts_from_cmdline(argv):
     if opt.max_pack_size:
         opt.max_pack_size = require_num('--max-pack-size', opt.max_pack_size)
     if opt.max_pack_objects:
-        opt.max_pack_size = require_num('--max-pack-objects', opt.max_pack_objects)
+        opt.max_pack_objects = require_num('--max-pack-objects', opt.max_pack_objects)
     if opt.fanout:
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
-- 
2.43.0


From c948704205bbb22d5a0c0fe3f1a0aed928f12596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 47/89] fix: accept numbers as branch, tag, directory and index
 names

Option values that look like an integer are converted to one, so a
name like 2024 caused a TypeError, and 0 was handled as if the option
had not been given, e.g. "restore -C 0" restored to the current
directory, and "tag -d 0" just listed the tags.
---
 lib/bup/cmd/index.py   |  2 +-
 lib/bup/cmd/init.py    |  2 +-
 lib/bup/cmd/join.py    |  2 +-
 lib/bup/cmd/restore.py |  4 ++--
 lib/bup/cmd/save.py    | 10 +++++-----
 lib/bup/cmd/split.py   |  4 ++--
 lib/bup/cmd/tag.py     |  2 +-
 lib/bup/compat.py      |  2 ++
 lib/bup/ls.py          |  2 +-
 9 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 93d50c0..199bcf2 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -269,7 +269,7 @@ def main(argv):
         o.fatal('--fake-valid is incompatible with --fake-invalid')
     if opt.clear and opt.indexfile:
         o.fatal('cannot clear an external index (via -f)')
-    if opt.indexfile: opt.indexfile = argv_bytes(opt.indexfile)
+    if opt.indexfile is not None: opt.indexfile = argv_bytes(opt.indexfile)
 
     # FIXME: remove this once we account for timestamp races, i.e. index;
     # touch new-file; index.  It's possible for this to happen quickly
diff --git a/lib/bup/cmd/init.py b/lib/bup/cmd/init.py
index 5f9c0df..336603c 100644
--- a/lib/bup/cmd/init.py
+++ b/lib/bup/cmd/init.py
@@ -24,7 +24,7 @@ def main(argv):
             o.fatal('cannot initialize both local and remote repo')
         loc = URL(scheme=b'file', path=abspath(argv_bytes(extra[0])))
     else:
-        loc = main_repo_location(opt.remote and argv_bytes(opt.remote), o.fatal)
+        loc = main_repo_location(None if opt.remote is None else argv_bytes(opt.remote), o.fatal)
     try:
         with repo_for_location(loc, create=True): pass
     except git.GitError as ex:
diff --git a/lib/bup/cmd/join.py b/lib/bup/cmd/join.py
index c71fa4f..f7d7b3c 100644
--- a/lib/bup/cmd/join.py
+++ b/lib/bup/cmd/join.py
@@ -19,7 +19,7 @@ o=         output filename
 def main(argv):
     o = options.Options(optspec)
     opt, flags_, extra = o.parse_bytes(argv[1:])
-    loc = main_repo_location(argv_bytes(opt.remote) if opt.remote else None,
+    loc = main_repo_location(None if opt.remote is None else argv_bytes(opt.remote),
                              o.fatal)
     stdin = byte_stream(sys.stdin)
     if not extra:
diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 797a7a0..36aba82 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -224,9 +224,9 @@ def main(argv):
     o = options.Options(optspec)
     opt, flags, extra = o.parse_bytes(argv[1:])
     verbosity = (opt.verbose or 0) if not opt.quiet else -1
-    if opt.outdir:
+    if opt.outdir is not None:
         opt.outdir = argv_bytes(opt.outdir)
-    loc = main_repo_location(argv_bytes(opt.remote) if opt.remote else None,
+    loc = main_repo_location(None if opt.remote is None else argv_bytes(opt.remote),
                              o.fatal)
 
     if not extra:
diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index bdbcef0..7c161ca 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -71,13 +71,13 @@ def opts_from_cmdline(argv):
     o = options.Options(optspec)
     opt, flags, extra = o.parse_bytes(argv[1:])
 
-    if opt.indexfile:
+    if opt.indexfile is not None:
         opt.indexfile = argv_bytes(opt.indexfile)
-    if opt.name:
+    if opt.name is not None:
         opt.name = argv_bytes(opt.name)
-    if opt.remote:
+    if opt.remote is not None:
         opt.remote = argv_bytes(opt.remote)
-    if opt.strip_path:
+    if opt.strip_path is not None:
         opt.strip_path = argv_bytes(opt.strip_path)
     if not (opt.tree or opt.commit or opt.name):
         o.fatal("use one or more of -t, -c, -n")
@@ -115,7 +115,7 @@ def opts_from_cmdline(argv):
         if opt.strip:
             o.fatal("--strip is incompatible with --graft")
 
-        if opt.strip_path:
+        if opt.strip_path is not None:
             o.fatal("--strip-path is incompatible with --graft")
 
         for (option, parameter) in flags:
diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 9318dbb..5f22a8f 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -66,8 +66,8 @@ def opts_from_cmdline(argv):
             o.fatal(f'invalid {arg} ({str(ex)})')
             assert False # pylint
 
-    if opt.name: opt.name = argv_bytes(opt.name)
-    if opt.remote: opt.remote = argv_bytes(opt.remote)
+    if opt.name is not None: opt.name = argv_bytes(opt.name)
+    if opt.remote is not None: opt.remote = argv_bytes(opt.remote)
     if opt.verbose is None: opt.verbose = 0
 
     if not (opt.blobs or opt.tree or opt.commit or opt.name or
diff --git a/lib/bup/cmd/tag.py b/lib/bup/cmd/tag.py
index ebb6038..6f4c3aa 100644
--- a/lib/bup/cmd/tag.py
+++ b/lib/bup/cmd/tag.py
@@ -26,7 +26,7 @@ def main(argv):
 
     tags = [t for sublist in git.tags().values() for t in sublist]
 
-    if opt.delete:
+    if opt.delete is not None:
         # git.delete_ref() doesn't complain if a ref doesn't exist.  We
         # could implement this verification but we'd need to read in the
         # contents of the tag file and pass the hash, and we already know
diff --git a/lib/bup/compat.py b/lib/bup/compat.py
index d8919a9..1a0f671 100644
--- a/lib/bup/compat.py
+++ b/lib/bup/compat.py
@@ -33,6 +33,8 @@ else:
 
 def argv_bytes(x):
     """Return the original bytes passed to main() for an argv argument."""
+    if isinstance(x, int): # bup.options...
+        x = str(x)
     return fsencode(x)
 
 # Access argv directly, given https://bugs.python.org/issue35883
diff --git a/lib/bup/ls.py b/lib/bup/ls.py
index 5cc5067..328418f 100644
--- a/lib/bup/ls.py
+++ b/lib/bup/ls.py
@@ -112,7 +112,7 @@ def opts_from_cmdline(args, onabort=None, pwd=b'/'):
             opt.show_hidden = 'all'
         elif option in ('-A', '--almost-all'):
             opt.show_hidden = 'almost'
-    remote = argv_bytes(opt.remote) if opt.remote else None
+    remote = None if opt.remote is None else argv_bytes(opt.remote)
     return LsOpts(paths=opt.paths,
                   l=opt.long_listing,
                   long_listing=opt.long_listing,
-- 
2.43.0


From 409ea06eee62d666d2442f5fd452cb200e75e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 48/89] fix: git: only match the given ref, not every ref
 ending with it

When there were refs like refs/heads/x and refs/heads/refs/heads/x,
save and split either crashed or picked the wrong parent, and "bup tag
t x" would tag the tip of some y/x when there was no x.
---
 lib/bup/git.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 69b571d..26e70cf 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1107,7 +1107,9 @@ def list_refs(patterns=None, repo_dir=None,
 
 def read_ref(refname, repo_dir = None):
     """Get the commit id of the most recent commit made on a given ref."""
-    refs = list_refs(patterns=[refname], repo_dir=repo_dir, limit_to_heads=True)
+    # show-ref also matches any ref that ends with /refname
+    refs = (x for x in list_refs(patterns=[refname], repo_dir=repo_dir,
+                                 limit_to_heads=True) if x[0] == refname)
     l = tuple(islice(refs, 2))
     if l:
         assert(len(l) == 1)
@@ -1171,15 +1173,16 @@ def rev_parse(committish, repo_dir=None):
     Returns the hex value of the hash if it is found, None if 'committish' does
     not correspond to anything.
     """
-    head = read_ref(committish, repo_dir=repo_dir)
-    if head:
-        debug2(f'resolved from ref: commit = {head.hex()}\n')
-        return head
+    for prefix in (b'', b'refs/', b'refs/heads/'):
+        head = read_ref(prefix + committish, repo_dir=repo_dir)
+        if head:
+            debug2(f'resolved from ref: commit = {head.hex()}\n')
+            return head
 
     if len(committish) == 40:
         try:
             hash = unhexlify(committish)
-        except TypeError:
+        except ValueError:
             return None
 
         with PackIdxList(repo(b'objects/pack', repo_dir=repo_dir)) as pl:
-- 
2.43.0


From ffbba967258de9b32c458f35b893228472eff3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 49/89] fix: restore: refuse names that are not a single path
 component

A tree in a repository that was not (only) written by bup can contain
names like "../x", "/x", or "link/x", and restore would create those,
i.e. write outside the output directory.
---
 lib/bup/cmd/restore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 36aba82..92e8c65 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -156,6 +156,11 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
     mode = vfs.item_mode(item)
     treeish = S_ISDIR(mode)
     fullname = parent_path + b'/' + name
+    if b'/' in name or name in (b'', b'.', b'..'):
+        # Not from bup or git, and could take us outside the outdir
+        add_error(f'error: refusing to restore invalid name {path_msg(name)}'
+                  f' in {path_msg(parent_path or b"/")}')
+        return
     # Match behavior of index --exclude-rx with respect to paths.
     if should_rx_exclude_path(fullname + (b'/' if treeish else b''),
                               exclude_rxs):
-- 
2.43.0


From 4e49c796501b738a897cbd4d11080f1585a326d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 50/89] fix: restore: don't follow a symlink in place of a
 directory

If a directory's own metadata says it's a symlink, restore would
create the symlink, chdir to its target, and restore the directory's
contents there.
---
 lib/bup/cmd/restore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 92e8c65..49ad87a 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -192,6 +192,11 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
             assert(dot == b'.')
             item = vfs.augment_item_meta(repo, item, include_size=True)
             meta = item.meta
+            if not S_ISDIR(meta.mode or 0):
+                # Broken (or hostile) metadata; could be a symlink
+                add_error('error: refusing to restore directory with'
+                          f' non-directory metadata: {path_msg(fullname)}')
+                return
             meta.create_path(name)
             os.chdir(name)
             try:
-- 
2.43.0


From 3c155e95e2b2780a7601aa368c19478561643205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 51/89] fix: metadata: never apply ACLs or file attributes
 through symlinks

---
 lib/bup/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index a2ee808..de1e9e6 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -596,8 +596,8 @@ class Metadata:
         self.posix1e_acl = tuple(acl_rep)
 
     def _apply_posix1e_acl_rec(self, path, restore_numeric_ids=False):
-        if not self.posix1e_acl:
-            return
+        if not self.posix1e_acl or stat.S_ISLNK(self.mode or 0):
+            return # (never recorded for symlinks, and would follow them)
 
         if not apply_acl:
             note_error("error: can't restore POSIX1e ACL (no support): %s\n"
@@ -666,7 +666,8 @@ class Metadata:
     def _apply_linux_attr_rec(self, path,
                               # pylint: disable-next=unused-argument
                               restore_numeric_ids=False):
-        if self.linux_attr:
+        # Never recorded for symlinks, and would follow them.
+        if self.linux_attr and not stat.S_ISLNK(self.mode or 0):
             if not set_linux_file_attr:
                 note_error("error: can't restore linuxattrs (no support): %s\n"
                            % path_msg(path))
-- 
2.43.0


From 12d2b2656a0c40b2d3d4a50b7718a50c31e4742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 52/89] fix: --exclude-from: ignore empty lines and respect
 whitespace

An empty line excluded the current directory (the result of
resolve_parent(b'')), and a path that starts or ends with whitespace
couldn't be excluded, and excluded the path without it instead.
---
 lib/bup/helpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 4ddd437..0114e6e 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -981,10 +981,9 @@ def parse_excludes(options, fatal: Callable[[str], NoReturn]):
                       f' ({ex.strerror} [{ex.errno}])')
             with f:
                 for exclude_path in f.readlines():
-                    # FIXME: perhaps this should be rstrip('\n')
-                    exclude_path = resolve_parent(exclude_path.strip())
+                    exclude_path = exclude_path.rstrip(b'\n')
                     if exclude_path:
-                        excluded_paths.append(exclude_path)
+                        excluded_paths.append(resolve_parent(exclude_path))
     return sorted(frozenset(excluded_paths))
 
 
-- 
2.43.0


From 6a2185e6c60fa49609d587f6999ccb4c9ccee653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 53/89] fix: index: -x: traverse all of an explicitly requested
 mount point

Given "index -x / /home" with /home on another filesystem, only the
top level of /home was indexed since all of its subdirectories were
still compared with the device of /.
---
 lib/bup/drecurse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/drecurse.py b/lib/bup/drecurse.py
index bb17723..c7919a2 100644
--- a/lib/bup/drecurse.py
+++ b/lib/bup/drecurse.py
@@ -61,7 +61,9 @@ def _recursive_dirlist(prepend, dir_fd, xdev,
         with finalized(sub_fd, os.close):
             yield from _recursive_dirlist(prepend=path,
                                           dir_fd=sub_fd,
-                                          xdev=xdev,
+                                          # differs if it's an exception
+                                          xdev=xdev if xdev is None \
+                                              else pst.st_dev,
                                           bup_dir=bup_dir,
                                           excluded_paths=excluded_paths,
                                           exclude_rxs=exclude_rxs,
-- 
2.43.0


From 8c59d967266a57ecc2890e24ef343b7e7acca2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 54/89] fix: save: resolve --strip and --strip-path prefixes
 like all other paths

The paths in the index never have symlinks in their parents, so given
a symlink /link to /real, "save --strip /link/x" saved /real/x without
stripping anything.
---
 lib/bup/cmd/save.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 7c161ca..0f1f61e 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -109,6 +109,12 @@ def opts_from_cmdline(argv):
 
     opt.repo = main_repo_location(opt.remote, o.fatal)
     opt.sources = [argv_bytes(x) for x in extra]
+    # There are no symlinks in the parents of the index paths
+    opt.strip_prefixes = \
+        [resolve_parent(x)
+         for x in (opt.sources if opt.strip
+                   else [opt.strip_path] if opt.strip_path
+                   else [])]
 
     grafts = []
     if opt.graft:
@@ -199,8 +205,7 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
     # Directories containing (or at) any of these paths can't be handled
     # as a unit because strip or graft may rearrange their content.
     moved_paths = [slashappend(os.path.abspath(x))
-                   for x in ((opt.strip and opt.sources)
-                             or (opt.strip_path and [opt.strip_path])
+                   for x in (opt.strip_prefixes
                              or [old for old, new_ in opt.grafts])]
 
     def rearranged(ent):
@@ -297,10 +302,8 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             continue
 
         assert(dir.startswith(b'/'))
-        if opt.strip:
-            dirp = stripped_path_components(dir, opt.sources)
-        elif opt.strip_path:
-            dirp = stripped_path_components(dir, [opt.strip_path])
+        if opt.strip_prefixes:
+            dirp = stripped_path_components(dir, opt.strip_prefixes)
         elif opt.grafts:
             dirp = grafted_path_components(opt.grafts, dir)
         else:
-- 
2.43.0


From 98afed1f7cdcf83e2fb9120f67887096853d6cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 55/89] fix: bloom: update the existing filter instead of
 replacing it

An update created a new filter containing only the added indexes (so the
result never covered the whole repository), and concurrent updates could
fail because they shared bup.tmp.bloom.
---
 lib/bup/bloom.py     |  1 +
 lib/bup/cmd/bloom.py | 36 ++++++++++++++++--------------------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index e95f60e..8c9e172 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -295,6 +295,7 @@ class BloomWriter(_BloomBase):
                 dir, name = os.path.split(path)
                 fd, tmp = mkstemp(dir=dir or os.getcwdb(), prefix=name)
                 self._tmp_file_path = tmp
+                ctx.enter_context(finalized(tmp, unlink))
                 os.close(fd)
                 os.rename(path, tmp)
                 ctx.pop_all()
diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c418640..2ae6ec1 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -129,7 +129,10 @@ def do_bloom(path, outfilename, k, force):
             else:
                 b, b_tmp = None, b
                 b_tmp.close()
-                b = BloomWriter(outfilename, mode='w+b', expected=add_count)
+                try:
+                    b = BloomWriter(outfilename, mode='wb', expected=add_count)
+                except FileNotFoundError: # e.g. another bloom is updating it
+                    debug1("bloom: existing bloom vanished, regenerating\n")
         if b is None: # Need all idxs to build from scratch
             add += rest
             add_count += rest_count
@@ -144,28 +147,21 @@ def do_bloom(path, outfilename, k, force):
                len(add), len(add)!=1 and 's' or '',
                add_count, add_count!=1 and 's' or ''))
 
-        tfname = None
         if b is None:
-            tfname = os.path.join(path, b'bup.tmp.bloom')
-            b = BloomWriter(tfname, 'w+b', expected=add_count, k=k)
-        count = 0
-        icount = 0
-        for name in add:
-            with git.open_idx(name) as ix:
-                qprogress('bloom: writing %.2f%% (%d/%d objects)\r'
-                          % (icount*100.0/add_count, icount, add_count))
-                b.add_idx(ix)
-                count += 1
-                icount += len(ix)
-
-    finally:  # This won't handle pending exceptions correctly in py2
-        # Currently, there's an open file object for tfname inside b.
-        # Make sure it's closed before rename.
+            b = BloomWriter(outfilename, 'w+b', expected=add_count, k=k)
+        writer, b = b, None
+        with writer:
+            icount = 0
+            for name in add:
+                with git.open_idx(name) as ix:
+                    qprogress('bloom: writing %.2f%% (%d/%d objects)\r'
+                              % (icount*100.0/add_count, icount, add_count))
+                    writer.add_idx(ix)
+                    icount += len(ix)
+
+    finally:
         if b is not None: b.close()
 
-    if tfname:
-        os.rename(tfname, outfilename)
-
 
 def main(argv):
     o = options.Options(optspec)
-- 
2.43.0


From 4e59d47d540549f7ef3f5fe08d9720a6a0e452c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 56/89] fix: git: don't trust a bloom filter that lacks some of
 the indexes

---
 lib/bup/git.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 26e70cf..e4b7be7 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -744,7 +744,10 @@ class PackIdxList:
                 except BloomInvalid as ex:
                     log(f'warning: {str(ex)}\n')
             try:
-                if self.bloom and len(self.bloom) >= len(self):
+                # Only trust a bloom filter that includes every index
+                if self.bloom and len(self.bloom) >= len(self) \
+                   and {os.path.basename(name) for pack in self.packs
+                        for name in pack.idxnames} <= set(self.bloom.idxnames):
                     self.do_bloom = True
                 else:
                     if self.bloom:
-- 
2.43.0


From e37ebb97d9ed0dcf833450340e8a6a87a8741774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 57/89] fix: io: handle commits in walk_path_msg

Otherwise validate-refs and gc crash when they notice a missing parent.
---
 lib/bup/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/io.py b/lib/bup/io.py
index e1e4361..8827f40 100644
--- a/lib/bup/io.py
+++ b/lib/bup/io.py
@@ -291,7 +291,8 @@ def walk_path_msg(ref_name, item_path):
         path_top = root + 2
     path = path_msg(b'/'.join(x.name for x in item_path[path_top:]))
     path = f'{path_msg(item_path[root].name)}:{path}'
-    if S_ISDIR(item_path[-1].mode):
+    mode = item_path[-1].mode # None for commits
+    if mode is not None and S_ISDIR(mode):
         return f'{path_msg(ref_name)} {path}/'
     return f'{path_msg(ref_name)} {path}'
 
-- 
2.43.0


From 287bba981ed265a1251d2957effd10b8dda4f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 58/89] fix: validate-refs: check the refs even when there are
 no packs

---
 lib/bup/cmd/validate_refs.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index 0ee0209..c28531a 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -129,20 +129,20 @@ def main(argv):
             existing_count = count_objects(git.repo(b'objects/pack'), verbosity)
             if verbosity:
                 log(f'found {existing_count} objects\n')
-            if existing_count:
-                with ExitStack() as maybe_close_idxl:
-                    idxl = None
-                    if opt.links:
-                        idxl = git.PackIdxList(git.repo(b'objects/pack'))
-                        maybe_close_idxl.enter_context(idxl)
-                    live_objs, live_trees_ = \
-                        find_live_objects(existing_count, cat_pipe,
-                                          refs=ref_info,
-                                          idx_list=idxl,
-                                          for_item=for_item,
-                                          verbosity=verbosity)
-                    live_objs.close()
-                    unlink(live_objs.path)
+            with ExitStack() as maybe_close_idxl:
+                idxl = None
+                if opt.links:
+                    idxl = git.PackIdxList(git.repo(b'objects/pack'))
+                    maybe_close_idxl.enter_context(idxl)
+                # The refs need checking even if there are no objects
+                live_objs, live_trees_ = \
+                    find_live_objects(max(existing_count, 1), cat_pipe,
+                                      refs=ref_info,
+                                      idx_list=idxl,
+                                      for_item=for_item,
+                                      verbosity=verbosity)
+                live_objs.close()
+                unlink(live_objs.path)
         if bad_bupm:
             return EXIT_FAILURE
         if (ref_missing + found_missing + abridged_bupm):
-- 
2.43.0


From 02e92d687071c7ffb3b9977d6798bc3bc6156ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 59/89] fix: save: preserve the precedence of --strip prefixes

---
 lib/bup/cmd/save.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 0f1f61e..d670495 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -109,12 +109,15 @@ def opts_from_cmdline(argv):
 
     opt.repo = main_repo_location(opt.remote, o.fatal)
     opt.sources = [argv_bytes(x) for x in extra]
-    # There are no symlinks in the parents of the index paths
+    # There are no symlinks in the parents of the index paths.  Leave
+    # other prefixes alone because the longest (as given) comes first.
+    def strip_prefix(path):
+        resolved = resolve_parent(path)
+        return path if resolved == os.path.abspath(path) else resolved
     opt.strip_prefixes = \
-        [resolve_parent(x)
-         for x in (opt.sources if opt.strip
-                   else [opt.strip_path] if opt.strip_path
-                   else [])]
+        [strip_prefix(x) for x in (opt.sources if opt.strip
+                                   else [opt.strip_path] if opt.strip_path
+                                   else [])]
 
     grafts = []
     if opt.graft:
-- 
2.43.0


From b5db63fb0a0b67dfb7dc477d7e2e0d52ae40916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 60/89] fix: --exclude-from: continue to ignore surrounding
 whitespace

---
 lib/bup/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 0114e6e..e35524a 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -981,7 +981,8 @@ def parse_excludes(options, fatal: Callable[[str], NoReturn]):
                       f' ({ex.strerror} [{ex.errno}])')
             with f:
                 for exclude_path in f.readlines():
-                    exclude_path = exclude_path.rstrip(b'\n')
+                    # FIXME: perhaps this should be rstrip('\n')
+                    exclude_path = exclude_path.strip()
                     if exclude_path:
                         excluded_paths.append(resolve_parent(exclude_path))
     return sorted(frozenset(excluded_paths))
-- 
2.43.0


From e587fa4de022c150718e8b5897c7afb472681fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 61/89] fix: skip empty unknown metadata records, and notice
 truncated ones

skip_bvec() treated a zero-length vector as EOF, so an empty record with
a tag from a newer version made the whole archive unreadable, and it
accepted a vector that was cut short.
---
 lib/bup/vint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vint.py b/lib/bup/vint.py
index 1969d11..876c0c4 100644
--- a/lib/bup/vint.py
+++ b/lib/bup/vint.py
@@ -141,7 +141,7 @@ def skip_bvec(port):
     if n is None:
         raise EOFError('encountered EOF while skipping bvec')
     val = port.read(n)
-    if not val:
+    if len(val) != n: # e.g. EOF when n != 0
         raise EOFError('encountered EOF while skipping bvec')
 
 
-- 
2.43.0


From d04f89f86e388bc25700197dd5b6748d2915e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 62/89] fix: list directories that have an ACL but no default
 ACL

"bup meta -tvv" crashed with an IndexError because the default ACL is
dropped when loading a record where it is empty.
---
 lib/bup/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index de1e9e6..1217ec0 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -1183,7 +1183,9 @@ def detailed_bytes(meta, fields = None):
         acl = meta.posix1e_acl[0]
         result.append(b'posix1e-acl: ' + acl + b'\n')
         if stat.S_ISDIR(meta.mode):
-            def_acl = meta.posix1e_acl[2]
+            # There's no default when the acl was read from a record that
+            # didn't have one.
+            def_acl = meta.posix1e_acl[2] if len(meta.posix1e_acl) > 2 else b''
             result.append(b'posix1e-acl-default: ' + def_acl + b'\n')
     return b'\n'.join(result)
 
-- 
2.43.0


From 31ca175bba1554e6d3bc1a56838bac3d60a49e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 63/89] fix: show times before the epoch correctly

For example -2s was shown as -1, -0.5s as 0.5, and -1.75s as -1.25.
---
 lib/bup/xstat.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/bup/xstat.py b/lib/bup/xstat.py
index e87feec..4ae1a6e 100644
--- a/lib/bup/xstat.py
+++ b/lib/bup/xstat.py
@@ -37,12 +37,11 @@ def fstime_to_timespec(ns):
 
 
 def fstime_to_sec_bytes(fstime):
-    (s, ns) = fstime_to_timespec(fstime)
-    if(s < 0):
-        s += 1
+    sign = b'-' if fstime < 0 else b''
+    (s, ns) = fstime_to_timespec(abs(fstime))
     if ns == 0:
-        return b'%d' % s
-    return b'%d.%09d' % (s, ns)
+        return b'%s%d' % (sign, s)
+    return b'%s%d.%09d' % (sign, s, ns)
 
 def utime(path, times):
     """Times must be provided as (atime_ns, mtime_ns)."""
-- 
2.43.0


From f131c66a30f1706174764bc07a84e7ca15a5ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 64/89] fix: ignore v1 ACL records with commas as intended

The code that notes the error and ignores the ACL returned None, which
then caused a TypeError.
---
 lib/bup/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 1217ec0..1207bee 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -593,6 +593,8 @@ class Metadata:
             acl_rep = acl_rep[:2]
         if version == 1:
             acl_rep = self._correct_posix1e_v1_delimiters(acl_rep, self.path)
+            if not acl_rep:
+                return
         self.posix1e_acl = tuple(acl_rep)
 
     def _apply_posix1e_acl_rec(self, path, restore_numeric_ids=False):
-- 
2.43.0


From 05dbba7ed61a0af6bbec81f430644ec6f3d07884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 65/89] fix: keep "bup meta" extraction within the current
 directory

A path of ".." was accepted, and so were paths beyond symlinks, which
could themselves come from the archive, so extracting an archive could
create files and change metadata anywhere.
---
 lib/bup/metadata.py | 50 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 1207bee..49a3fca 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -161,7 +161,7 @@ def _risky_path(p):
         return True
     if p.startswith(b'../'):
         return True
-    if p.endswith(b'/..'):
+    if p == b'..' or p.endswith(b'/..'):
         return True
     return False
 
@@ -175,6 +175,26 @@ def _clean_up_extract_path(p):
     return result
 
 
+def _beyond_symlink(path, check_last):
+    """Return true if any element of the relative path is a symlink,
+    ignoring the last one if check_last is false.
+
+    """
+    elements = path.rstrip(b'/').split(b'/')
+    if not (check_last or path.endswith(b'/')):
+        elements.pop()
+    for i in range(1, len(elements) + 1):
+        try:
+            st = xstat.lstat(b'/'.join(elements[:i]))
+        except OSError as e:
+            if e.errno in (errno.ENOENT, errno.ENOTDIR):
+                return False
+            raise
+        if stat.S_ISLNK(st.st_mode):
+            return True
+    return False
+
+
 # These tags are currently conceptually private to Metadata, and they
 # must be unique, and must *never* be changed.
 _rec_tag_end = 0
@@ -1234,6 +1254,18 @@ def display_archive(file, out):
             out.write(b'\n')
 
 
+def _note_beyond_symlink(path):
+    note_error(f'error: skipping path beyond symlink: {path_msg(path)}\n')
+
+
+def _apply_extracted(meta, path, restore_numeric_ids):
+    # Only a symlink's own metadata can be applied without following it
+    if _beyond_symlink(path, check_last=not stat.S_ISLNK(meta.mode)):
+        _note_beyond_symlink(path)
+        return
+    meta.apply_to_path(path=path, restore_numeric_ids=restore_numeric_ids)
+
+
 def start_extract(file, create_symlinks=True):
     for meta in _ArchiveIterator(file):
         if not meta: # Hit end record.
@@ -1243,6 +1275,8 @@ def start_extract(file, create_symlinks=True):
         xpath = _clean_up_extract_path(meta.path)
         if not xpath:
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
+        elif _beyond_symlink(xpath, check_last=meta.isdir()):
+            _note_beyond_symlink(meta.path)
         else:
             meta = deepcopy(meta).thaw()
             meta.path = xpath
@@ -1258,20 +1292,19 @@ def finish_extract(file, restore_numeric_ids=False):
         if not xpath:
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
         else:
-            if os.path.isdir(meta.path):
+            if os.path.isdir(xpath):
                 all_dirs.append(meta)
             else:
                 if verbose:
                     print(path_msg(meta.path), file=sys.stderr)
-                meta.apply_to_path(path=xpath,
-                                   restore_numeric_ids=restore_numeric_ids)
+                _apply_extracted(meta, xpath, restore_numeric_ids)
     all_dirs.sort(key = lambda x : len(x.path), reverse=True)
     for dir in all_dirs:
         # Don't need to check xpath -- won't be in all_dirs if not OK.
         xpath = _clean_up_extract_path(dir.path)
         if verbose:
             print(path_msg(dir.path), file=sys.stderr)
-        dir.apply_to_path(path=xpath, restore_numeric_ids=restore_numeric_ids)
+        _apply_extracted(dir, xpath, restore_numeric_ids)
 
 
 def extract(file, restore_numeric_ids=False, create_symlinks=True):
@@ -1284,6 +1317,8 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
         xpath = _clean_up_extract_path(meta.path)
         if not xpath:
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
+        elif _beyond_symlink(xpath, check_last=meta.isdir()):
+            _note_beyond_symlink(meta.path)
         else:
             meta = deepcopy(meta).thaw()
             meta.path = xpath
@@ -1296,7 +1331,7 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
             else:
                 if verbose:
                     print('=', path_msg(meta.path), file=sys.stderr)
-                meta.apply_to_path(restore_numeric_ids=restore_numeric_ids)
+                _apply_extracted(meta, meta.path, restore_numeric_ids)
     all_dirs.sort(key = lambda x : len(x.path), reverse=True)
     for dir in all_dirs:
         # Don't need to check xpath -- won't be in all_dirs if not OK.
@@ -1304,5 +1339,4 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
         if verbose:
             print('=', path_msg(xpath), file=sys.stderr)
         # Shouldn't have to check for risky paths here (omitted above).
-        dir.apply_to_path(path=dir.path,
-                          restore_numeric_ids=restore_numeric_ids)
+        _apply_extracted(dir, dir.path, restore_numeric_ids)
-- 
2.43.0


From ed90adda0caecf96bdcd401ce3f20cedc9dd3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 66/89] fix: bup get: make repeated targets build on each other

When several targets had the same destination, each one started from the
original ref, so that all but the last were silently lost.  For example
"--pick: foo/SAVE1 x --pick: foo/SAVE2 x" left only SAVE2 in x.
---
 lib/bup/cmd/get.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/bup/cmd/get.py b/lib/bup/cmd/get.py
index 6d48913..8acbd07 100644
--- a/lib/bup/cmd/get.py
+++ b/lib/bup/cmd/get.py
@@ -891,8 +891,9 @@ def get_everything(opt):
                              else x._replace(spec=dcreplace(x.spec, rewriter=rewriter)))
                             for x in target_items]
 
-            updated_refs = {}  # ref_name -> (original_ref, tip_commit(bin))
-            no_ref_info = (None, None)
+            # ref_name -> (original_ref, tip_commit(bin), tip Loc type)
+            updated_refs = {}
+            no_ref_info = (None, None, None)
 
             handlers = {'ff': handle_ff,
                         'append': handle_append,
@@ -916,9 +917,13 @@ def get_everything(opt):
                     dest_ref = None
 
                 dest_hash = item.dest and item.dest.hash
-                orig_ref, cur_ref = updated_refs.get(dest_ref, no_ref_info)
+                orig_ref, cur_ref, cur_type = \
+                    updated_refs.get(dest_ref, no_ref_info)
                 orig_ref = orig_ref or dest_hash
-                cur_ref = cur_ref or dest_hash
+                if cur_ref:
+                    # Start with the result of the previous target.
+                    item = item._replace(dest=item.dest._replace(hash=cur_ref,
+                                                                 type=cur_type))
 
                 handler = handlers[item.spec.method]
                 get_res = handler(item, src_repo, dest_repo)
@@ -927,7 +932,14 @@ def get_everything(opt):
                 if not dest_ref:
                     log_item(item.spec.src, item.src.type, opt)
                 else:
-                    updated_refs[dest_ref] = (orig_ref, get_res.oid)
+                    if not dest_ref.startswith(b'refs/tags/'):
+                        new_type = 'branch'
+                    elif item.spec.method in ('new-tag', 'replace') \
+                         and item.src.type not in ('branch', 'save'):
+                        new_type = item.src.type
+                    else:
+                        new_type = 'commit'
+                    updated_refs[dest_ref] = (orig_ref, get_res.oid, new_type)
                     if dest_ref.startswith(b'refs/tags/'):
                         log_item(item.spec.src, item.src.type, opt,
                                  tag=get_res.oid)
@@ -939,7 +951,7 @@ def get_everything(opt):
         # finished writing, so that if something goes wrong above, the old
         # refs will be undisturbed.
         for ref_name, info in updated_refs.items():
-            orig_ref, new_ref = info
+            orig_ref, new_ref, _ = info
             try:
                 dest_repo.update_ref(ref_name, new_ref, orig_ref)
                 if opt.verbose:
-- 
2.43.0


From 4527dc82464809b7d0fbe6b9de79d3efd004b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 67/89] fix: bup get: do not crash when a git: source is
 missing

---
 lib/bup/cmd/get.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/get.py b/lib/bup/cmd/get.py
index 8acbd07..88c3e4a 100644
--- a/lib/bup/cmd/get.py
+++ b/lib/bup/cmd/get.py
@@ -443,10 +443,10 @@ GitLoc = namedtuple('GitLoc', ('ref', 'hash', 'type'))
 
 def find_git_item(ref, repo):
     oidx, typ, _, it = repo.cat(ref)
-    # FIXME: don't include_data once repo supports it
-    for _ in it: pass
     if not oidx:
         return None
+    # FIXME: don't include_data once repo supports it
+    for _ in it: pass
     return GitLoc(ref, unhexlify(oidx), typ)
 
 
-- 
2.43.0


From f9f20e3fbf38c3d51438cb33fb138f2f45218a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 68/89] fix: demux: reject packets of unknown type

Previously they were ignored, but since their content was not consumed,
it was then parsed as further packets.
---
 lib/bup/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index e35524a..154c23e 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -615,6 +615,9 @@ class DemuxConn(BaseConn):
                 sys.stderr.buffer.write(buf)
                 buf = os.read(self.infd, 1024)
             sys.stderr.buffer.flush()
+        else:
+            # We have no idea what the n bytes that follow are
+            raise Exception(f'Unexpected packet type {fdw} (connection broken)')
         return True
 
     def _load_buf(self, timeout):
-- 
2.43.0


From e0bb48443651ecfcd983c584aed54622184354b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 69/89] fix: bup on: report failure to deliver the output

Previously demux's exit status was ignored, so that, for example, a
truncated stream from the remote was reported as success.
---
 lib/bup/cmd/on.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/on.py b/lib/bup/cmd/on.py
index d5b6525..020dbed 100644
--- a/lib/bup/cmd/on.py
+++ b/lib/bup/cmd/on.py
@@ -144,5 +144,5 @@ def main(argv):
                      timeout=1) as demux:
             if srv_config:
                 run_server(on_srv, srv_config)
-            demux.wait() # finish the output
-    return on_srv.returncode
+            demux_rc = demux.wait() # finish the output
+    return on_srv.returncode or demux_rc
-- 
2.43.0


From ecf5c2f1d50f8477d2dd1e7f23b5b3f62b4612f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 70/89] fix: client: don't request indexes that are already
 cached

A "dumb" server (bup-dumb-server) asks the client to load all of its
indexes, and the client gave up on the first one it already had, so
that only the first write to such a server could ever succeed.
---
 lib/bup/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index e118faf..cb3755b 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -413,14 +413,15 @@ class Client:
     def sync_indexes(self):
         mkdirp(self.cachedir)
         # All cached idxs are extra until proven otherwise
-        extra = set()
+        cached = set()
         for f in os.listdir(self.cachedir):
             debug1(pm(f) + '\n')
             if f.endswith(b'.idx'):
-                extra.add(f)
+                cached.add(f)
+        extra = set(cached)
         needed = set()
         for idx, load in self._list_indexes():
-            if load:
+            if load and idx not in cached:
                 # If the server requests that we load an idx and we don't
                 # already have a copy of it, it is needed
                 needed.add(idx)
-- 
2.43.0


From f7cf5f0660f5b9abe1abbbbee19b5cba592b6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 71/89] fix: fsck: don't crash when par2 isn't installed

Disable the recovery features, as intended.
---
 lib/bup/cmd/fsck.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 496edb3..48702db 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -48,6 +48,7 @@ def par2_setup():
                  check=False)
     except (FileNotFoundError, NotADirectoryError):
         log('fsck: warning: par2 not found; disabling recovery features.\n')
+        return
     if sp.returncode == 0:
         par2_ok = 1
         return
-- 
2.43.0


From 02af39dade2c4d859e97119ee17643e9eb8fd550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 72/89] fix: fsck: don't lose failures with --jobs

A child killed by a signal was taken for a success, and when some packs
were repaired, the failures of the last children were forgotten, so
that the exit status (1) claimed that all repairs had been successful.
---
 lib/bup/cmd/fsck.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 48702db..67de922 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -327,6 +327,13 @@ def merge_exits(pending, new):
     return pending
 
 
+def exit_status(wait_status):
+    """Return the exit status for the wait_status, or EXIT_FAILURE if
+    the process was killed by a signal."""
+    rc = os.waitstatus_to_exitcode(wait_status)
+    return rc if rc >= 0 else EXIT_FAILURE
+
+
 def main(argv):
     global opt, par2_ok
 
@@ -385,7 +392,7 @@ def main(argv):
         else:
             while len(outstanding) >= opt.jobs:
                 (pid,nc) = os.wait()
-                nc >>= 8
+                nc = exit_status(nc)
                 if pid in outstanding:
                     del outstanding[pid]
                     code = merge_exits(code, nc)
@@ -404,10 +411,10 @@ def main(argv):
 
     while len(outstanding):
         (pid,nc) = os.wait()
-        nc >>= 8
+        nc = exit_status(nc)
         if pid in outstanding:
             del outstanding[pid]
-            code = code or nc
+            code = merge_exits(code, nc)
             count += 1
         if not opt.verbose:
             progress('fsck (%d/%d)\r' % (count, len(pack_stems)))
-- 
2.43.0


From 0ee1bb4050d7cbb48b8a947a75c106f785bb4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 73/89] fix: fsck: report broken recovery files even after a
 repair

When some other pack had been repaired, the exit status (1) still
claimed that there weren't any other errors.
---
 lib/bup/cmd/fsck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 67de922..fbecba5 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -376,8 +376,7 @@ def main(argv):
         base = os.path.basename(stem)
         par2_status = par2_recovery_file_status(stem)
         if par2_status is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
             continue
         sys.stdout.flush()  # Not sure we still need this, but it'll flush out too
         debug('fsck: checking %r (%s)\n'
@@ -424,7 +423,6 @@ def main(argv):
     # double-check (e.g. for (unlikely) problems with generate tmpdir renames)
     for stem in pack_stems:
         if par2_recovery_file_status(stem) is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
 
     sys.exit(code)
-- 
2.43.0


From 64f3a05b4e1e3b21e73c3c68e070e4249bad541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 74/89] fix: fsck: handle pack and index files that are shorter
 than a checksum

Previously fsck crashed, so that they couldn't be repaired.
---
 lib/bup/cmd/fsck.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index fbecba5..a894d13 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -203,12 +203,16 @@ def trailing_and_actual_checksum(path):
     except FileNotFoundError:
         return None, None
     with f:
+        # Any truncated file is just broken too, i.e. never return equal values
+        size = os.fstat(f.fileno()).st_size
+        if size < 20:
+            return b'', Sha1(f.read()).digest()
         f.seek(-20, SEEK_END)
         trailing = f.read(20)
         assert len(trailing) == 20
         f.seek(0)
         actual = Sha1()
-        for b in chunkyreader(f, os.fstat(f.fileno()).st_size - 20):
+        for b in chunkyreader(f, size - 20):
             actual.update(b)
         return trailing, actual.digest()
 
-- 
2.43.0


From 849576aeb61d9f0cd7883f8e21d4c878aca7cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 75/89] fix: fsck: never report a repair that didn't help as a
 success

For example, par2 has nothing to repair when the pack was already
damaged when its recovery blocks were generated.
---
 lib/bup/cmd/fsck.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index a894d13..f33a829 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -265,6 +265,12 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
             if verbose: out.write(base + b' failed\n')
             return EXIT_FAILURE
         log(f'{path_msg(base)} index-pack succeeded\n')
+    # The pack might have already been damaged when the recovery data
+    # was generated, and a damaged index can have a valid checksum.
+    if not git_verify(stem, quick=opt.quick):
+        log(f'{path_msg(base)} still damaged after repair\n')
+        if verbose: out.write(base + b' failed\n')
+        return EXIT_FAILURE
     if verbose: out.write(base + b' repaired\n')
     # As with grep, test, and --par2-ok, we use 1 for communicating
     # information that's an expected possibility i.e. --repair needed
-- 
2.43.0


From c11e3965c728174d77e9982924a5927095160424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 76/89] fix: don't take repository paths for glob patterns

In a repository whose path contained any of the glob characters (i.e. *,
? and [), bup didn't find its own packs. So, for example, fsck and
validate-object-links succeeded without checking anything, gc collected
nothing, and saves stored everything again.
---
 lib/bup/cmd/bloom.py                 | 2 +-
 lib/bup/cmd/fsck.py                  | 4 ++--
 lib/bup/cmd/midx.py                  | 6 +++---
 lib/bup/cmd/validate_object_links.py | 2 +-
 lib/bup/gc.py                        | 8 ++++----
 lib/bup/git.py                       | 4 ++--
 lib/bup/midx.py                      | 2 +-
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index 2ae6ec1..55cf368 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -93,7 +93,7 @@ def do_bloom(path, outfilename, k, force):
         rest = []
         add_count = 0
         rest_count = 0
-        for i, name in enumerate(glob.glob(b'%s/*.idx' % path)):
+        for i, name in enumerate(glob.glob(b'%s/*.idx' % glob.escape(path))):
             progress('bloom: counting: %d\r' % i)
             with git.open_idx(name) as ix:
                 ixbase = os.path.basename(name)
diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index f33a829..baaf7ff 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -32,7 +32,7 @@ def report_stray_pack_related_files(repo, pack_paths):
 
     # Pack-related is currently pack-40HEX or pack-40HEX.*
     pack_related_rx = re.compile(br'(?:^|/)pack-([a-f0-9]{40})(?:\..*)?$')
-    for path in glob.glob(repo + b'/objects/pack/pack-*'):
+    for path in glob.glob(glob.escape(repo) + b'/objects/pack/pack-*'):
         m = pack_related_rx.search(path)
         if not m or m.group(1) in pack_oidxs:
             continue
@@ -372,7 +372,7 @@ def main(argv):
     else:
         debug('fsck: No filenames given: checking all packs.\n')
         git.check_repo_or_die()
-        pack_files = glob.glob(git.repo(b'objects/pack/*.pack'))
+        pack_files = glob.glob(glob.escape(git.repo(b'objects/pack')) + b'/*.pack')
         report_stray_pack_related_files(git.repo(), pack_files)
         pack_stems = [x[:-5] for x in pack_files]
 
diff --git a/lib/bup/cmd/midx.py b/lib/bup/cmd/midx.py
index 479d0c2..c7203e9 100644
--- a/lib/bup/cmd/midx.py
+++ b/lib/bup/cmd/midx.py
@@ -201,7 +201,7 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
     else:
         midxs = []
         contents = {}
-        for mname in glob.glob(b'%s/*.midx' % path):
+        for mname in glob.glob(b'%s/*.midx' % glob.escape(path)):
             m = _maybe_open_midx(mname, rm_broken=auto or force)
             if not m:
                 continue
@@ -226,7 +226,7 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
                 already[mname] = 1
 
     midxs = [k for k in midxs if not already.get(k)]
-    idxs = [k for k in glob.glob(b'%s/*.idx' % path) if not already.get(k)]
+    idxs = [k for k in glob.glob(b'%s/*.idx' % glob.escape(path)) if not already.get(k)]
 
     for iname in idxs:
         with git.open_idx(iname) as i:
@@ -305,7 +305,7 @@ def main(argv):
             midxes = extra
         else:
             debug1('midx: scanning %s\n' % path)
-            midxes = glob.glob(os.path.join(path, b'*.midx'))
+            midxes = glob.glob(os.path.join(glob.escape(path), b'*.midx'))
         for name in midxes:
             check_midx(name)
         if not saved_errors:
diff --git a/lib/bup/cmd/validate_object_links.py b/lib/bup/cmd/validate_object_links.py
index 5855dbc..a8d7c7d 100644
--- a/lib/bup/cmd/validate_object_links.py
+++ b/lib/bup/cmd/validate_object_links.py
@@ -86,7 +86,7 @@ def main(argv):
     cp = git.catpipe()
     ret = EXIT_TRUE
     with git.PackIdxList(git.repo(b'objects/pack')) as mi:
-        idxlist = glob.glob(path.join(git.repo(b'objects/pack'), b'*.idx'))
+        idxlist = glob.glob(path.join(glob.escape(git.repo(b'objects/pack')), b'*.idx'))
         obj_n = 0
         for idxname in idxlist:
             with git.open_idx(idxname) as idx:
diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index b7213b6..57135d1 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -56,7 +56,7 @@ def count_objects(dir, verbosity):
     # more efficient since all we need is a single integer (the last
     # fanout entry) from each index.
     object_count = 0
-    indexes = glob.glob(os.path.join(dir, b'*.idx'))
+    indexes = glob.glob(os.path.join(glob.escape(dir), b'*.idx'))
     for i, idx_name in enumerate(indexes):
         if verbosity:
             qprogress('found %d objects (%d/%d %s)\r'
@@ -163,7 +163,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
             # before or after the old pack is marked as stale.
             if stem in new_packs:
                 continue
-            for p in glob.glob(stem + b'.*'):
+            for p in glob.glob(glob.escape(stem) + b'.*'):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
                 os.unlink(p)
@@ -180,7 +180,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
         # FIXME: sanity check .idx names vs .pack names?
         collect_count = 0
         rewritten = set() # oids, the packs may have objects in common
-        for idx_name in glob.glob(os.path.join(git.repo(b'objects/pack'), b'*.idx')):
+        for idx_name in glob.glob(os.path.join(glob.escape(git.repo(b'objects/pack')), b'*.idx')):
             if verbosity:
                 qprogress('preserving live data (%d%% complete)\r'
                           % ((float(collect_count) / existing_count) * 100))
@@ -237,7 +237,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
         # Nothing should have recreated midx/bloom yet.
         pack_dir = git.repo(b'objects/pack')
         assert(not os.path.exists(os.path.join(pack_dir, b'bup.bloom')))
-        assert(not glob.glob(os.path.join(pack_dir, b'*.midx')))
+        assert(not glob.glob(os.path.join(glob.escape(pack_dir), b'*.midx')))
 
     except BaseException as ex:
         repo.abort_writing()
diff --git a/lib/bup/git.py b/lib/bup/git.py
index e4b7be7..91ce60c 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -670,7 +670,7 @@ class PackIdxList:
         if os.path.exists(self.dir):
             if not skip_midx:
                 midxl = []
-                midxes = set(glob.glob(os.path.join(self.dir, b'*.midx')))
+                midxes = set(glob.glob(os.path.join(glob.escape(self.dir), b'*.midx')))
                 # remove any *.midx files from our list that no longer exist
                 for ix in list(d.values()):
                     if not isinstance(ix, midx.PackMidx):
@@ -720,7 +720,7 @@ class PackIdxList:
                                % path_msg(os.path.basename(ix.name)))
                         ix.close()
                         unlink(ix.name)
-            for full in glob.glob(os.path.join(self.dir, b'*.idx')):
+            for full in glob.glob(os.path.join(glob.escape(self.dir), b'*.idx')):
                 if not d.get(full):
                     try:
                         ix = open_idx(full)
diff --git a/lib/bup/midx.py b/lib/bup/midx.py
index e7eec42..f0d3452 100644
--- a/lib/bup/midx.py
+++ b/lib/bup/midx.py
@@ -190,5 +190,5 @@ def open_midx(path, *, ignore_missing=True):
 
 
 def clear_midxes(dir=None):
-    for midx in glob.glob(os.path.join(dir, b'*.midx')):
+    for midx in glob.glob(os.path.join(glob.escape(dir), b'*.midx')):
         os.unlink(midx)
-- 
2.43.0


From f4280f5ec70282d49d9ba9b304443e50a80e50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 77/89] fix: fsck: recreate missing indexes when repairing

The missing index was taken for a correct one, and the repair was
reported as a success.
---
 lib/bup/cmd/fsck.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index baaf7ff..c458e4b 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -250,14 +250,12 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
         if verbose: out.write(base + b' failed\n')
         return EXIT_FAILURE
     log(f'{path_msg(base)} par2 repair: succeeded, checking .idx\n')
-    try:
-        exp, act = trailing_and_actual_checksum(stem + b'.idx')
-        idx_ok = exp == act
-        if not idx_ok:
-            os.unlink(stem + b'.idx')
-    except FileNotFoundError:
-        idx_ok = False
+    exp, act = trailing_and_actual_checksum(stem + b'.idx')
+    idx_missing = act is None
+    idx_ok = not idx_missing and exp == act
     if not idx_ok:
+        if not idx_missing:
+            os.unlink(stem + b'.idx')
         cmd = (b'git', b'index-pack', stem + b'.pack')
         idx_rc = run(cmd).returncode
         if idx_rc:
-- 
2.43.0


From b7657f2ff64f6ead552291234a258df3f6df23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 78/89] fix: fsck: run par2 in the pack directory

par2 refuses to handle paths that contain wildcards, so neither
verification nor repair worked in repositories with such a path.
---
 lib/bup/cmd/fsck.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index c458e4b..42a4365 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -187,14 +187,17 @@ def par2_recovery_file_status(stem):
     return False
 
 def par2_verify(base):
-    rc = par2(b'verify', [b'--', base], verb_floor=3)
+    # par2 rejects paths containing wildcards
+    parent, name = os.path.split(base)
+    rc = par2(b'verify', [b'--', name], verb_floor=3, cwd=parent or None)
     if rc != 0:
         log(f'error: par2 verify failed ({rc}) {path_msg(base)}\n')
         return False
     return True
 
 def par2_repair(base):
-    return par2(b'repair', [b'--', base], verb_floor=2)
+    parent, name = os.path.split(base)
+    return par2(b'repair', [b'--', name], verb_floor=2, cwd=parent or None)
 
 
 def trailing_and_actual_checksum(path):
-- 
2.43.0


From 3d1ed7bc4f1d0c72c7c62d7f58c7f6aae5daa234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 79/89] fix: save: skip symlinks that can't be read instead of
 crashing

---
 lib/bup/cmd/save.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index d670495..5f0e5fa 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -431,7 +431,11 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             elif stat.S_ISDIR(ent.mode):
                 assert(0)  # handled above
             elif stat.S_ISLNK(ent.mode):
-                mode, id = (GIT_MODE_SYMLINK, repo.write_symlink(meta.symlink_target))
+                if meta.symlink_target is None:
+                    # from_path() couldn't read it, and has said so
+                    lastskip_name = ent.name
+                else:
+                    mode, id = (GIT_MODE_SYMLINK, repo.write_symlink(meta.symlink_target))
             else:
                 # Everything else should be fully described by its
                 # metadata, so just record an empty blob, so the paths
-- 
2.43.0


From b21b375dfa2fbb903cdf888da7d671c319eb7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 80/89] fix: random: report write errors

---
 lib/bup/_helpers.c    | 4 ++--
 lib/bup/cmd/random.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index f146ba3..1b230d2 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -996,7 +996,7 @@ static PyObject *write_random(PyObject *self, PyObject *args)
 	    buf[i] = (uint32_t) random();
 	ret = write(fd, buf, sizeof(buf));
 	if (ret < 0)
-	    ret = 0;
+	    return PyErr_SetFromErrno(PyExc_OSError);
 	written += ret;
 	if (ret < (int)sizeof(buf))
 	    break;
@@ -1012,7 +1012,7 @@ static PyObject *write_random(PyObject *self, PyObject *args)
 	    buf[i] = (uint32_t) random();
 	ret = write(fd, buf, len % 1024);
 	if (ret < 0)
-	    ret = 0;
+	    return PyErr_SetFromErrno(PyExc_OSError);
 	written += ret;
     }
     
diff --git a/lib/bup/cmd/random.py b/lib/bup/cmd/random.py
index 33caa32..2d40aed 100644
--- a/lib/bup/cmd/random.py
+++ b/lib/bup/cmd/random.py
@@ -28,8 +28,11 @@ def main(argv):
     handle_ctrl_c()
 
     if opt.force or not istty1:
-        _helpers.write_random(sys.stdout.fileno(), total, opt.seed,
-                              opt.verbose and 1 or 0)
+        written = _helpers.write_random(sys.stdout.fileno(), total, opt.seed,
+                                        opt.verbose and 1 or 0)
+        if written != total:
+            log(f'error: only wrote {written} of {total} bytes\n')
+            sys.exit(EXIT_FAILURE)
     else:
         log('error: not writing binary data to a terminal. Use -f to force.\n')
         sys.exit(EXIT_FAILURE)
-- 
2.43.0


From 45f2fd3a8b4cb9c2a5648d0efcc24d78bfb835f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 81/89] fix: save: don't remember a directory whose metadata
 couldn't be read

---
 lib/bup/cmd/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 5f0e5fa..8d67648 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -348,7 +348,7 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                     if fs_path else empty_metadata
             except (OSError, IOError) as e:
                 add_error(e)
-                lastskip_name = dir_name
+                lastskip_name = slashappend(fs_path)
                 meta = empty_metadata
             stack.push(dir_name, meta)
 
-- 
2.43.0


From 172044cc6c635dfad0d28a3f29a503787155275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 82/89] fix: client: don't hang when a suggested index can't be
 stored

---
 lib/bup/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index cb3755b..ed912fd 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -717,7 +717,13 @@ class RemotePackStore:
 
         if self._conn.has_input():
             self._objcache.close_temps()
-            self._suggest_packs()
+            try:
+                self._suggest_packs()
+            except:
+                # The server has been told to suspend, and isn't
+                # waiting for objects anymore.
+                self._packopen = False
+                raise
             self._objcache.refresh()
 
         return len(data), crc
-- 
2.43.0


From e36e7f7e65288e11681a80a684c392dd2aa60889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 83/89] fix: meta: report errors when writing the end of --file

---
 lib/bup/cmd/meta.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/bup/cmd/meta.py b/lib/bup/cmd/meta.py
index 95b796d..ba4fa73 100644
--- a/lib/bup/cmd/meta.py
+++ b/lib/bup/cmd/meta.py
@@ -26,6 +26,12 @@ def open_output(name):
     return open(name, 'wb')
 
 
+def finish_output(f):
+    f.flush()
+    if f is not byte_stream(sys.stdout):
+        f.close()
+
+
 optspec = """
 bup meta --create [OPTION ...] <PATH ...>
 bup meta --list [OPTION ...]
@@ -85,6 +91,7 @@ def main(argv):
                            write_paths=opt.paths,
                            save_symlinks=opt.symlinks,
                            xdev=opt.xdev)
+        finish_output(output_file)
     elif opt.list:
         if len(remainder) > 0:
             o.fatal("cannot specify paths for --list")
@@ -151,3 +158,4 @@ def main(argv):
                         m.group = argv_bytes(opt.set_group)
 
                     m.freeze().write(output_file)
+        finish_output(output_file)
-- 
2.43.0


From 0d84da4dc57743337d23046273390e5eb60cf915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 84/89] fix: index: don't give up when a directory can't be
 listed

---
 lib/bup/drecurse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/bup/drecurse.py b/lib/bup/drecurse.py
index c7919a2..7c59fce 100644
--- a/lib/bup/drecurse.py
+++ b/lib/bup/drecurse.py
@@ -16,7 +16,12 @@ from bup.io import path_msg as pm
 
 def _dirlist(fd, path):
     l = []
-    for n in os.listdir(fd):
+    try:
+        names = os.listdir(fd)
+    except OSError as e:
+        add_error(Exception(f'{pm(path)}: {e}'))
+        return l
+    for n in names:
         try:
             st = xstat.lstat(n, dir_fd=fd)
         except OSError as e:
-- 
2.43.0


From a6155eb765ae7c48b3b765a0e7ed30c5f2a70a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 85/89] fix: index: don't crash on an unreadable path that
 isn't UTF-8

---
 lib/bup/drecurse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/drecurse.py b/lib/bup/drecurse.py
index 7c59fce..602fd4a 100644
--- a/lib/bup/drecurse.py
+++ b/lib/bup/drecurse.py
@@ -25,7 +25,7 @@ def _dirlist(fd, path):
         try:
             st = xstat.lstat(n, dir_fd=fd)
         except OSError as e:
-            add_error(Exception(f'{pm(resolve_parent(path))}/{n}: {e}'))
+            add_error(Exception(f'{pm(resolve_parent(path))}/{pm(fsencode(n))}: {e.strerror}'))
             continue
         l.append((fsencode(n + '/' if S_ISDIR(st.st_mode) else n), st))
     l.sort(reverse=True)
-- 
2.43.0


From 2b3d0e7600e03593746f2f18d213088f58d8c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 86/89] fix: save: don't take repository errors for unreadable
 files

---
 lib/bup/cmd/save.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 8d67648..37961e2 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -14,6 +14,7 @@ from bup.hashsplit import \
      GIT_MODE_FILE,
      GIT_MODE_SYMLINK,
      split_to_blob_or_tree)
+from bup.git import GitError
 from bup.helpers import \
     (EXIT_FAILURE,
      add_error,
@@ -145,6 +146,18 @@ def opts_from_cmdline(argv):
 
     return opt, o
 
+def store(write, data):
+    """Return write(data).  Raise any OSError as a GitError, so that it
+    isn't taken for a problem with the file that's being saved; objects
+    that have already been written may be gone.
+
+    """
+    try:
+        return write(data)
+    except OSError as e:
+        raise GitError(f'unable to store data: {e}') from e
+
+
 def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
     # Metadata is stored in a file named .bupm in each directory.  The
     # first metadata entry will be the metadata for the current directory.
@@ -416,13 +429,15 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                     meta.thaw().size = 0
                     def write_data(data):
                         meta.size += len(data)
-                        return repo.write_data(data)
+                        return store(repo.write_data, data)
+                    def write_tree(shalist):
+                        return store(repo.write_tree, shalist)
                     before_saving_regular_file(ent.name)
 
                     with open(open_noatime(ent.name, O_RDONLY | O_NOFOLLOW),
                               'rb', buffering=1024 * 1024) as f:
                         mode, id = \
-                            split_to_blob_or_tree(write_data, repo.write_tree,
+                            split_to_blob_or_tree(write_data, write_tree,
                                                   hashsplit.from_config([f], split_cfg))
                     meta.freeze()
                 except (IOError, OSError) as e:
-- 
2.43.0


From 976d2a5aa63dbd9c8a6eedf087bc31749f662ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:34 +0000
Subject: [PATCH 87/89] fix: daemon: let --listen and --port take their
 arguments

---
 lib/bup/cmd/daemon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/daemon.py b/lib/bup/cmd/daemon.py
index 63fb0d6..3b0193a 100644
--- a/lib/bup/cmd/daemon.py
+++ b/lib/bup/cmd/daemon.py
@@ -12,8 +12,8 @@ from bup.helpers import EXIT_FAILURE, log, debug1
 optspec = """
 bup daemon [options...] -- [bup-server options...]
 --
-l,listen  ip address to listen on, defaults to *
-p,port    port to listen on, defaults to 1982
+l,listen= ip address to listen on, defaults to *
+p,port=   port to listen on, defaults to 1982
 """
 
 def main(argv):
-- 
2.43.0


From e4a4dddf6d42df9547548f3b9ae3d8e6e0db38f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 88/89] fix: daemon: report why it can't listen instead of
 crashing

---
 lib/bup/cmd/daemon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/daemon.py b/lib/bup/cmd/daemon.py
index 3b0193a..d8560b3 100644
--- a/lib/bup/cmd/daemon.py
+++ b/lib/bup/cmd/daemon.py
@@ -29,7 +29,8 @@ def main(argv):
         af, socktype, proto, canonname_, sa = res
         try:
             s = socket.socket(af, socktype, proto)
-        except socket.error:
+        except socket.error as ex:
+            e = ex
             continue
         try:
             if af == socket.AF_INET6:
@@ -40,7 +41,8 @@ def main(argv):
             s.bind(sa)
             s.listen(1)
             fcntl.fcntl(s.fileno(), fcntl.F_SETFD, fcntl.FD_CLOEXEC)
-        except socket.error:
+        except socket.error as ex:
+            e = ex
             s.close()
             continue
         socks.append(s)
-- 
2.43.0


From 80133860d07195e3c6e874007e75e270cf53f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:23 +0000
Subject: [PATCH 89/89] fix: server: serve the directory named by a second
 set-dir, not the default one

---
 lib/bup/protocol.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index 1aadb98..39cb154 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -226,12 +226,11 @@ class Server:
         self.conn.ok()
 
     def init_session(self, repo_dir=None):
-        if self.repo:
-            if repo_dir:
-                self.repo.close()
-                self.repo = None
-                self.suspended = False
-        else:
+        if self.repo and repo_dir:
+            self.repo.close()
+            self.repo = None
+            self.suspended = False
+        if not self.repo:
             self.repo = self._backend(repo_dir, server=True)
             dw = self.repo.config_get(b'bup.server.deduplicate-writes', opttype='bool')
             self._deduplicate_writes = True if dw is None else dw
-- 
2.43.0

