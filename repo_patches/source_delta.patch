From 1df74b9bff765016fbad3691236e79e7ba90277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 01/71] fix: range_strings: do not write a terminator into
 zero-size ranges

---
 src/util/range_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2980afd..2da43e9 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -206,12 +206,12 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
   rval = src - str; // Number of bytes copied
 
   if(!done) { // Truncated
-    if(truncate) {
+    if(truncate && dest > rng->start) {
       dest--;
       *dest = '\0';
       rval = -(rval-1);
     } else {
-      if(rng->start)
+      if(rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
       rval = -(rval + strlen(src)); // Add uncopied bytes
     }
@@ -321,7 +321,7 @@ int range_cat_str(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -361,7 +361,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -410,7 +410,7 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -459,7 +459,7 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
-- 
2.43.0


From bf333a102af14821232733fec39994300ec75b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:10 +0000
Subject: [PATCH 02/71] fix: range_strings: append without NUL, INT_MIN and
 zero-size range handling

---
 src/util/range_strings.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2da43e9..53b66ee 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -359,7 +359,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   rval = src - str; // Number of bytes copied
 
   if(done) {
-    rng->start = dest-1;
+    rng->start = dest;
   } else { // Truncated
     if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
@@ -557,12 +557,13 @@ Returns:
 */
 int range_cat_int(AppendRange *rng, int32_t n) {
   int s_chars = 0;
+  uint32_t magnitude = (uint32_t)n;
   if(n < 0) {
-    n = -n; // NOTE: Does not work with INT_MIN
+    magnitude = -magnitude; // Unsigned negation is defined for INT_MIN
     s_chars = range_cat_char(rng, '-');
   }
 
-  int n_chars = range_cat_uint(rng, n);
+  int n_chars = range_cat_uint(rng, magnitude);
   if(n_chars < 0 && s_chars > 0)
     s_chars = -s_chars;
 
@@ -801,6 +802,8 @@ Returns:
   Number of pad bytes written
 */
 int range_pad_right(StringRange *rng, char pad) {
+  if(rng->start >= rng->end) return 0; // No room for a NUL
+
   size_t width = range_size(rng) - 1;
 
   size_t pad_num = 0;
@@ -874,6 +877,8 @@ Args:
   rng: The range to terminate
 */
 void range_terminate(AppendRange *rng) {
+  if(rng->start >= rng->end) return; // No room for a NUL
+
   size_t maxlen = range_size(rng);
   size_t rlen = strnlen(rng->start, maxlen);
 
-- 
2.43.0


From 521b34cd2196ffd78093a3c4ca8a4c1381440b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:23 +0000
Subject: [PATCH 03/71] fix: range_copy_str: distinguish truncation to an empty
 string from success

---
 src/util/range_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 53b66ee..e7b471f 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -209,7 +209,7 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
     if(truncate && dest > rng->start) {
       dest--;
       *dest = '\0';
-      rval = -(rval-1);
+      rval = -rval; // One more than the bytes kept so that 0 bytes is distinct
     } else {
       if(rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
-- 
2.43.0


From 14156f85a220ccde4704e280f53cc2ca8c1352e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 04/71] fix: range_token_limit: do not read past the limit or
 return an empty trailing token

---
 src/util/range_strings.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index e7b471f..2954a1a 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -1058,26 +1058,24 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
     return false;
 
 
-  // Skip leading delimiters
-  size_t consumed = strspn(str, delim);
-  str += consumed;
-  if(*str == '\0') // No more tokens
-    return false;
+  // Skip leading delimiters without reading past the limit
+  size_t remain = *limit;
+  while(remain > 0 && *str != '\0' && strchr(delim, *str)) {
+    str++;
+    remain--;
+  }
 
-  // Get token length
-  size_t tok_len = strcspn(str, delim);
-  if(consumed + tok_len > *limit) {// Truncate token
-    if(consumed <= *limit)
-      tok_len = *limit - consumed;
-    else
-      tok_len = 0;
+  if(remain == 0 || *str == '\0') { // No more tokens
+    *limit = 0;
+    return false;
   }
-  consumed += tok_len;
 
-  if(consumed > *limit)
-    consumed = *limit;
+  // Get token length
+  size_t tok_len = 0;
+  while(tok_len < remain && str[tok_len] != '\0' && !strchr(delim, str[tok_len]))
+    tok_len++;
 
-  *limit -= consumed;
+  *limit = remain - tok_len;
 
   // Save token
   token->start = (char *)str;
-- 
2.43.0


From e02e7d25a8836d82badf63acf6b5adeb9aafc76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:52 +0000
Subject: [PATCH 05/71] fix: path normalize: names that begin with two dots are
 not parent references

---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..e27fcbc 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -301,7 +301,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_eq(&token, "..")) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -423,7 +423,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_eq(&token, "..")) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From 8bfaa95b299f264232eee654464aeccb63fe42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 06/71] fix: path normalize: do not write a terminator into a
 zero-size output range

---
 src/evfs_path.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index e27fcbc..2d67e39 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -368,7 +368,10 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   }
 
   // Add NUL
-  *norm_r.start = '\0';
+  if(norm_r.start < norm_r.end)
+    *norm_r.start = '\0';
+  else
+    truncated = true;
 
   if(truncated)
     THROW(EVFS_ERR_OVERFLOW);
@@ -462,7 +465,10 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   }
 
   // Add NUL
-  *normalized->start = '\0';
+  if(normalized->start < normalized->end)
+    *normalized->start = '\0';
+  else
+    truncated = true;
 
   evfs_free(tok_stack);
 
-- 
2.43.0


From 88473f34ca536aec7409914f4c4b6e303b941c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 07/71] fix: path basename, dirname and extname: follow os.path
 for empty parts, repeated separators and leading periods

---
 src/evfs_path.c | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 2d67e39..9f329d9 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -95,15 +95,12 @@ Returns:
 int evfs_path_basename(const char *path, StringRange *tail) {
   if(PTR_CHECK(path) || PTR_CHECK(tail)) return EVFS_ERR_BAD_ARG;
   const char *end = (char *)path + strlen(path);
-  const char *pos = end - 1;
+  const char *pos = end;
 
   // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
+  while(pos > path && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
     pos--;
 
-  if(char_match(*pos, EVFS_PATH_SEPS))
-    pos++;
-
   range_init(tail, pos, end-pos);
 
   return EVFS_OK;
@@ -129,16 +126,19 @@ int evfs_path_extname(const char *path, StringRange *ext) {
   evfs_path_basename(path, ext);
   const char *pos = ext->end;
 
-  if(range_size(ext) > 0) {
-    // Scan back for first period
-    while(pos > ext->start) {
-      if(*pos == '.')
-        break;
-      pos--;
-    }
+  // Leading periods are part of the name
+  const char *name = ext->start;
+  while(name < ext->end && *name == '.')
+    name++;
+
+  // Scan back for first period
+  while(pos > name) {
+    if(*pos == '.')
+      break;
+    pos--;
   }
 
-  if(pos > ext->start) { // Extension found
+  if(pos > name) { // Extension found
     ext->start = pos;
   } else { // Return empty range
     ext->start = ext->end;
@@ -150,20 +150,22 @@ int evfs_path_extname(const char *path, StringRange *ext) {
 
 int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
   if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(head)) return EVFS_ERR_BAD_ARG;
-  const char *end = (char *)path + strlen(path) + 1;
-  const char *pos = end - 1;
-
-  // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
-    pos--;
+  const char *end = (char *)path + strlen(path);
+  const char *pos = end;
 
   // If this is a root path we keep a trailing slash
   // We could have multiple root separators. Keep them all
   StringRange root;
   vfs->m_path_root_component(vfs, path, &root);
-  if(pos == path + range_size(&root)-1 && char_match(*pos, EVFS_PATH_SEPS)) {
-    pos++;
-  }
+  const char *root_end = path + range_size(&root);
+
+  // Look for rightmost delimiter
+  while(pos > root_end && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
+    pos--;
+
+  // Remove trailing separators after the root
+  while(pos > root_end && char_match(*(pos-1), EVFS_PATH_SEPS))
+    pos--;
 
   range_init(head, path, pos - path);
 
-- 
2.43.0


From 27943b61566d9f962945c251f65550305c01be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 08/71] fix: path join: account for the terminator and do not
 read past a substring head

---
 src/evfs_path.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 9f329d9..f611696 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -203,7 +203,9 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   if(ASSERT(joined_len < EVFS_MAX_PATH, "joined string too long")) return EVFS_ERR_OVERFLOW;
 #endif
 
-  if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
+  // Need room for at least the joined string without a separator and a NUL
+  size_t joined_size = range_size(&joined_a);
+  if(ASSERT(head_len + tail_len < joined_size, "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
   range_cat_range(&joined_a, head);
@@ -212,10 +214,13 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   // If head is empty no separator
   // If head is only a root component we don't need to add an extra separator
   StringRange root;
-  vfs->m_path_root_component(vfs, head->start, &root);
+  vfs->m_path_root_component(vfs, joined->start, &root); // This copy of head is always terminated
+
+  if(head_len > 0 && head_len != (size_t)range_size(&root)) {
+    if(ASSERT(joined_len < joined_size, "joined string too long")) return EVFS_ERR_OVERFLOW;
 
-  if(head_len > 0 && head_len != (size_t)range_size(&root))
     range_cat_char(&joined_a, EVFS_DIR_SEP);
+  }
 
   if(tail_len > 0)
     range_cat_range(&joined_a, tail);
-- 
2.43.0


From 8899f09d271c3a9ef5d4a6c7b83735b2aa3f42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 09/71] fix: jail: refuse paths that cannot be represented
 instead of passing a different path down

---
 src/shim_jail.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..494b85c 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,17 +81,19 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 || range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    return EVFS_ERR_OVERFLOW;
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK)
+    return status;
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +108,7 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+  return EVFS_OK;
 }
 
 
@@ -276,9 +279,10 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +308,10 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +325,10 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +341,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +362,10 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +383,10 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
-- 
2.43.0


From 3e43f564efcb8fc6e1bacd8ac1aac7ee28a7c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 10/71] fix: jail: fail registration when the jail root is
 missing or too long

---
 src/shim_jail.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 494b85c..44c9a8f 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -505,7 +505,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const char *jail_root, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(jail_root)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   JailData *shim_data;
@@ -516,7 +516,8 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int status = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(status != EVFS_OK) return status;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
-- 
2.43.0


From 0b620e8ee53dc5ea4046b1ec3e53399468332529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 11/71] fix: jail: keep a normalized current directory, report
 errors setting it and lock it

---
 src/shim_jail.c | 80 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 44c9a8f..d9cae85 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -41,9 +41,15 @@ Embedded Virtual Filesystem
 #ifdef USE_JAIL_LOCK
 #  define LOCK()    evfs__lock(&shim_data->jail_lock)
 #  define UNLOCK()  evfs__unlock(&shim_data->jail_lock)
+
+// The current directory is read while jail_lock is held so it needs its own lock
+#  define CWD_LOCK()    evfs__lock(&shim_data->cwd_lock)
+#  define CWD_UNLOCK()  evfs__unlock(&shim_data->cwd_lock)
 #else
 #  define LOCK()
 #  define UNLOCK()
+#  define CWD_LOCK()
+#  define CWD_UNLOCK()
 #endif
 
 
@@ -63,6 +69,7 @@ typedef struct JailData_s {
   char        tmp_path[EVFS_MAX_PATH]; // Shared buffer for unjailed paths
 #ifdef USE_JAIL_LOCK
   EvfsLock    jail_lock; // Serialize access to shared tmp_path buffer
+  EvfsLock    cwd_lock;  // Serialize access to cur_dir
 #endif
 } JailData;
 
@@ -408,12 +415,14 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 // Track the current directory in fs_data
 static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
-  JailData *fs_data = (JailData *)vfs->fs_data;
+  JailData *shim_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
-  
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
-  return EVFS_OK;
+
+  CWD_LOCK();
+  int copied = range_cat_str(&r, shim_data->cur_dir);
+  CWD_UNLOCK();
+
+  return copied < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -421,41 +430,43 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-
-    strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
-    shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
+  // Note: jail__stat() takes the jail lock so we work on local buffers.
+  char old_dir[EVFS_MAX_PATH];
+  char joined_path[EVFS_MAX_PATH];
+  char new_dir[EVFS_MAX_PATH];
+  bool is_absolute = evfs_vfs_path_is_absolute(vfs, path);
+  bool changed;
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
+  do {
+    StringRange old_dir_r = RANGE_FROM_ARRAY(old_dir);
+    int status = jail__get_cur_dir(vfs, &old_dir_r);
+    if(status != EVFS_OK) return status;
 
-    range_init(&head, shim_data->cur_dir, sizeof(shim_data->cur_dir));
-    range_init(&tail, (char *)path, strlen(path));
+    const char *full_path = path;
 
-    // Note: evfs__vfs_existing_dir() below is going to take the lock (via jail__stat) so
-    //       we have to malloc a buffer.
-    size_t joined_size = strlen(shim_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
+    if(!is_absolute) { // Path is relative: Join it to the existing directory
+      StringRange joined = RANGE_FROM_ARRAY(joined_path);
+      status = evfs_vfs_path_join_str(vfs, old_dir, path, &joined);
+      if(status != EVFS_OK) return status;
 
-    range_init(&joined, joined_path, joined_size);
+      full_path = joined_path;
+    }
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
+    status = evfs_vfs_path_normalize(vfs, full_path, &new_dir_r);
+    if(status != EVFS_OK) return status;
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
+    if(!evfs__vfs_existing_dir(vfs, full_path))
       return EVFS_ERR_NO_PATH;
-    }
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-
-    evfs_free(joined_path);
-  }
+    // Overwrite old cur_dir unless another thread has moved a relative base
+    CWD_LOCK();
+    changed = !is_absolute && strcmp(old_dir, shim_data->cur_dir) != 0;
+    if(!changed)
+      strcpy(shim_data->cur_dir, new_dir);
+    CWD_UNLOCK();
+  } while(changed);
 
   return EVFS_OK;
 }
@@ -471,6 +482,7 @@ static int jail__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
   if(cmd == EVFS_CMD_UNREGISTER) {
 #ifdef USE_JAIL_LOCK
       evfs__lock_destroy(&shim_data->jail_lock);
+      evfs__lock_destroy(&shim_data->cwd_lock);
 #endif
       evfs_free(vfs); // Free this trace VFS
       return EVFS_OK;
@@ -561,6 +573,12 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
     evfs_free(shim_vfs);
     THROW(EVFS_ERR_INIT);
   }
+
+  if(evfs__lock_init(&shim_data->cwd_lock) != EVFS_OK) {
+    evfs__lock_destroy(&shim_data->jail_lock);
+    evfs_free(shim_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 #endif
 
   return evfs_register(shim_vfs, default_vfs);
-- 
2.43.0


From 117e85c2849ae007573bfcccf3b095d47fff8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 12/71] fix: trace: report offsets and positions with their
 real values

---
 src/shim_trace.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/shim_trace.c b/src/shim_trace.c
index 497dbb5..d0d43d1 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -185,7 +185,7 @@ static int trace__file_truncate(EvfsFile *fh, evfs_off_t size) {
   TraceFile *fil = (TraceFile *)fh;
   TraceData *shim_data = fil->shim_data;
 
-  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, size);
+  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, (long)size);
   int status = fil->base_file->methods->m_truncate(fil->base_file, size);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
@@ -212,7 +212,7 @@ static evfs_off_t trace__file_size(EvfsFile *fh) {
 
   trace_printf(shim_data, TP("%s.m_size(" HL_NAME ")"), shim_data->vfs_name, fil->filename);
   evfs_off_t size = fil->base_file->methods->m_size(fil->base_file);
-  trace_printf(shim_data, TS(" -> %d"), size);
+  trace_printf(shim_data, TS(" -> %ld"), (long)size);
 
   return size;
 }
@@ -231,7 +231,7 @@ static int trace__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   }
 
   trace_printf(shim_data, TP("%s.m_seek(" HL_NAME ", offset=%ld, origin=%s)"),
-               shim_data->vfs_name, fil->filename, offset, org_name);
+               shim_data->vfs_name, fil->filename, (long)offset, org_name);
   int status = fil->base_file->methods->m_seek(fil->base_file, offset, origin);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
@@ -245,7 +245,7 @@ static evfs_off_t trace__file_tell(EvfsFile *fh) {
 
   trace_printf(shim_data, TP("%s.m_tell(" HL_NAME ")"), shim_data->vfs_name, fil->filename);
   evfs_off_t pos = fil->base_file->methods->m_tell(fil->base_file);
-  trace_printf(shim_data, TS(" -> %d"), pos);
+  trace_printf(shim_data, TS(" -> %ld"), (long)pos);
 
   return pos;
 }
-- 
2.43.0


From f56d7e5cb9d25d9d9bef70c4e2d0499217ec3c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 13/71] fix: stdio: EVFS_SEEK_REV offsets count back from the
 end of the file

---
 src/stdio_fs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..80156db 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -164,7 +164,10 @@ static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
+    case EVFS_SEEK_REV: // Positive offsets go back from the end
+      sorg = SEEK_END;
+      offset = -offset;
+      break;
     default:
       break;
   }
-- 
2.43.0


From da737bf937cd5a38c87857646db41715ba18a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 14/71] fix: stdio: flush the stream before truncating a file

---
 src/stdio_fs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 80156db..9443bbf 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -124,7 +124,12 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  return simple_error(ftruncate(fileno(fil->fp), size));
+  // Buffered data must not be written or read after the size changes
+  if(fflush(fil->fp) != 0) return EVFS_ERR_IO;
+  if(ftruncate(fileno(fil->fp), size) != 0) return EVFS_ERR;
+
+  clearerr(fil->fp); // The file may have grown past a previous EOF
+  return EVFS_OK;
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
 #endif
-- 
2.43.0


From 4859069baa52a55692bb17080dcccc12208145cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 15/71] fix: stdio: report failed reads, writes, size queries
 and closes

---
 src/stdio_fs.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 9443bbf..1f17ca0 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -97,14 +97,21 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int err = fclose(fil->fp); // Buffered data may fail to be written here
   fil->fp = NULL;
-  return EVFS_OK;
+  return err == 0 ? EVFS_OK : EVFS_ERR_IO;
 }
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
-  return (ptrdiff_t)fread(buf, 1, size, fil->fp);
+
+  size_t read = fread(buf, 1, size, fil->fp);
+  if(read == 0 && ferror(fil->fp)) {
+    clearerr(fil->fp);
+    return EVFS_ERR_IO;
+  }
+
+  return (ptrdiff_t)read;
 }
 
 static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
@@ -113,8 +120,13 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  size_t wrote = fwrite(buf, 1, size, fil->fp);
+  if(wrote == 0 && ferror(fil->fp)) {
+    clearerr(fil->fp);
+    return EVFS_ERR_IO;
+  }
 
-  return (ptrdiff_t)fwrite(buf, 1, size, fil->fp);
+  return (ptrdiff_t)wrote;
 }
 
 static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
@@ -147,7 +159,7 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
   struct stat s;
 
   if(fstat(fileno(fil->fp), &s) != 0)
-    return 0;
+    return EVFS_ERR_IO;
 
   return s.st_size;
 #else
-- 
2.43.0


From 89868e415f8f628a32f18b4848a71d1dc0fdf569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 16/71] fix: stdio: EVFS_NO_EXIST also applies when appending

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 1f17ca0..dff9654 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -322,7 +322,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   mode[mode_pos++] = 'b'; // Always use binary mode
 
 #if(__STDC_VERSION__ >= 201112L)
-  if(mode[0] == 'w' && (flags & EVFS_NO_EXIST))
+  if(mode[0] != 'r' && (flags & EVFS_NO_EXIST))
     mode[mode_pos++] = 'x';
 #else
 #  warning "C11 is needed to support EVFS_NO_EXIST for evfs_stdio driver"
-- 
2.43.0


From 8af59a64b2568687c334f7cf2d7e9f37b088d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 17/71] fix: stdio: report the end of a file when the position
 reaches it

---
 src/stdio_fs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index dff9654..6788304 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -199,7 +199,11 @@ static evfs_off_t stdio__file_tell(EvfsFile *fh) {
 
 static bool stdio__file_eof(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  return feof(fil->fp) != 0;
+  if(feof(fil->fp)) return true;
+
+  // feof() is only set after an attempt to read past the end
+  evfs_off_t pos = evfs_file_tell(fh);
+  return pos >= 0 && pos >= evfs_file_size(fh);
 }
 
 
-- 
2.43.0


From 310037868fc78960ad6b3daeb4f8588654986130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 18/71] fix: stdio: do not create files with EVFS_NO_EXIST
 while read only

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 6788304..c220e18 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -306,7 +306,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
-- 
2.43.0


From 6898206d864beacf1203553d28394b33bfef258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 19/71] fix: stdio: do not report an earlier short transfer as
 a later error

---
 src/stdio_fs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index c220e18..bfd50e7 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -106,9 +106,9 @@ static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
 
   size_t read = fread(buf, 1, size, fil->fp);
-  if(read == 0 && ferror(fil->fp)) {
+  if(read < size && ferror(fil->fp)) {
     clearerr(fil->fp);
-    return EVFS_ERR_IO;
+    if(read == 0) return EVFS_ERR_IO;
   }
 
   return (ptrdiff_t)read;
@@ -121,9 +121,9 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
   size_t wrote = fwrite(buf, 1, size, fil->fp);
-  if(wrote == 0 && ferror(fil->fp)) {
+  if(wrote < size && ferror(fil->fp)) {
     clearerr(fil->fp);
-    return EVFS_ERR_IO;
+    if(wrote == 0) return EVFS_ERR_IO;
   }
 
   return (ptrdiff_t)wrote;
-- 
2.43.0


From 059fbe6e3b09f1ea5f9953d63801ca5c962cccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 20/71] fix: stdio: flush or seek between reading and writing
 on one handle

---
 src/stdio_fs.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index bfd50e7..d03ece7 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -48,6 +48,7 @@ typedef struct StdioFile_s {
   EvfsFile base;
   StdioData *fs_data;
   FILE *fp;
+  char last_op; // Most recent transfer: 'r' or 'w'
 } StdioFile;
 
 
@@ -102,9 +103,27 @@ static int stdio__file_close(EvfsFile *fh) {
   return err == 0 ? EVFS_OK : EVFS_ERR_IO;
 }
 
+// C streams can't change between reading and writing without an intervening
+// flush or seek
+static int stdio__set_transfer(StdioFile *fil, char op) {
+  char last_op = fil->last_op;
+  fil->last_op = op;
+
+  if(last_op == 'w' && op == 'r') {
+    if(fflush(fil->fp) != 0) return EVFS_ERR_IO;
+  } else if(last_op == 'r' && op == 'w') {
+    fseek(fil->fp, 0, SEEK_CUR); // Can only fail on streams that aren't seekable
+  }
+
+  return EVFS_OK;
+}
+
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
 
+  int status = stdio__set_transfer(fil, 'r');
+  if(status != EVFS_OK) return status;
+
   size_t read = fread(buf, 1, size, fil->fp);
   if(read < size && ferror(fil->fp)) {
     clearerr(fil->fp);
@@ -120,6 +139,9 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  int status = stdio__set_transfer(fil, 'w');
+  if(status != EVFS_OK) return status;
+
   size_t wrote = fwrite(buf, 1, size, fil->fp);
   if(wrote < size && ferror(fil->fp)) {
     clearerr(fil->fp);
-- 
2.43.0


From 12ad00eb16d00d6823f96d1cdcc1dba5689dccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 21/71] fix: rotate: mark plain files as having no rotation
 state

---
 src/shim_rotate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 8d6f611..86cc2f6 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1246,6 +1246,7 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   Evfs *base_vfs = shim_data->base_vfs;
 
   fil->shim_data = shim_data;
+  fil->rot_state = NULL; // Only set for containers
 
   fil->base_file = (EvfsFile *)NEXT_OBJ(fil);  // We have two objects allocated together [RotateFile][<base VFS file size>]
 
-- 
2.43.0


From 39b0b8cc7eef29510627b306661e03ccdd90eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 22/71] fix: rotate: reject invalid geometry and ignore files
 that are not chunks

---
 src/shim_rotate.c | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 86cc2f6..28fcf94 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -529,11 +529,24 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 }
 
 
-static ChunkId parse_chunk_name(const char *name) {
+// Chunk number is negative if name isn't a valid chunk of the container
+static ChunkId parse_chunk_name(RotateState *rs, const char *name) {
   ChunkId id = {-1,0};
 
-  if(strlen(name) == 12) {
-    id.chunk = strtol(&name[1], NULL, 10);
+  // Only accept the exact form generated by build_chunk_path()
+  if(strlen(name) != 12 || name[0] != 'c' || name[6] != '_' ||
+    (name[7] != '0' && name[7] != '1') || strcmp(&name[8], ".cnk") != 0)
+    return id;
+
+  int chunk = 0;
+  for(int i = 1; i < 6; i++) {
+    if(name[i] < '0' || name[i] > '9')
+      return id;
+    chunk = chunk * 10 + (name[i] - '0');
+  }
+
+  if(chunk < (int)rs->cfg.max_chunks) {
+    id.chunk = chunk;
     id.gen = name[7] - '0';
 
     DPRINT("ROT name: %s --> %d_%d", name, id.chunk, id.gen);
@@ -543,6 +556,13 @@ static ChunkId parse_chunk_name(const char *name) {
 }
 
 
+static bool valid_geometry(uint32_t chunk_size, uint32_t max_chunks) {
+  // Chunk sizes must be representable as a positive file offset
+  return max_chunks >= 2 && max_chunks <= MULTIPART_MAX_CHUNK
+    && chunk_size >= MULTIPART_MIN_CHUNK_SIZE && chunk_size <= INT32_MAX;
+}
+
+
 static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
   // Scan directory for chunks
   evfs_off_t chunk_size;
@@ -568,7 +588,10 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
   if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
     EvfsInfo info;
     while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
-      ChunkId id = parse_chunk_name(info.name);
+      ChunkId id = parse_chunk_name(rs, info.name);
+      if(id.chunk < 0) // Not one of our chunks
+        continue;
+
       bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
 
       // It's possible a 0-length chunk was leftover from a previous
@@ -685,6 +708,11 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
     goto cleanup2;
   }
 
+  if(!valid_geometry(geom.chunk_size, geom.max_chunks)) {
+    status = EVFS_ERR_INVALID;
+    goto cleanup2;
+  }
+
   // Copy geometry fields
   rs->cfg.chunk_size = geom.chunk_size;
   rs->cfg.max_chunks = geom.max_chunks;
@@ -726,9 +754,7 @@ cleanup1:
 
 static int set_rotate_config(Evfs *vfs, RotateConfig *cfg) {
   // Validate the config settings
-  if(cfg->max_chunks < 2
-    || cfg->max_chunks > MULTIPART_MAX_CHUNK
-    || cfg->chunk_size < MULTIPART_MIN_CHUNK_SIZE)
+  if(!valid_geometry(cfg->chunk_size, cfg->max_chunks))
     return EVFS_ERR_INVALID;
 
   RotateData *shim_data = (RotateData *)vfs->fs_data; 
-- 
2.43.0


From 2c3b88868f584701464a09591d9952d299400102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 23/71] fix: rotate: report failures finding chunks instead of
 treating them as missing

---
 src/shim_rotate.c | 148 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 108 insertions(+), 40 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 28fcf94..22f35e3 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -307,21 +307,38 @@ static int clear_container(Evfs *base_vfs, const char *path) {
 }
 
 
-static bool is_rotate_file(Evfs *base_vfs, const char *path) {
+// Stat a path that may not exist. Any other failure is reported as an error
+static int stat_path(Evfs *base_vfs, const char *path, EvfsInfo *info, bool *exists) {
+  int status = base_vfs->m_stat(base_vfs, path, info);
+  *exists = (status == EVFS_OK);
+
+  if(status == EVFS_ERR_NO_FILE || status == EVFS_ERR_NO_PATH)
+    status = EVFS_OK;
+
+  return status;
+}
+
+
+static int is_rotate_file(Evfs *base_vfs, const char *path, bool *is_rotate) {
+  *is_rotate = false;
+
   // Container directory has to exist
   EvfsInfo info;
-  int status = base_vfs->m_stat(base_vfs, path, &info);
+  bool exists;
+  int status = stat_path(base_vfs, path, &info, &exists);
 
-  if(status != EVFS_OK || !(info.type & EVFS_FILE_DIR))
-    return false;
+  if(status != EVFS_OK || !exists || !(info.type & EVFS_FILE_DIR))
+    return status;
 
   // Multipart info file needs to exist
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status == EVFS_ERR_OVERFLOW || status == EVFS_ERR_TOO_LONG) // Too long for a container
+    return EVFS_OK;
+  if(status != EVFS_OK) return status;
 
-  status = base_vfs->m_stat(base_vfs, joined, &info);
-  return status == EVFS_OK;
+  return stat_path(base_vfs, joined, &info, is_rotate);
 }
 
 
@@ -334,7 +351,9 @@ static int build_chunk_path(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_nu
 }
 
 
-static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
+static int chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size,
+                        bool *exists) {
+  *exists = false;
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
@@ -345,16 +364,17 @@ static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num,
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
+  int status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
   EvfsInfo info;
-  int status = base_vfs->m_stat(base_vfs, joined, &info);
+  if(status == EVFS_OK)
+    status = stat_path(base_vfs, joined, &info, exists);
   UNLOCK(ms->buf);
 
   if(chunk_size)
-    *chunk_size = (status == EVFS_OK) ? info.size : 0;
+    *chunk_size = *exists ? info.size : 0;
 
-  return status == EVFS_OK;
+  return status;
 }
 
 
@@ -393,10 +413,11 @@ static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, ev
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
+  int status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
   EvfsInfo info;
-  int status = base_vfs->m_stat(base_vfs, joined, &info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, joined, &info);
   if(status == EVFS_OK)
     status = base_vfs->m_delete(base_vfs, joined);
 
@@ -460,9 +481,10 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
+  int status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
-  int status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
+  if(status == EVFS_OK)
+    status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
 
   UNLOCK(ms->buf);
 
@@ -477,8 +499,14 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 
 // Method
 static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
-  bool is_empty = rs->start_chunk.chunk == rs->end_chunk.chunk &&
-                  !chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL);
+  bool is_empty = false;
+  if(rs->start_chunk.chunk == rs->end_chunk.chunk) {
+    bool exists;
+    int status = chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL, &exists);
+    if(status != EVFS_OK) return status;
+    is_empty = !exists;
+  }
+
   ChunkId next = rs->end_chunk;
 
   //DPRINT("ROT append  empty:%c", is_empty ? 'T':'f');
@@ -518,10 +546,11 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 #endif
 
   // Add new chunk file
-  build_chunk_path(base_vfs, &rs->base, next, &joined_r);
+  int status = build_chunk_path(base_vfs, &rs->base, next, &joined_r);
 
   // Open file handle is returned through fh
-  int status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
+  if(status == EVFS_OK)
+    status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
 
   UNLOCK(rs->base.buf);
 
@@ -585,14 +614,18 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
   // Scan chunks
   EvfsDir *dh;
-  if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
+  status = evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh);
+  if(status == EVFS_OK) {
     EvfsInfo info;
-    while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
+    while((status = evfs_dir_find(dh, "c*.cnk", &info)) == EVFS_OK) {
       ChunkId id = parse_chunk_name(rs, info.name);
       if(id.chunk < 0) // Not one of our chunks
         continue;
 
-      bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
+      bool exists;
+      status = chunk_exists(base_vfs, &rs->base, id, &chunk_size, &exists);
+      if(status != EVFS_OK)
+        break;
 
       // It's possible a 0-length chunk was leftover from a previous
       // power failure. We'll clean it up now. This should just leave
@@ -600,7 +633,9 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
       // errors have happened.
       if(exists && chunk_size == 0) {
         //DPRINT("ROT evict zero length chunk");
-        evict_chunk(base_vfs, &rs->base, id, NULL);
+        status = evict_chunk(base_vfs, &rs->base, id, NULL);
+        if(status != EVFS_OK)
+          break;
         exists = false;
       }
 
@@ -614,9 +649,17 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
       }
 
     }
-    evfs_dir_close(dh);
+    if(status == EVFS_DONE) // All chunks found
+      status = EVFS_OK;
+
+    int close_status = evfs_dir_close(dh);
+    if(status == EVFS_OK)
+      status = close_status;
   }
 
+  if(status != EVFS_OK)
+    return status;
+
   if(gen_span[0].end >= 0 || gen_span[1].end >= 0) { // Found chunk files
     if(gen_span[0].end >= 0 && gen_span[1].end >= 0) { // Both generations present
       if(gen_span[0].start < gen_span[1].start) { // Gen 0 is newer
@@ -654,7 +697,10 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
   RotateData *shim_data = (RotateData *)vfs->fs_data;
   Evfs *base_vfs = shim_data->base_vfs;
 
-  if(!is_rotate_file(base_vfs, path)) return EVFS_ERR_NO_FILE;
+  bool is_rotate;
+  int status = is_rotate_file(base_vfs, path, &is_rotate);
+  if(status != EVFS_OK) return status;
+  if(!is_rotate) return EVFS_ERR_NO_FILE;
 
   // Allocate state to track file rotation
   size_t state_size = sizeof(RotateState) + strlen(path)+1;
@@ -676,10 +722,11 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
 
   EvfsFile *dat_fh;
-  int status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_READ);
+  if(status == EVFS_OK)
+    status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_READ);
   UNLOCK(&shim_data->buf);
 
   if(status != EVFS_OK)
@@ -690,7 +737,7 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   status = evfs_file_read(dat_fh, &hdr, sizeof(hdr));
   if(status != sizeof(MultipartHeader)) {
-    status = EVFS_ERR_INVALID;
+    status = status < 0 ? status : EVFS_ERR_INVALID;
     goto cleanup2;
   }
 
@@ -704,7 +751,7 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
   RotateGeometry geom;
   status = evfs_file_read(dat_fh, &geom, sizeof(geom));
   if(status != sizeof(RotateGeometry)) {
-    status = EVFS_ERR_INVALID;
+    status = status < 0 ? status : EVFS_ERR_INVALID;
     goto cleanup2;
   }
 
@@ -739,7 +786,8 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   status = discover_chunk_sequence(base_vfs, rs);
 
-  fh->rot_state = rs;
+  if(status == EVFS_OK)
+    fh->rot_state = rs;
 
 cleanup2:
   evfs_file_close(dat_fh);
@@ -923,7 +971,9 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
 
       // If the chunk doesn't exist we are out of chunks to read
       evfs_off_t chunk_size;
-      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size))
+      bool exists;
+      status = chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size, &exists);
+      if(status != EVFS_OK || !exists)
         break;
 
       if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
@@ -984,7 +1034,11 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
 
       // If the chunk doesn't exist we need to create it
-      if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
+      bool exists;
+      status = chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL, &exists);
+      if(status != EVFS_OK) return status;
+
+      if(!exists) {
         status = append_new_chunk(base_vfs, rs, &new_chunk);
         if(status != EVFS_OK) return status;
 
@@ -1280,10 +1334,20 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   // Check if the path exists
   EvfsInfo info;
-  bool exists = base_vfs->m_stat(base_vfs, path, &info) == EVFS_OK;
+  bool exists;
+  bool is_rotate = false;
+
+  status = stat_path(base_vfs, path, &info, &exists);
+  if(status == EVFS_OK && exists)
+    status = is_rotate_file(base_vfs, path, &is_rotate);
+
+  if(status != EVFS_OK) {
+    fh->methods = NULL;
+    return status;
+  }
 
   // Check if this is an existing regular file
-  if(exists && !is_rotate_file(base_vfs, path)) {
+  if(exists && !is_rotate) {
     status = base_vfs->m_open(base_vfs, path, fil->base_file, flags);
   } else {
     // Open or create a container
@@ -1323,9 +1387,11 @@ static int rotate__delete(Evfs *vfs, const char *path) {
   RotateData *shim_data = (RotateData *)vfs->fs_data;
   Evfs *base_vfs = shim_data->base_vfs;
 
-  int status;
+  bool is_rotate;
+  int status = is_rotate_file(base_vfs, path, &is_rotate);
+  if(status != EVFS_OK) return status;
 
-  if(!is_rotate_file(base_vfs, path)) { // This is a normal file
+  if(!is_rotate) { // This is a normal file
     status = base_vfs->m_delete(base_vfs, path);
 
   } else { // This is a rotate container
@@ -1367,12 +1433,14 @@ static int rotate__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 
   // Prevent opening container directories
-  if(is_rotate_file(base_vfs, path)) {
+  bool is_rotate;
+  int status = is_rotate_file(base_vfs, path, &is_rotate);
+  if(status != EVFS_OK || is_rotate) {
     dh->methods = NULL;
-    return EVFS_ERR_NO_PATH;
+    return is_rotate ? EVFS_ERR_NO_PATH : status;
   }
 
-  int status = base_vfs->m_open_dir(base_vfs, path, dir->base_dir);
+  status = base_vfs->m_open_dir(base_vfs, path, dir->base_dir);
 
   if(status == EVFS_OK) {
     // Construct a shimmed dir object
-- 
2.43.0


From e0d87404a7f631861185ee8ab73637321afe2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 24/71] fix: rotate: remove the container again when creating
 it fails

---
 src/shim_rotate.c | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 22f35e3..67a1df5 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -244,18 +244,22 @@ static void incr_write_pos(MultipartState *ms, evfs_off_t offset) {
 
 // Method
 static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig *cfg) {
+  char joined[EVFS_MAX_PATH];
+  StringRange joined_r = RANGE_FROM_ARRAY(joined);
+  int status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status != EVFS_OK) return status;
+
   // Create the multipart container directory
-  int status = base_vfs->m_make_dir(base_vfs, path);
+  status = base_vfs->m_make_dir(base_vfs, path);
   if(status != EVFS_OK) return status;
 
   // Add dat file
-  char joined[EVFS_MAX_PATH];
-  StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
-
   EvfsFile *dat_fh;
   status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_WRITE | EVFS_OVERWRITE);
-  if(status != EVFS_OK) return status;
+  if(status != EVFS_OK) { // Don't leave an unusable container behind
+    base_vfs->m_delete(base_vfs, path);
+    return status;
+  }
 
   // Write header
   MultipartHeader hdr = {
@@ -266,7 +270,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   status = evfs_file_write(dat_fh, &hdr, sizeof(hdr));
 
-  if(status > 0) {
+  if(status == sizeof(hdr)) {
     // Write geometry
     RotateGeometry geom = {
       .chunk_size = cfg->chunk_size,
@@ -275,11 +279,25 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
     status = evfs_file_write(dat_fh, &geom, sizeof(geom));
 
+    if(status == sizeof(geom))
+      status = EVFS_OK;
+    else if(status >= 0) // Short write
+      status = EVFS_ERR_IO;
+
+  } else if(status >= 0) { // Short write
+    status = EVFS_ERR_IO;
   }
 
-  evfs_file_close(dat_fh);
+  int close_status = evfs_file_close(dat_fh);
+  if(status == EVFS_OK)
+    status = close_status;
+
+  if(status != EVFS_OK) { // Don't leave an unusable container behind
+    base_vfs->m_delete(base_vfs, joined);
+    base_vfs->m_delete(base_vfs, path);
+  }
 
-  return status == sizeof(RotateGeometry) ? EVFS_OK : EVFS_ERR;
+  return status;
 }
 
 
@@ -334,11 +352,13 @@ static int is_rotate_file(Evfs *base_vfs, const char *path, bool *is_rotate) {
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
   status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status == EVFS_OK)
+    status = stat_path(base_vfs, joined, &info, is_rotate);
+
   if(status == EVFS_ERR_OVERFLOW || status == EVFS_ERR_TOO_LONG) // Too long for a container
-    return EVFS_OK;
-  if(status != EVFS_OK) return status;
+    status = EVFS_OK;
 
-  return stat_path(base_vfs, joined, &info, is_rotate);
+  return status;
 }
 
 
-- 
2.43.0


From d3efb8ea14535dd99f5510a83aafe5fd9092ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 25/71] fix: rotate: stop and report errors while deleting a
 container

---
 src/shim_rotate.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 67a1df5..73a70ca 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -309,17 +309,25 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) != EVFS_DONE) {
+  while((status = evfs_dir_read(dh, &info)) == EVFS_OK) {
     // Check for dir dots
     if(info.name[0] == '.') continue;
 
     char joined[EVFS_MAX_PATH];
     StringRange joined_r = RANGE_FROM_ARRAY(joined);
-    evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
-    base_vfs->m_delete(base_vfs, joined);
+    status = evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, joined);
+    if(status != EVFS_OK)
+      break;
   }
 
-  evfs_dir_close(dh);
+  if(status == EVFS_DONE) // Everything removed
+    status = EVFS_OK;
+
+  int close_status = evfs_dir_close(dh);
+  if(status == EVFS_OK)
+    status = close_status;
 
   return status;
 }
@@ -1415,8 +1423,9 @@ static int rotate__delete(Evfs *vfs, const char *path) {
     status = base_vfs->m_delete(base_vfs, path);
 
   } else { // This is a rotate container
-    clear_container(base_vfs, path);
-    status = base_vfs->m_delete(base_vfs, path);
+    status = clear_container(base_vfs, path);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, path);
   }
 
   return status;
-- 
2.43.0


From 896724b9cd2becede3a7d26bb736be082a221ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 26/71] fix: rotate: remove the geometry file last so an
 interrupted delete can be repeated

---
 src/shim_rotate.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 73a70ca..ffe35c6 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -302,6 +302,9 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
 
 static int clear_container(Evfs *base_vfs, const char *path) {
+  char joined[EVFS_MAX_PATH];
+  StringRange joined_r;
+
   // Remove all files in the path directory
   EvfsDir *dh;
   EvfsInfo info;
@@ -313,8 +316,10 @@ static int clear_container(Evfs *base_vfs, const char *path) {
     // Check for dir dots
     if(info.name[0] == '.') continue;
 
-    char joined[EVFS_MAX_PATH];
-    StringRange joined_r = RANGE_FROM_ARRAY(joined);
+    // The geometry file is removed last so that an interrupted removal can be repeated
+    if(!strcmp(info.name, MULTIPART_GEOMETRY_FILE)) continue;
+
+    range_init(&joined_r, joined, COUNT_OF(joined));
     status = evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
     if(status == EVFS_OK)
       status = base_vfs->m_delete(base_vfs, joined);
@@ -329,6 +334,14 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   if(status == EVFS_OK)
     status = close_status;
 
+  if(status == EVFS_OK) {
+    range_init(&joined_r, joined, COUNT_OF(joined));
+    status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  }
+
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, joined);
+
   return status;
 }
 
-- 
2.43.0


From 6ec5a0922bc67bdbb9fc7c5e03463ac8af6f8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 27/71] fix: rotate: keep track of the remaining chunks when
 trimming fails or has nothing to do

---
 src/shim_rotate.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index ffe35c6..b97dccc 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -859,11 +859,13 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   RotateData *shim_data = fil->shim_data;
   Evfs *base_vfs = shim_data->base_vfs;
 
+  if(trim_bytes < 0) return EVFS_ERR_BAD_ARG;
+
   int status = EVFS_OK;
   // We need to round down to the nearest chunk size
   int trim_chunks = trim_bytes / rs->cfg.chunk_size;
 
-  if(trim_chunks == 0) // No change
+  if(trim_chunks == 0 || rs->base.total_size == 0) // No change
     return 0;
 
   ChunkId trim_start, trim_end;
@@ -886,6 +888,7 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   evfs_off_t chunk_size;
   evfs_off_t trimmed_size = 0;
   ChunkId cur_chunk = trim_start;
+  bool all_removed = false;
 
   // Delete chunks
   while(1) {
@@ -894,22 +897,23 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
       break;
 
     trimmed_size += chunk_size;
+    all_removed = cur_chunk.chunk == rs->end_chunk.chunk;
+    bool last = cur_chunk.chunk == trim_end.chunk;
 
-    if(cur_chunk.chunk == trim_end.chunk)
-      break;
+    incr_chunk(rs, &cur_chunk); // First chunk that remains
 
-    incr_chunk(rs, &cur_chunk);
+    if(last)
+      break;
   }
 
   // Fix up state
-  if(cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
+  if(all_removed) {
     rs->base.total_size = 0; // Just to be sure this is correct
     rs->start_chunk = (ChunkId){0,0};
     rs->end_chunk = (ChunkId){0,0};
     rs->base.file_pos = 0;
 
   } else { // Partial trim
-    incr_chunk(rs, &cur_chunk);
     rs->start_chunk = cur_chunk;
 
     if(rs->base.file_pos > trimmed_size)
-- 
2.43.0


From f4f955cce8b1cb5f6acd867669c5b9c0e90918a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 28/71] fix: rotate: report truncation failures and reject
 negative sizes

---
 src/shim_rotate.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index b97dccc..cc63ae1 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1147,6 +1147,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
+    if(size < 0) return EVFS_ERR_BAD_ARG;
+
     if(size >= rs->base.total_size) // Do nothing if larger
       return EVFS_OK;
 
@@ -1156,9 +1158,10 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     evfs_off_t delete_bytes = rs->base.total_size - size;
 
     status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-    if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
+    if(status != EVFS_OK) return status;
 
     evfs_off_t chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+    if(chunk_size < 0) return chunk_size;
     int delete_chunks;
 
     if(delete_bytes >= chunk_size)
@@ -1186,17 +1189,22 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(delete_bytes > 0 && status == EVFS_OK) {
       // Truncate new end chunk
       status = activate_chunk(base_vfs, &rs->base, rs->end_chunk);
-      if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
 
-      chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+      if(status == EVFS_OK) {
+        chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+        if(chunk_size < 0)
+          status = chunk_size;
+      }
 
       // We should already have handled full chunks above and only
       // have a portion less than chunk_size left to truncate.
-      if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
-        return EVFS_ERR_CORRUPTION;
+      if(status == EVFS_OK && ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
+        status = EVFS_ERR_CORRUPTION;
 
-      evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
-      rs->base.total_size -= delete_bytes;
+      if(status == EVFS_OK)
+        status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      if(status == EVFS_OK)
+        rs->base.total_size -= delete_bytes;
     }
 
     if(rs->base.total_size == 0) { // Restart chunk sequence
@@ -1205,10 +1213,10 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     }
 
     // Adjust position
-    if(rs->base.file_pos > size)
-      rs->base.file_pos = size;
+    if(rs->base.file_pos > rs->base.total_size)
+      rs->base.file_pos = rs->base.total_size;
 
-    if(ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
+    if(status == EVFS_OK && ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
       status = EVFS_ERR_CORRUPTION;
 
   }
-- 
2.43.0


From d95b9cf645117d7d1f025ea843b29b42b8b1a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 29/71] fix: rotate: exact append position, eviction and read
 limits; report failed chunk operations

---
 src/shim_rotate.c | 217 +++++++++++++++++++++++-----------------------
 1 file changed, 107 insertions(+), 110 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index cc63ae1..7a4792b 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -442,9 +442,38 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
+static inline int deactivate_chunk(MultipartState *ms) {
+  int status = EVFS_OK;
+
+  // Shutdown current active chunk
+  if(ms->active_chunk_fh) {
+    status = evfs_file_close(ms->active_chunk_fh);
+    ms->active_chunk_fh = NULL;
+    ms->active_chunk.chunk = -1;
+  }
+
+  return status;
+}
+
+
+static inline bool is_active_chunk(MultipartState *ms, ChunkId chunk_num) {
+  return ms->active_chunk_fh && ms->active_chunk.chunk == chunk_num.chunk
+    && ms->active_chunk.gen == chunk_num.gen;
+}
+
+
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
+  if(chunk_size)
+    *chunk_size = 0;
+
+  // The chunk can't be removed while we have it open
+  if(is_active_chunk(ms, chunk_num)) {
+    int close_status = deactivate_chunk(ms);
+    if(close_status != EVFS_OK) return close_status;
+  }
+
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
   char *joined = ms->buf->tmp_path;
@@ -483,32 +512,15 @@ static inline void incr_chunk(RotateState *rs, ChunkId *id) {
 }
 
 
-static inline ChunkId next_chunk(RotateState *rs) {
-  // Next chunk always follows the end chunk
-  ChunkId next = rs->end_chunk;
-  incr_chunk(rs, &next);
-  return next;
-}
-
-
-static inline void deactivate_chunk(MultipartState *ms) {
-  // Shutdown current active chunk
-  if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
-    ms->active_chunk_fh = NULL;
-    ms->active_chunk.chunk = -1;
-  }
-}
-
-
 static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num) {
   //DPRINT("ROT Activate chunk: %d_%d", chunk_num.chunk, chunk_num.gen);
 
-  if(ms->active_chunk.chunk == chunk_num.chunk) // Already opened chunk
+  if(is_active_chunk(ms, chunk_num)) // Already opened chunk
     return EVFS_OK;
 
   // Shutdown current active chunk
-  deactivate_chunk(ms);
+  int status = deactivate_chunk(ms);
+  if(status != EVFS_OK) return status;
 
   // Open new chunk
   EvfsFile *fh;
@@ -522,7 +534,7 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
 #endif
-  int status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
+  status = build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
   if(status == EVFS_OK)
     status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
@@ -538,43 +550,34 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 }
 
 
-// Method
-static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
-  bool is_empty = false;
-  if(rs->start_chunk.chunk == rs->end_chunk.chunk) {
-    bool exists;
-    int status = chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL, &exists);
-    if(status != EVFS_OK) return status;
-    is_empty = !exists;
-  }
-
-  ChunkId next = rs->end_chunk;
-
-  //DPRINT("ROT append  empty:%c", is_empty ? 'T':'f');
+// Remove the oldest chunk
+static int drop_start_chunk(Evfs *base_vfs, RotateState *rs) {
+  evfs_off_t chunk_size;
+  int status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, &chunk_size);
+  if(status != EVFS_OK) return status;
 
-  if(!is_empty) {
-    next = next_chunk(rs);
+  incr_chunk(rs, &rs->start_chunk);
 
-    if(next.chunk >= MULTIPART_MAX_CHUNK)
-      return EVFS_ERR_TOO_LONG;
+  // Adjust read/write pos to reflect trimmed file
+  if(rs->base.file_pos > chunk_size)
+    rs->base.file_pos -= chunk_size;
+  else
+    rs->base.file_pos = 0;
 
-    // Remove the old start chunk on wrap around
-    if(next.chunk == rs->start_chunk.chunk) {
-      evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+  return EVFS_OK;
+}
 
-      incr_chunk(rs, &rs->start_chunk);
 
-      // Adjust read/write pos to reflect trimmed file
-      if(rs->base.file_pos > (evfs_off_t)rs->cfg.chunk_size)
-        rs->base.file_pos -= rs->cfg.chunk_size;
-      else
-        rs->base.file_pos = 0;
-    }
+// Create the chunk following the end of the file and make it active
+// Method
+static int append_new_chunk(Evfs *base_vfs, RotateState *rs, ChunkId next) {
+  //DPRINT("ROT: Append new chunk: %d_%d", next.chunk, next.gen);
 
-    rs->end_chunk = next;
-  }
+  if(next.chunk >= MULTIPART_MAX_CHUNK)
+    return EVFS_ERR_TOO_LONG;
 
-  //DPRINT("ROT: Append new chunk: %d_%d", rs->end_chunk.chunk, rs->end_chunk.gen);
+  int status = deactivate_chunk(&rs->base);
+  if(status != EVFS_OK) return status;
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(rs->base.buf);
@@ -587,14 +590,23 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 #endif
 
   // Add new chunk file
-  int status = build_chunk_path(base_vfs, &rs->base, next, &joined_r);
+  status = build_chunk_path(base_vfs, &rs->base, next, &joined_r);
 
-  // Open file handle is returned through fh
+  EvfsFile *fh;
   if(status == EVFS_OK)
-    status = evfs_vfs_open(base_vfs, joined, fh, EVFS_RDWR | EVFS_OVERWRITE);
+    status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR | EVFS_OVERWRITE);
 
   UNLOCK(rs->base.buf);
 
+  if(status == EVFS_OK) {
+    rs->base.active_chunk_fh = fh;
+    rs->base.active_chunk = next;
+
+    rs->end_chunk = next;
+    if(rs->base.total_size == 0) // First chunk
+      rs->start_chunk = next;
+  }
+
   return status;
 }
 
@@ -972,16 +984,11 @@ static int rotate__file_close(EvfsFile *fh) {
     RotateState *rs = fil->rot_state;
 
     // Shutdown current active chunk
-    if(rs->base.active_chunk_fh) {
-      evfs_file_close(rs->base.active_chunk_fh);
-      rs->base.active_chunk_fh = NULL;
-      rs->base.active_chunk.chunk = -1;
-    }
+    status = deactivate_chunk(&rs->base);
 
     evfs_free(rs);
 
     fil->rot_state = NULL;
-    status = EVFS_OK;
   }
 
 
@@ -1009,30 +1016,22 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
     int status = EVFS_OK;
 
     // We may have more than one chunk's worth of data to read
-    while(size > 0) {
+    while(size > 0 && rs->base.file_pos < rs->base.total_size) {
       ChunkPos rpos = get_chunk_pos(rs, rs->base.file_pos);
 
       //DPRINT("rptr: %ld, rpos: %d:%d,  active: %d", rs->base.file_pos, rpos.chunk_num, rpos.offset, rs->base.active_chunk);
 
-      // If the chunk doesn't exist we are out of chunks to read
-      evfs_off_t chunk_size;
-      bool exists;
-      status = chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size, &exists);
-      if(status != EVFS_OK || !exists)
-        break;
-
-      if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
-        status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
-        if(status != EVFS_OK) return status;
-      }
-
-      if(rpos.offset >= chunk_size) // Nothing left to read
-        break;
+      status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
+      if(status != EVFS_OK) break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
-      evfs_off_t remain_space = chunk_size - rpos.offset;
-      size_t read_size = MIN((evfs_off_t)size, remain_space);
+      status = evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
+
+      // Only the last chunk can be partially filled
+      evfs_off_t remain_space = MIN((evfs_off_t)rs->cfg.chunk_size - rpos.offset,
+                                    rs->base.total_size - rs->base.file_pos);
+      size_t read_size = MIN(size, (size_t)remain_space);
 
       ptrdiff_t read_chunk = evfs_file_read(rs->base.active_chunk_fh, cbuf, read_size);
       if(read_chunk > 0) {
@@ -1041,12 +1040,13 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         rs->base.file_pos += read_chunk;
         read += read_chunk;
       } else { // Chunk is prematurely empty
-        return EVFS_ERR_IO;
+        status = read_chunk < 0 ? (int)read_chunk : EVFS_ERR_IO;
+        break;
       }
 
     }
 
-    if(status != EVFS_OK)
+    if(status != EVFS_OK && read == 0)
       read = status;
 
   }
@@ -1068,44 +1068,39 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
-    EvfsFile *new_chunk;
     int status = EVFS_OK;
 
     //DPRINT("ROT: write  %d", size);
 
     // We may have more than one chunk's worth of data to write
     while(size > 0) {
+      // Remove the oldest chunk when there is no room left for the next one
+      uint64_t capacity = (uint64_t)rs->cfg.chunk_size * rs->cfg.max_chunks;
+      if((uint64_t)cur_write_pos(&rs->base) >= capacity) {
+        status = drop_start_chunk(base_vfs, rs);
+        if(status != EVFS_OK) break;
+      }
+
       // Our write position depends on whether we're in append mode
-      ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
+      evfs_off_t pos = cur_write_pos(&rs->base);
+      ChunkPos wpos = get_chunk_pos(rs, pos);
 
       // If the chunk doesn't exist we need to create it
-      bool exists;
-      status = chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL, &exists);
-      if(status != EVFS_OK) return status;
-
-      if(!exists) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-
-        // Set new active chunk
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
-      }
-
-      if(wpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
+      if(wpos.offset == 0 && pos >= rs->base.total_size)
+        status = append_new_chunk(base_vfs, rs, wpos.chunk_num);
+      else
         status = activate_chunk(base_vfs, &rs->base, wpos.chunk_num);
-        if(status != EVFS_OK) return status;
-      }
+      if(status != EVFS_OK) break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
 
       evfs_off_t free_space = rs->cfg.chunk_size - wpos.offset;
       if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
         return EVFS_ERR_CORRUPTION;
 
-      size_t write_size = MIN((evfs_off_t)size, free_space);
+      size_t write_size = MIN(size, (size_t)free_space);
 
       ptrdiff_t wrote_chunk = evfs_file_write(rs->base.active_chunk_fh, cbuf, write_size);
       if(wrote_chunk > 0) {
@@ -1113,20 +1108,22 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         size -= wrote_chunk;
         incr_write_pos(&rs->base, wrote_chunk);
         wrote += wrote_chunk;
-        rs->base.total_size += wrote_chunk;
+        if(pos + wrote_chunk > rs->base.total_size) // File is extended
+          rs->base.total_size = pos + wrote_chunk;
       }
 
-      // Check if we have more chunks to write
-      if(size > 0) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
+      if(wrote_chunk < (ptrdiff_t)write_size) { // Incomplete write
+        status = wrote_chunk < 0 ? (int)wrote_chunk : EVFS_ERR_IO;
+
+        // Drop any data that was stored without being reported
+        evfs_off_t chunk_used = rs->base.total_size - (pos - wpos.offset);
+        if(chunk_used < (evfs_off_t)rs->cfg.chunk_size)
+          evfs_file_truncate(rs->base.active_chunk_fh, chunk_used);
+        break;
       }
     }
 
-    if(status != EVFS_OK)
+    if(status != EVFS_OK && wrote == 0)
       wrote = status;
   }
 
-- 
2.43.0


From fbcdb7fd17b8b37dc0f73e9b36a4e0bfe2df4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 30/71] fix: rotate: EVFS_NO_EXIST refuses an existing
 container

---
 src/shim_rotate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 7a4792b..13fb6eb 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1402,7 +1402,9 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   } else {
     // Open or create a container
     status = EVFS_OK;
-    if(!exists) // Create new container
+    if(exists && (flags & EVFS_NO_EXIST))
+      status = EVFS_ERR_EXISTS;
+    else if(!exists) // Create new container
       status = init_rotate_container(base_vfs, path, &shim_data->cfg);
 
     if(status == EVFS_OK)
-- 
2.43.0


From 537478ce45e9968c36762f5549ae5740691a6bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 31/71] fix: rotate: reject chunks that do not fit the
 container geometry

---
 src/shim_rotate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 13fb6eb..dd1ba2b 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -692,6 +692,14 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
         exists = false;
       }
 
+      // Chunks that don't match the geometry can't be addressed
+      const uint64_t max_size = sizeof(evfs_off_t) > 4 ? INT64_MAX : INT32_MAX;
+      if(exists && (chunk_size < 0 || (uint64_t)chunk_size > rs->cfg.chunk_size
+        || (uint64_t)rs->base.total_size + (uint64_t)chunk_size > max_size)) {
+        status = EVFS_ERR_CORRUPTION;
+        break;
+      }
+
       if(exists) {
         gen_span[id.gen].start  = MIN(gen_span[id.gen].start, id.chunk);
         gen_span[id.gen].end    = MAX(gen_span[id.gen].end, id.chunk);
-- 
2.43.0


From 6b8bbcf801e29f19f500d8c90fc5c976e7e1a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 32/71] fix: seek: do not overflow when computing absolute
 offsets

---
 src/evfs.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..fd57218 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -170,17 +170,28 @@ bool evfs__vfs_existing_dir(Evfs *vfs, const char *path) {
 
 // Common offset conversion routine for implementations of m_file_seek()
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
+  const evfs_off_t max_offset = sizeof(evfs_off_t) > 4 ? (evfs_off_t)INT64_MAX : (evfs_off_t)INT32_MAX;
+  evfs_off_t from;
+
   // Compute absolute offset from start of file
   switch(origin) {
     case EVFS_SEEK_TO: // No change
       break;
 
     case EVFS_SEEK_REL:
-      offset += evfs_file_tell(fh);
+      from = evfs_file_tell(fh);
+      if(offset > 0 && from > max_offset - offset) // Limit to largest offset
+        offset = max_offset;
+      else
+        offset += from;
       break;
 
     case EVFS_SEEK_REV:
-      offset = evfs_file_size(fh) - offset;
+      from = evfs_file_size(fh);
+      if(offset < 0 && from > max_offset + offset) // Limit to largest offset
+        offset = max_offset;
+      else
+        offset = from - offset;
       break;
 
     default:
-- 
2.43.0


From c27efec8219229406ef256e0ee841702741d9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 33/71] fix: seek: report a failure to get the size instead of
 seeking elsewhere

---
 src/evfs.c        | 2 ++
 src/fatfs_fs.c    | 2 +-
 src/romfs_fs.c    | 2 +-
 src/shim_rotate.c | 4 +++-
 src/tar_fs.c      | 2 +-
 src/tar_rsrc_fs.c | 2 +-
 6 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index fd57218..a2e5968 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -180,6 +180,7 @@ evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir or
 
     case EVFS_SEEK_REL:
       from = evfs_file_tell(fh);
+      if(from < 0) return from; // Report error
       if(offset > 0 && from > max_offset - offset) // Limit to largest offset
         offset = max_offset;
       else
@@ -188,6 +189,7 @@ evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir or
 
     case EVFS_SEEK_REV:
       from = evfs_file_size(fh);
+      if(from < 0) return from; // Report error
       if(offset < 0 && from > max_offset + offset) // Limit to largest offset
         offset = max_offset;
       else
diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..3e495e5 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -217,7 +217,7 @@ static int fatfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
       break;
   }*/
 
-  if(ASSERT(offset >= 0, "Invalid offset")) return EVFS_ERR;
+  if(offset < 0) return offset;
 
   return translate_error(f_lseek(&fil->fil, offset));
 }
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 279cf7c..e13c939 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -219,7 +219,7 @@ static int romfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   RomfsFile *fil = (RomfsFile *)fh;
 
   offset = evfs__absolute_offset(fh, offset, origin);
-  if(ASSERT(offset >= 0, "Invalid offset")) return EVFS_ERR_INVALID;
+  if(offset < 0) return offset;
 
   if(offset > (evfs_off_t)fil->hdr.size)
     offset = fil->hdr.size;
diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index dd1ba2b..bd56d37 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1278,7 +1278,9 @@ static int rotate__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin
     evfs_off_t new_off = evfs__absolute_offset(fh, offset, origin);
 
     // Only allow seeks up to the end of the file
-    if(new_off <= rs->base.total_size)
+    if(new_off < 0)
+      status = new_off;
+    else if(new_off <= rs->base.total_size)
       rs->base.file_pos = new_off;
     else
       status = EVFS_ERR_OVERFLOW;
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..989164e 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -322,7 +322,7 @@ static int tarfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
 
   offset = evfs__absolute_offset(fh, offset, origin);
 
-  if(ASSERT(offset >= 0, "Invalid offset")) return EVFS_ERR;
+  if(offset < 0) return offset;
 
   if(offset > fil->file_size)
     offset = fil->file_size;
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..c41f8b5 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -343,7 +343,7 @@ static int tarfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
 
   offset = evfs__absolute_offset(fh, offset, origin);
 
-  if(ASSERT(offset >= 0, "Invalid offset")) return EVFS_ERR;
+  if(offset < 0) return offset;
 
   if(offset > (evfs_off_t)fil->file_size)
     offset = fil->file_size;
-- 
2.43.0


From 8bce8544e3c79ac1e297256716b46c2a7f79f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 34/71] fix: file size: report a failure to flush the file

---
 src/evfs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index a2e5968..82ec9cd 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1253,7 +1253,9 @@ Returns:
 evfs_off_t evfs_file_size(EvfsFile *fh) {
   if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
 
-  fh->methods->m_sync(fh); // Need to flush internal FS buffers
+  int status = fh->methods->m_sync(fh); // Need to flush internal FS buffers
+  if(status != EVFS_OK && status != EVFS_ERR_NO_SUPPORT)
+    return status;
 
   return fh->methods->m_size(fh);
 }
-- 
2.43.0


From c1c74b4cfaf355506376b18966cfb915048d474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 35/71] fix: rotate: report a failure to close the geometry
 file

---
 src/shim_rotate.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index bd56d37..db229a6 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -847,14 +847,15 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   status = discover_chunk_sequence(base_vfs, rs);
 
+cleanup2:;
+  int close_status = evfs_file_close(dat_fh);
   if(status == EVFS_OK)
-    fh->rot_state = rs;
-
-cleanup2:
-  evfs_file_close(dat_fh);
+    status = close_status;
 
 cleanup1:
-  if(status != EVFS_OK)
+  if(status == EVFS_OK)
+    fh->rot_state = rs;
+  else
     evfs_free(rs);
 
   return status;
-- 
2.43.0


From 54dba9acab553c6ba64d38db96485936d70e32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 36/71] fix: tar: read ustar headers exactly, within their
 fields and the archive

The iterators only accepted the GNU magic, parsed unterminated fields past
their end, took any size (also negative, overflowing or beyond the data),
took sizes of links and directories as data, and read headers outside the
resource.
---
 include/evfs/tar_iter.h      |   3 +
 include/evfs/tar_iter_rsrc.h |   3 +
 src/tar_internal.h           | 167 +++++++++++++++++++++++++++++++++++
 src/tar_iter.c               |  69 +++++++++------
 src/tar_iter_rsrc.c          |  84 ++++++++----------
 5 files changed, 253 insertions(+), 73 deletions(-)
 create mode 100644 src/tar_internal.h

diff --git a/include/evfs/tar_iter.h b/include/evfs/tar_iter.h
index dade3a0..6b4ee1f 100644
--- a/include/evfs/tar_iter.h
+++ b/include/evfs/tar_iter.h
@@ -13,6 +13,9 @@ typedef struct TarFileIterator {
   evfs_off_t header_offset;  // Offset within tar file
   evfs_off_t file_size;      // Size of current archived file
 
+  int        status;         // EVFS_OK when there is a current member, EVFS_DONE at the end
+                             // of the archive or an error code
+
 } TarFileIterator;
 
 #ifdef __cplusplus
diff --git a/include/evfs/tar_iter_rsrc.h b/include/evfs/tar_iter_rsrc.h
index ff651df..8ce2915 100644
--- a/include/evfs/tar_iter_rsrc.h
+++ b/include/evfs/tar_iter_rsrc.h
@@ -15,6 +15,9 @@ typedef struct TarRsrcIterator {
   size_t    header_offset;  // Offset within tar file
   size_t    file_size;      // Size of current archived file
 
+  int       status;         // EVFS_OK when there is a current member, EVFS_DONE at the end
+                            // of the archive or an error code
+
 } TarRsrcIterator;
 
 #ifdef __cplusplus
diff --git a/src/tar_internal.h b/src/tar_internal.h
new file mode 100644
index 0000000..a07491b
--- /dev/null
+++ b/src/tar_internal.h
@@ -0,0 +1,167 @@
+/* SPDX-License-Identifier: MIT
+Copyright 2021 Kevin Thibedeau
+(kevin 'period' thibedeau 'at' gmail 'punto' com)
+
+See LICENSE in the EVFS project root for details
+*/
+
+/*
+------------------------------------------------------------------------------
+Embedded Virtual Filesystem
+
+  Common code for working with TAR headers
+------------------------------------------------------------------------------
+*/
+
+#ifndef TAR_INTERNAL_H
+#define TAR_INTERNAL_H
+
+#include <string.h>
+
+#include "evfs/tar_common.h"
+
+#define TAR_MAX_OFFSET  (sizeof(evfs_off_t) > 4 ? (evfs_off_t)INT64_MAX : (evfs_off_t)INT32_MAX)
+
+
+// Convert an octal header field. It can have leading spaces and ends with
+// a space, a NUL, or the end of the field.
+static inline bool tar__octal_field(const uint8_t *field, size_t field_len, uint64_t *value) {
+  const uint8_t *end = field + field_len;
+  uint64_t num = 0;
+
+  while(field < end && *field == ' ')
+    field++;
+
+  for(; field < end && *field != ' ' && *field != '\0'; field++) {
+    if(*field < '0' || *field > '7') return false;
+    num = num * 8 + (*field - '0'); // Largest field has 12 digits
+  }
+
+  *value = num;
+  return true;
+}
+
+
+// The end of an archive is marked with empty blocks
+static inline bool tar__empty_header(const TarHeader *header) {
+  const uint8_t *raw_header = (const uint8_t *)header;
+
+  for(size_t i = 0; i < TAR_HEADER_SIZE; i++) {
+    if(raw_header[i] != 0) return false;
+  }
+
+  return true;
+}
+
+
+static inline bool tar__posix_magic(const TarHeader *header) {
+  return memcmp(header->magic, "ustar\0" "00", 8) == 0;
+}
+
+
+static inline bool tar__valid_header(const TarHeader *header) {
+  // Only support ustar format and its older GNU variant
+  if(!tar__posix_magic(header) && memcmp(header->magic, "ustar  ", 8) != 0) return false;
+
+  // Compute the checksum
+  const uint8_t *raw_header = (const uint8_t *)header;
+  uint32_t checksum = 0;
+  for(size_t i = 0; i < offsetof(TarHeader, checksum); i++) {
+    checksum += raw_header[i];
+  }
+  // Replace checksum with spaces
+  for(size_t i = offsetof(TarHeader, checksum); i < offsetof(TarHeader, type_flag); i++) {
+    checksum += ' ';
+  }
+  for(size_t i = offsetof(TarHeader, type_flag); i < TAR_HEADER_SIZE; i++) {
+    checksum += raw_header[i];
+  }
+
+  // Validate
+  uint64_t orig_checksum_value;
+  return tar__octal_field(header->checksum, sizeof(header->checksum), &orig_checksum_value) &&
+         orig_checksum_value == checksum;
+}
+
+
+// Get the size of the data following a header.
+// The size is limited so that the next header has a valid offset.
+static inline bool tar__data_size(const TarHeader *header, evfs_off_t header_offset, evfs_off_t *size) {
+  *size = 0;
+
+  // The size of these isn't the length of any stored data
+  if(header->type_flag >= TAR_TYPE_HARD_LINK && header->type_flag <= TAR_TYPE_FIFO)
+    return true;
+
+  uint64_t value;
+  if(!tar__octal_field(header->size, sizeof(header->size), &value)) return false;
+
+  if(header_offset > TAR_MAX_OFFSET - 2*TAR_BLOCK_SIZE ||
+     value > (uint64_t)(TAR_MAX_OFFSET - 2*TAR_BLOCK_SIZE - header_offset))
+    return false;
+
+  *size = (evfs_off_t)value;
+  return true;
+}
+
+
+// Only plain files and directories are accessible
+static inline bool tar__is_file(const TarHeader *header) {
+  return header->type_flag == TAR_TYPE_NORMAL_FILE || header->type_flag == '\0';
+}
+
+static inline bool tar__is_indexed(const TarHeader *header) {
+  return tar__is_file(header) || header->type_flag == TAR_TYPE_DIRECTORY;
+}
+
+
+// Largest absolute path for a member: "/" + prefix + "/" + name + NUL
+#define TAR_MAX_PATH  (1 + TAR_FILE_PREFIX_LEN + 1 + TAR_FILE_NAME_LEN + 1)
+
+// Append the segments of a name to a normalized absolute path
+static inline size_t tar__append_path(char *path, size_t path_len, const uint8_t *name, size_t name_len) {
+  const char *pos = (const char *)name;
+  const char *end = pos + strnlen(pos, name_len);
+
+  while(pos < end) {
+    const char *seg = pos;
+    while(pos < end && !strchr(EVFS_PATH_SEPS, *pos))
+      pos++;
+
+    size_t seg_len = pos - seg;
+
+    if(seg_len == 2 && seg[0] == '.' && seg[1] == '.') { // Remove last segment
+      while(path_len > 0 && path[--path_len] != EVFS_DIR_SEP);
+
+    } else if(seg_len > 0 && !(seg_len == 1 && seg[0] == '.')) {
+      path[path_len++] = EVFS_DIR_SEP;
+      memcpy(&path[path_len], seg, seg_len);
+      path_len += seg_len;
+    }
+
+    if(pos < end) // Skip separator
+      pos++;
+  }
+
+  return path_len;
+}
+
+
+// Get the normalized absolute path of a member
+// The path must have space for TAR_MAX_PATH chars.
+static inline size_t tar__member_path(const TarHeader *header, char *path) {
+  size_t path_len = 0;
+
+  if(tar__posix_magic(header)) // GNU variant doesn't have a prefix
+    path_len = tar__append_path(path, path_len, header->file_prefix, sizeof(header->file_prefix));
+
+  path_len = tar__append_path(path, path_len, header->file_name, sizeof(header->file_name));
+
+  if(path_len == 0) // Root
+    path[path_len++] = EVFS_DIR_SEP;
+
+  path[path_len] = '\0';
+  return path_len;
+}
+
+#endif // TAR_INTERNAL_H
diff --git a/src/tar_iter.c b/src/tar_iter.c
index b00db91..53de738 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -26,12 +26,14 @@ Embedded Virtual Filesystem
 
 #include "evfs.h"
 #include "evfs/tar_iter.h"
+#include "tar_internal.h"
 
 
 
 void tar_iter_init(TarFileIterator *tar_it, EvfsFile *fd) {
   memset(tar_it, 0, sizeof(TarFileIterator));
   tar_it->fd = fd;
+  tar_it->status = EVFS_DONE; // No member until the first seek
 }
 
 
@@ -41,49 +43,55 @@ void tar_iter_close(TarFileIterator *tar_it) {
 }
 
 
-static bool tar__valid_header(TarHeader *header) {
-  // Only support ustar format
-  if(strcmp((const char *)header->magic, "ustar  ") != 0) return false;
-  
-  // Compute the checksum
+// Read all of a header
+static ptrdiff_t tar__read_header(TarFileIterator *tar_it, TarHeader *header) {
   uint8_t *raw_header = (uint8_t *)header;
-  uint32_t checksum = 0;
-  for(size_t i = 0; i < offsetof(TarHeader, checksum); i++) {
-    checksum += raw_header[i];
-  }
-  // Replace checksum with spaces
-  for(size_t i = offsetof(TarHeader, checksum); i < offsetof(TarHeader, type_flag); i++) {
-    checksum += ' ';
-  }
-  for(size_t i = offsetof(TarHeader, type_flag); i < TAR_HEADER_SIZE; i++) {
-    checksum += raw_header[i];
-  }
+  ptrdiff_t total = 0;
 
-  // Validate  
-  // Only supporting NUL terminated octal with '0' padding
-  uint32_t orig_checksum_value = strtol((const char *)&header->checksum, NULL, 8);
+  while(total < TAR_HEADER_SIZE) {
+    ptrdiff_t read = evfs_file_read(tar_it->fd, &raw_header[total], TAR_HEADER_SIZE - total);
+    if(read < 0) return read;
+    if(read == 0) break;
+    total += read;
+  }
 
-  return orig_checksum_value == checksum;
+  return total;
 }
 
 
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
+  ptrdiff_t read;
+
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
+  if(tar_it->header_offset < 0) {
+    tar_it->status = tar_it->header_offset;
+    goto fail;
+  }
 
-  if(evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE) != TAR_HEADER_SIZE)
+  read = tar__read_header(tar_it, header);
+  if(read < 0) {
+    tar_it->status = read;
     goto fail;
+  }
+
+  if(read == 0 || (read == TAR_HEADER_SIZE && tar__empty_header(header))) {
+    tar_it->status = EVFS_DONE;
+    goto fail;
+  }
+
+  if(read == TAR_HEADER_SIZE && tar__valid_header(header) &&
+     tar__data_size(header, tar_it->header_offset, &tar_it->file_size)) {
 
-  if(tar__valid_header(header)) {
     // Seek to start of next 512 byte TAR block for file data
-    if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK)
+    tar_it->status = evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL);
+    if(tar_it->status != EVFS_OK)
       goto fail;
 
-    // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)header->size, NULL, 8);
     return true;
   }
 
+  tar_it->status = EVFS_ERR_INVALID;
+
 fail:
   tar_it->header_offset = 0;
   tar_it->file_size = 0;
@@ -93,7 +101,8 @@ fail:
 
 
 bool tar_iter_seek(TarFileIterator *tar_it, evfs_off_t offset) {
-  if(evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
@@ -101,11 +110,15 @@ bool tar_iter_seek(TarFileIterator *tar_it, evfs_off_t offset) {
 
 
 bool tar_iter_next(TarFileIterator *tar_it) {
+  if(tar_it->status != EVFS_OK) // No current member
+    return false;
+
   // Position at start of next header
   evfs_off_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   evfs_off_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  if(evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..776c2af 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -26,6 +26,7 @@ Embedded Virtual Filesystem
 
 #include "evfs.h"
 #include "evfs/tar_iter_rsrc.h"
+#include "tar_internal.h"
 
 
 
@@ -34,75 +35,68 @@ void tar_rsrc_iter_init(TarRsrcIterator *tar_it, uint8_t *resource, size_t resou
   tar_it->resource = resource;
   tar_it->read_pos = resource;
   tar_it->resource_len = resource_len;
+  tar_it->status = EVFS_DONE; // No member until the first seek
 }
 
 
-static bool tar__valid_header(TarHeader *header) {
-  // Only support ustar format
-  if(strcmp((const char *)header->magic, "ustar  ") != 0) return false;
-  
-  // Compute the checksum
-  uint8_t *raw_header = (uint8_t *)header;
-  uint32_t checksum = 0;
-  for(size_t i = 0; i < offsetof(TarHeader, checksum); i++) {
-    checksum += raw_header[i];
-  }
-  // Replace checksum with spaces
-  for(size_t i = offsetof(TarHeader, checksum); i < offsetof(TarHeader, type_flag); i++) {
-    checksum += ' ';
-  }
-  for(size_t i = offsetof(TarHeader, type_flag); i < TAR_HEADER_SIZE; i++) {
-    checksum += raw_header[i];
-  }
+static bool tar__rsrc_get_header(TarRsrcIterator *tar_it, size_t offset) {
+  evfs_off_t file_size;
 
-  // Validate  
-  // Only supporting NUL terminated octal with '0' padding
-  uint32_t orig_checksum_value = strtol((const char *)&header->checksum, NULL, 8);
-
-  return orig_checksum_value == checksum;
-}
+  tar_it->cur_header = NULL;
+  tar_it->header_offset = 0;
+  tar_it->file_size = 0;
 
+  tar_it->status = EVFS_DONE;
+  if(offset >= tar_it->resource_len)
+    return false;
 
-static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
-  tar_it->header_offset = tar_it->read_pos - tar_it->resource;
+  tar_it->status = EVFS_ERR_INVALID;
+  if(offset > (size_t)TAR_MAX_OFFSET || tar_it->resource_len - offset < TAR_BLOCK_SIZE)
+    return false;
 
-  tar_it->cur_header = (TarHeader *)tar_it->read_pos;
-  tar_it->read_pos += TAR_HEADER_SIZE;
-  if(tar__valid_header(tar_it->cur_header)) {
-    // Seek to start of next 512 byte TAR block for file data
-    tar_it->read_pos += TAR_BLOCK_SIZE - TAR_HEADER_SIZE;
+  TarHeader *header = (TarHeader *)(tar_it->resource + offset);
 
-    // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
-    return true;
+  if(tar__empty_header(header)) {
+    tar_it->status = EVFS_DONE;
+    return false;
   }
 
-  tar_it->cur_header = NULL;
-  tar_it->header_offset = 0;
-  tar_it->file_size = 0;
+  // File data must be inside the resource
+  if(!tar__valid_header(header) || !tar__data_size(header, offset, &file_size) ||
+     (size_t)file_size > tar_it->resource_len - offset - TAR_BLOCK_SIZE)
+    return false;
+
+  // Seek to start of next 512 byte TAR block for file data
+  tar_it->read_pos = tar_it->resource + offset + TAR_BLOCK_SIZE;
 
-  return false;
+  tar_it->cur_header = header;
+  tar_it->header_offset = offset;
+  tar_it->file_size = file_size;
+  tar_it->status = EVFS_OK;
+  return true;
 }
 
 
 bool tar_rsrc_iter_seek(TarRsrcIterator *tar_it, evfs_off_t offset) {
-  tar_it->read_pos = tar_it->resource + offset;
+  if(offset < 0) {
+    tar_it->cur_header = NULL;
+    tar_it->status = EVFS_ERR_BAD_ARG;
+    return false;
+  }
 
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, offset);
 }
 
 
 bool tar_rsrc_iter_next(TarRsrcIterator *tar_it) {
+  if(tar_it->status != EVFS_OK) // No current member
+    return false;
+
   // Position at start of next header
   size_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   size_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  tar_it->read_pos = tar_it->resource + next_header;
-  if((size_t)(tar_it->read_pos - tar_it->resource) >= tar_it->resource_len)
-    return false;
-
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, next_header);
 }
 
 
-- 
2.43.0


From 196542295252dd5af61d923dc33110e701c4c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 37/71] fix: tar: exact paths, failed mounts, read errors and
 current directory

Registration ignored failures building the index. Paths used truncated or
unnormalized names and dropped the prefix separator, the root did not exist,
a missing file was opened or not depending on uninitialized memory, failed
reads of the archive still advanced, a path too long left the lock held and
the current directory was neither normalized, checked for overflow nor locked.
---
 src/tar_fs.c      | 291 +++++++++++++++++++++++++++-------------------
 src/tar_rsrc_fs.c | 277 ++++++++++++++++++++++++-------------------
 2 files changed, 329 insertions(+), 239 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 989164e..cc4842f 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -24,6 +24,7 @@ Embedded Virtual Filesystem
 #include "evfs_internal.h"
 #include "evfs/tar_iter.h"
 #include "evfs/tar_fs.h"
+#include "tar_internal.h"
 
 #include "evfs/util/dhash.h"
 #include "evfs/util/range_strings.h"
@@ -46,6 +47,15 @@ Embedded Virtual Filesystem
 #  define UNLOCK()
 #endif
 
+// The current directory is read while tfs_lock is held so it needs its own lock
+#ifdef EVFS_USE_THREADING
+#  define CWD_LOCK()    evfs__lock(&fs_data->cwd_lock)
+#  define CWD_UNLOCK()  evfs__unlock(&fs_data->cwd_lock)
+#else
+#  define CWD_LOCK()
+#  define CWD_UNLOCK()
+#endif
+
 
 typedef struct EvfsTarEntry {
   evfs_off_t header_offset;
@@ -73,6 +83,9 @@ typedef struct TarfsData {
 #ifdef USE_TARFS_LOCK
   EvfsLock  tfs_lock; // Serialize access to shared abs_path buffer
 #endif
+#ifdef EVFS_USE_THREADING
+  EvfsLock  cwd_lock; // Serialize access to cur_dir
+#endif
 
 } TarfsData;
 
@@ -89,61 +102,55 @@ typedef struct TarfsFile {
 
 
 
-// Helper to convert relative paths into absolute for the tfs API
-// Returned path must be freed
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+#  define FREE_ABS(abs_path)  UNLOCK()
+#else
+#  define FREE_ABS(abs_path)  evfs_free(abs_path)
+#endif
 
-static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool force_malloc) {
-  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
-  *absolute = NULL;
 
-  size_t abs_size;
-  char *abs_path = NULL;
+// Helper to convert paths into normalized absolute paths for the tfs API
+// Returned path must be released with FREE_ABS()
 
+static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
-  if(!force_malloc) {
-    abs_size = COUNT_OF(fs_data->abs_path);
-    LOCK(); // Unlocked by FREE_ABS() macro
-    abs_path = fs_data->abs_path;
-  }
-#endif
-
-  if(force_malloc || !abs_path) {
-    abs_size = strlen(path) + 1;
-    *absolute = NULL;
+  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+  size_t abs_size = COUNT_OF(fs_data->abs_path);
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+  LOCK(); // Unlocked by FREE_ABS() macro
+  char *abs_path = fs_data->abs_path;
+#else
+  size_t abs_size = strlen(path) + 1;
 
-    abs_path = evfs_malloc(abs_size);
-    if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
-  }
+  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
+    abs_size += EVFS_MAX_PATH;
 
+  char *abs_path = evfs_malloc(abs_size);
+  if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
+#endif
 
   AppendRange abs_path_r;
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
-    *absolute = abs_path;
+  if(status != EVFS_OK) {
+    FREE_ABS(abs_path);
+    abs_path = NULL;
+  }
 
+  *absolute = abs_path;
   return status;
 }
 
 
 // Prepare a buffer for the absolute path
 #define MAKE_ABS(path, abs_path) char *abs_path; do { \
- int status = make_absolute_path(vfs, path, &abs_path, false); \
+ int status = make_absolute_path(vfs, path, &abs_path); \
  if(status != EVFS_OK) \
     return status; \
 } while(0)
 
 
-#ifdef EVFS_USE_TARFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)  UNLOCK()
-#else
-#  define FREE_ABS(abs_path)  evfs_free(abs_path)
-#endif
-
 
 // ******************** Tar index ********************
 
@@ -155,7 +162,7 @@ static void destroy_hashed_file(dhKey key, void *value, void *ctx) {
 
 static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t total_path_len) {
   dhConfig s_hash_init = {
-    .init_buckets = total_files,
+    .init_buckets = MAX(total_files, 1),
     .value_size   = sizeof(EvfsTarEntry),
 
     .destroy_item = destroy_hashed_file,
@@ -167,8 +174,7 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  return dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR_ALLOC;
 }
 
 
@@ -179,80 +185,99 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
-static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
-  if(!tar_iter_begin(tar_it)) return EVFS_ERR;
+// Count files and determine total string storage for keys
+static int tarfs__scan_archive(TarFileIterator *tar_it, int *total_files, size_t *total_path_len) {
+  char path[TAR_MAX_PATH];
+
+  *total_files = 0;
+  *total_path_len = 0;
+
+  if(!tar_iter_begin(tar_it)) // Empty archives have no headers
+    return tar_it->status == EVFS_DONE ? EVFS_OK : tar_it->status;
 
-  size_t total_path_len = 0;
-  int total_files = 0;
-  // Scan the tar file to count files and determine total string storage for keys
   do {
-    // Only index plain files and directories
-    if(tar_it->cur_header.type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
+    if(!tar__is_indexed(&tar_it->cur_header)) continue;
 
-    total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    (*total_files)++;
+    *total_path_len += tar__member_path(&tar_it->cur_header, path) + 1;
 
   } while(tar_iter_next(tar_it));
 
+  // Anything else that isn't a header ends the archive
+  if(tar_it->status == EVFS_DONE || tar_it->status == EVFS_ERR_INVALID)
+    return EVFS_OK;
+
+  return tar_it->status;
+}
+
+
+static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
+  size_t total_path_len;
+  int total_files;
+
+  int err = tarfs__scan_archive(tar_it, &total_files, &total_path_len);
+  if(err != EVFS_OK) return err;
 
   // Prepare the hash index
-  int err = tarfs__index_hash_init(ht, total_files, total_path_len);
+  err = tarfs__index_hash_init(ht, total_files, total_path_len + 1);
   if(err != EVFS_OK) return err;
 
+  if(total_files == 0) return EVFS_OK;
 
-  AppendRange keys_r;
-  range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_iter_begin(tar_it);
+  char path[TAR_MAX_PATH];
+  size_t keys_len = 0;
+
+  if(!tar_iter_begin(tar_it)) return EVFS_ERR_IO;
 
   do {
-    // Only index plain files and directories
-    if(tar_it->cur_header.type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
+    if(!tar__is_indexed(&tar_it->cur_header)) continue;
 
+    size_t path_len = tar__member_path(&tar_it->cur_header, path);
+    if(total_files == 0 || path_len + 1 > total_path_len - keys_len)
+      return EVFS_ERR_IO; // The archive changed
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
-// FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
-    range_cat_char(&keys_r,'\0');
+    key.data = &ht->keys[keys_len];
+    key.length = path_len;
+
+    memcpy(&ht->keys[keys_len], path, path_len + 1);
+    keys_len += path_len + 1;
 
     EvfsTarEntry entry;
 
-    if(tar_it->cur_header.type_flag == TAR_TYPE_NORMAL_FILE) {
+    if(tar__is_file(&tar_it->cur_header)) {
       entry.header_offset = tar_it->header_offset;
       entry.file_size = tar_it->file_size;
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
-      return EVFS_ERR;
+      return EVFS_ERR_ALLOC;
 
+    total_files--;
   } while(tar_iter_next(tar_it));
 
-
-  return EVFS_OK;
+  return total_files == 0 ? EVFS_OK : EVFS_ERR_IO;
 }
 
 
+// Find the entry for a normalized absolute path
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
-  if(path[0] != '/') return false; // All paths must be absolute
+  // The root always exists
+  if(path[0] == EVFS_DIR_SEP && path[1] == '\0') {
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
 
   dhKey key;
 
-  key.data = &path[1];
+  key.data = path;
   key.length = strlen(key.data);
 
   return dh_lookup(&ht->hash_table, key, entry);
@@ -282,13 +307,17 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   evfs_off_t remaining = fil->file_size - fil->read_pos;
   if(remaining <= 0) return 0;
 
-  if((evfs_off_t)size > remaining)
+  if((uintmax_t)size > (uintmax_t)remaining)
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos,
+                                  EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
+
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   return rval;
@@ -376,20 +405,14 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_NO_EXIST | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
-
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -412,13 +435,9 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   EvfsTarEntry entry;
   int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
@@ -440,49 +459,53 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
-  return EVFS_OK;
+  CWD_LOCK();
+  int copied = range_cat_str(&r, fs_data->cur_dir);
+  CWD_UNLOCK();
+
+  return copied < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
 
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+  char old_dir[EVFS_MAX_PATH];
+  char joined_path[EVFS_MAX_PATH];
+  char new_dir[EVFS_MAX_PATH];
+  bool is_absolute = evfs_vfs_path_is_absolute(vfs, path);
+  bool changed;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+  do {
+    StringRange old_dir_r = RANGE_FROM_ARRAY(old_dir);
+    int status = tarfs__get_cur_dir(vfs, &old_dir_r);
+    if(status != EVFS_OK) return status;
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
+    const char *full_path = path;
 
-    range_init(&joined, joined_path, joined_size);
+    if(!is_absolute) { // Path is relative: Join it to the existing directory
+      StringRange joined = RANGE_FROM_ARRAY(joined_path);
+      status = evfs_vfs_path_join_str(vfs, old_dir, path, &joined);
+      if(status != EVFS_OK) return status;
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+      full_path = joined_path;
+    }
+
+    StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
+    status = evfs_vfs_path_normalize(vfs, full_path, &new_dir_r);
+    if(status != EVFS_OK) return status;
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
+    if(!evfs__vfs_existing_dir(vfs, new_dir))
       return EVFS_ERR_NO_PATH;
-    }
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-
-    evfs_free(joined_path);
-  }
+    // Overwrite old cur_dir unless another thread has moved a relative base
+    CWD_LOCK();
+    changed = !is_absolute && strcmp(old_dir, fs_data->cur_dir) != 0;
+    if(!changed)
+      strcpy(fs_data->cur_dir, new_dir);
+    CWD_UNLOCK();
+  } while(changed);
 
   return EVFS_OK;
 }
@@ -499,6 +522,9 @@ static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
       tarfs__index_hash_free(&fs_data->tar_index);
 #ifdef USE_TARFS_LOCK
       evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+#ifdef EVFS_USE_THREADING
+      evfs__lock_destroy(&fs_data->cwd_lock);
 #endif
       evfs_free(vfs);
       return EVFS_OK; break;
@@ -562,7 +588,9 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK)
+    goto fail_index;
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -581,12 +609,31 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
-    evfs_free(new_vfs);
-    THROW(EVFS_ERR_INIT);
+    status = EVFS_ERR_INIT;
+    goto fail_index;
+  }
+#endif
+
+#ifdef EVFS_USE_THREADING
+  if(evfs__lock_init(&fs_data->cwd_lock) != EVFS_OK) {
+    status = EVFS_ERR_INIT;
+    goto fail_lock;
   }
 #endif
 
   return evfs_register(new_vfs, default_vfs);
+
+  // Clean up when registration fails. The caller keeps tar_file.
+#ifdef EVFS_USE_THREADING
+fail_lock:
+#endif
+#ifdef USE_TARFS_LOCK
+  evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+fail_index:
+  tarfs__index_hash_free(&fs_data->tar_index);
+  evfs_free(new_vfs);
+  THROW(status);
 }
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index c41f8b5..c05b3b4 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -33,6 +33,7 @@ Embedded Virtual Filesystem
 #include "evfs_internal.h"
 #include "evfs/tar_iter_rsrc.h"
 #include "evfs/tar_rsrc_fs.h"
+#include "tar_internal.h"
 
 #include "evfs/util/dhash.h"
 #include "evfs/util/range_strings.h"
@@ -54,6 +55,15 @@ Embedded Virtual Filesystem
 #  define UNLOCK()
 #endif
 
+// The current directory is read while tfs_lock is held so it needs its own lock
+#ifdef EVFS_USE_THREADING
+#  define CWD_LOCK()    evfs__lock(&fs_data->cwd_lock)
+#  define CWD_UNLOCK()  evfs__unlock(&fs_data->cwd_lock)
+#else
+#  define CWD_LOCK()
+#  define CWD_UNLOCK()
+#endif
+
 
 typedef struct EvfsTarEntry {
   ptrdiff_t header_offset;
@@ -83,6 +93,9 @@ typedef struct TarfsData {
 #ifdef USE_TARFS_LOCK
   EvfsLock  tfs_lock; // Serialize access to shared abs_path buffer
 #endif
+#ifdef EVFS_USE_THREADING
+  EvfsLock  cwd_lock; // Serialize access to cur_dir
+#endif
 
 } TarfsData;
 
@@ -99,61 +112,55 @@ typedef struct TarfsFile {
 
 
 
-// Helper to convert relative paths into absolute for the tfs API
-// Returned path must be freed
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+#  define FREE_ABS(abs_path)  UNLOCK()
+#else
+#  define FREE_ABS(abs_path)  evfs_free(abs_path)
+#endif
 
-static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool force_malloc) {
-  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
-  *absolute = NULL;
 
-  size_t abs_size;
-  char *abs_path = NULL;
+// Helper to convert paths into normalized absolute paths for the tfs API
+// Returned path must be released with FREE_ABS()
 
+static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
 #ifdef EVFS_USE_TARFS_SHARED_BUFFER
-  if(!force_malloc) {
-    abs_size = COUNT_OF(fs_data->abs_path);
-    LOCK(); // Unlocked by FREE_ABS() macro
-    abs_path = fs_data->abs_path;
-  }
-#endif
-
-  if(force_malloc || !abs_path) {
-    abs_size = strlen(path) + 1;
-    *absolute = NULL;
+  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+  size_t abs_size = COUNT_OF(fs_data->abs_path);
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+  LOCK(); // Unlocked by FREE_ABS() macro
+  char *abs_path = fs_data->abs_path;
+#else
+  size_t abs_size = strlen(path) + 1;
 
-    abs_path = evfs_malloc(abs_size);
-    if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
-  }
+  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
+    abs_size += EVFS_MAX_PATH;
 
+  char *abs_path = evfs_malloc(abs_size);
+  if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
+#endif
 
   AppendRange abs_path_r;
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
-    *absolute = abs_path;
+  if(status != EVFS_OK) {
+    FREE_ABS(abs_path);
+    abs_path = NULL;
+  }
 
+  *absolute = abs_path;
   return status;
 }
 
 
 // Prepare a buffer for the absolute path
 #define MAKE_ABS(path, abs_path) char *abs_path; do { \
- int status = make_absolute_path(vfs, path, &abs_path, false); \
+ int status = make_absolute_path(vfs, path, &abs_path); \
  if(status != EVFS_OK) \
     return status; \
 } while(0)
 
 
-#ifdef EVFS_USE_TARFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)  UNLOCK()
-#else
-#  define FREE_ABS(abs_path)  evfs_free(abs_path)
-#endif
-
 
 // ******************** Tar index ********************
 
@@ -165,7 +172,7 @@ static void destroy_hashed_file(dhKey key, void *value, void *ctx) {
 
 static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t total_path_len) {
   dhConfig s_hash_init = {
-    .init_buckets = total_files,
+    .init_buckets = MAX(total_files, 1),
     .value_size   = sizeof(EvfsTarEntry),
 
     .destroy_item = destroy_hashed_file,
@@ -177,8 +184,7 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  return dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR_ALLOC;
 }
 
 
@@ -189,80 +195,99 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
-static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
-  if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR;
+// Count files and determine total string storage for keys
+static int tarfs__scan_archive(TarRsrcIterator *tar_it, int *total_files, size_t *total_path_len) {
+  char path[TAR_MAX_PATH];
+
+  *total_files = 0;
+  *total_path_len = 0;
+
+  if(!tar_rsrc_iter_begin(tar_it)) // Empty archives have no headers
+    return tar_it->status == EVFS_DONE ? EVFS_OK : tar_it->status;
 
-  size_t total_path_len = 0;
-  int total_files = 0;
-  // Scan the tar file to count files and determine total string storage for keys
   do {
-    // Only index plain files and directories
-    if(tar_it->cur_header->type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
+    if(!tar__is_indexed(tar_it->cur_header)) continue;
 
-    total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    (*total_files)++;
+    *total_path_len += tar__member_path(tar_it->cur_header, path) + 1;
 
   } while(tar_rsrc_iter_next(tar_it));
 
+  // Anything else that isn't a header ends the archive
+  if(tar_it->status == EVFS_DONE || tar_it->status == EVFS_ERR_INVALID)
+    return EVFS_OK;
+
+  return tar_it->status;
+}
+
+
+static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
+  size_t total_path_len;
+  int total_files;
+
+  int err = tarfs__scan_archive(tar_it, &total_files, &total_path_len);
+  if(err != EVFS_OK) return err;
 
   // Prepare the hash index
-  int err = tarfs__index_hash_init(ht, total_files, total_path_len);
+  err = tarfs__index_hash_init(ht, total_files, total_path_len + 1);
   if(err != EVFS_OK) return err;
 
+  if(total_files == 0) return EVFS_OK;
 
-  AppendRange keys_r;
-  range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_rsrc_iter_begin(tar_it);
+  char path[TAR_MAX_PATH];
+  size_t keys_len = 0;
+
+  if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR_IO;
 
   do {
-    // Only index plain files and directories
-    if(tar_it->cur_header->type_flag != TAR_TYPE_NORMAL_FILE &&
-       tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
+    if(!tar__is_indexed(tar_it->cur_header)) continue;
 
+    size_t path_len = tar__member_path(tar_it->cur_header, path);
+    if(total_files == 0 || path_len + 1 > total_path_len - keys_len)
+      return EVFS_ERR_IO; // The archive changed
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
+    key.data = &ht->keys[keys_len];
+    key.length = path_len;
 
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
-    range_cat_char(&keys_r,'\0');
+    memcpy(&ht->keys[keys_len], path, path_len + 1);
+    keys_len += path_len + 1;
 
     EvfsTarEntry entry;
 
-    if(tar_it->cur_header->type_flag == TAR_TYPE_NORMAL_FILE) {
+    if(tar__is_file(tar_it->cur_header)) {
       entry.header_offset = tar_it->header_offset;
       entry.file_size = tar_it->file_size;
     } else {  // Directory entry
       entry.header_offset = -1;
       entry.file_size = -1;
-
-      // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
-      return EVFS_ERR;
+      return EVFS_ERR_ALLOC;
 
+    total_files--;
   } while(tar_rsrc_iter_next(tar_it));
 
-
-  return EVFS_OK;
+  return total_files == 0 ? EVFS_OK : EVFS_ERR_IO;
 }
 
 
+// Find the entry for a normalized absolute path
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
-  if(path[0] != '/') return false; // All paths must be absolute
+  // The root always exists
+  if(path[0] == EVFS_DIR_SEP && path[1] == '\0') {
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
 
   dhKey key;
 
-  key.data = &path[1];
+  key.data = path;
   key.length = strlen(key.data);
 
   return dh_lookup(&ht->hash_table, key, entry);
@@ -397,20 +422,14 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_NO_EXIST | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
-
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -433,13 +452,9 @@ static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   EvfsTarEntry entry;
   int err;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR_NO_FILE;
+  FREE_ABS(abs_path);
 
   memset(info, 0, sizeof(*info));
 
@@ -461,49 +476,53 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
-  return EVFS_OK;
+  CWD_LOCK();
+  int copied = range_cat_str(&r, fs_data->cur_dir);
+  CWD_UNLOCK();
+
+  return copied < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
 
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+  char old_dir[EVFS_MAX_PATH];
+  char joined_path[EVFS_MAX_PATH];
+  char new_dir[EVFS_MAX_PATH];
+  bool is_absolute = evfs_vfs_path_is_absolute(vfs, path);
+  bool changed;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+  do {
+    StringRange old_dir_r = RANGE_FROM_ARRAY(old_dir);
+    int status = tarfs__get_cur_dir(vfs, &old_dir_r);
+    if(status != EVFS_OK) return status;
+
+    const char *full_path = path;
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
+    if(!is_absolute) { // Path is relative: Join it to the existing directory
+      StringRange joined = RANGE_FROM_ARRAY(joined_path);
+      status = evfs_vfs_path_join_str(vfs, old_dir, path, &joined);
+      if(status != EVFS_OK) return status;
 
-    range_init(&joined, joined_path, joined_size);
+      full_path = joined_path;
+    }
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
+    status = evfs_vfs_path_normalize(vfs, full_path, &new_dir_r);
+    if(status != EVFS_OK) return status;
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
+    if(!evfs__vfs_existing_dir(vfs, new_dir))
       return EVFS_ERR_NO_PATH;
-    }
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-
-    evfs_free(joined_path);
-  }
+    // Overwrite old cur_dir unless another thread has moved a relative base
+    CWD_LOCK();
+    changed = !is_absolute && strcmp(old_dir, fs_data->cur_dir) != 0;
+    if(!changed)
+      strcpy(fs_data->cur_dir, new_dir);
+    CWD_UNLOCK();
+  } while(changed);
 
   return EVFS_OK;
 }
@@ -519,6 +538,9 @@ static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
       tarfs__index_hash_free(&fs_data->tar_index);
 #ifdef USE_TARFS_LOCK
       evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+#ifdef EVFS_USE_THREADING
+      evfs__lock_destroy(&fs_data->cwd_lock);
 #endif
       evfs_free(vfs);
       return EVFS_OK; break;
@@ -586,7 +608,9 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK)
+    goto fail_index;
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -605,12 +629,31 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
-    evfs_free(new_vfs);
-    THROW(EVFS_ERR_INIT);
+    status = EVFS_ERR_INIT;
+    goto fail_index;
+  }
+#endif
+
+#ifdef EVFS_USE_THREADING
+  if(evfs__lock_init(&fs_data->cwd_lock) != EVFS_OK) {
+    status = EVFS_ERR_INIT;
+    goto fail_lock;
   }
 #endif
 
   return evfs_register(new_vfs, default_vfs);
+
+  // Clean up when registration fails
+#ifdef EVFS_USE_THREADING
+fail_lock:
+#endif
+#ifdef USE_TARFS_LOCK
+  evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+fail_index:
+  tarfs__index_hash_free(&fs_data->tar_index);
+  evfs_free(new_vfs);
+  THROW(status);
 }
 
 
-- 
2.43.0


From f87a6511c8787c0c1b9541bddd004a474f59ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 38/71] fix: registration: check names under the lock and do
 not lose duplicate objects

Names were searched before taking the library lock, the default VFS and the
list were read without it, and registering a second VFS or shim under a name
in use reported success while leaking the new object and ignoring its
settings. That is now EVFS_ERR_EXISTS.
---
 src/evfs.c          | 114 +++++++++++++++++++++++++++-----------------
 src/evfs_internal.h |   1 +
 src/fatfs_fs.c      |   6 ++-
 src/littlefs_fs.c   |   6 ++-
 src/shim_jail.c     |   6 ++-
 src/shim_rotate.c   |   6 ++-
 src/shim_trace.c    |   6 ++-
 src/tar_fs.c        |   8 +++-
 src/tar_rsrc_fs.c   |   8 +++-
 9 files changed, 110 insertions(+), 51 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 82ec9cd..b07094b 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -256,6 +256,22 @@ static bool default__path_root_component(Evfs *vfs, const char *path, StringRang
 // ******************** VFS registration ********************
 
 
+// Search for a VFS by name. The library lock must be held.
+static Evfs *evfs__search_vfs_list(const char *vfs_name) {
+  Evfs *rval = NULL;
+  Evfs *cur_vfs = s_vfs_list;
+
+  while(cur_vfs) {
+    if(!strcmp(cur_vfs->vfs_name, vfs_name))
+      rval = cur_vfs;
+
+    cur_vfs = cur_vfs->next;
+  }
+
+  return rval;
+}
+
+
 /*
 Search for a VFS by name
 
@@ -267,17 +283,9 @@ Returns:
 */
 Evfs *evfs_find_vfs(const char *vfs_name) {
   if(PTR_CHECK(vfs_name)) return NULL;
-  Evfs *rval = NULL;
 
   LOCK();
-  Evfs *cur_vfs = s_vfs_list;
-
-  while(cur_vfs) {
-    if(!strcmp(cur_vfs->vfs_name, vfs_name))
-      rval = cur_vfs;
-
-    cur_vfs = cur_vfs->next;
-  }
+  Evfs *rval = evfs__search_vfs_list(vfs_name);
   UNLOCK();
 
   return rval;
@@ -288,11 +296,13 @@ Evfs *evfs_find_vfs(const char *vfs_name) {
 static Evfs *evfs__get_vfs(const char *vfs_name) {
   Evfs *vfs = NULL;
 
+  LOCK();
   if(vfs_name)
-    vfs = evfs_find_vfs(vfs_name);
+    vfs = evfs__search_vfs_list(vfs_name);
 
   if(!vfs) // No name provided or not found in registered list
     vfs = s_default_vfs;
+  UNLOCK();
 
   return vfs;
 }
@@ -324,42 +334,31 @@ const char *evfs_default_vfs_name(void) {
 }
 
 
-/*
-Register a new VFS or change the default status of an existing VFS
-
-If the VFS has already been registered the make_default argument will
-update the status of this VFS.
-
-If there is only one registered VFS, make_default is ignored.
-
-This will fail if evfs_init() hasn't been called.
-
-Args:
-  vfs:           The new VFS to register
-  make_default:  Set this VFS to be default or not
-
-Returns:
-  EVFS_OK on success
-*/
-int evfs_register(Evfs *vfs, bool make_default) {
+// Add a VFS to the list or update its default status when it exists
+static int evfs__add_vfs(Evfs *vfs, bool make_default, bool allow_existing) {
   bool new_vfs = false;
 
-  if(PTR_CHECK(vfs)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs) || PTR_CHECK(vfs->vfs_name)) return EVFS_ERR_BAD_ARG;
 
   // Check if evfs_init() was called
   if(!s_evfs_initialized) THROW(EVFS_ERR_INIT);
 
+  LOCK();
 
   if(s_vfs_list) { // Prepend entry to existing list
     // Check if this VFS is already registered
-    Evfs *existing_vfs = evfs_find_vfs(vfs->vfs_name);
+    Evfs *existing_vfs = evfs__search_vfs_list(vfs->vfs_name);
 
-    LOCK();
     if(!existing_vfs) { // Add a New VFS
       vfs->next = s_vfs_list;
       s_vfs_list = vfs;
       new_vfs = true;
     } else {
+      if(!allow_existing) {
+        UNLOCK();
+        THROW(EVFS_ERR_EXISTS);
+      }
+
       vfs = existing_vfs; // Make sure we use the correct object already in the list
     }
 
@@ -380,12 +379,8 @@ int evfs_register(Evfs *vfs, bool make_default) {
         s_default_vfs = vfs;
     }
 
-    if(!new_vfs) {
-      UNLOCK();
-    }
-
   } else { // First VFS entry
-    LOCK();
+    vfs->next = NULL;
     s_default_vfs = vfs; // First entry must be the default
     s_vfs_list = vfs;
 
@@ -406,13 +401,42 @@ int evfs_register(Evfs *vfs, bool make_default) {
     if(!vfs->m_vfs_ctrl)     vfs->m_vfs_ctrl = default__vfs_ctrl;
 
     if(!vfs->m_path_root_component) vfs->m_path_root_component = default__path_root_component;
-    UNLOCK();
   }
 
+  UNLOCK();
   return EVFS_OK;
 }
 
 
+/*
+Register a new VFS or change the default status of an existing VFS
+
+If the VFS has already been registered the make_default argument will
+update the status of this VFS.
+
+If there is only one registered VFS, make_default is ignored.
+
+This will fail if evfs_init() hasn't been called.
+
+Args:
+  vfs:           The new VFS to register
+  make_default:  Set this VFS to be default or not
+
+Returns:
+  EVFS_OK on success
+*/
+int evfs_register(Evfs *vfs, bool make_default) {
+  return evfs__add_vfs(vfs, make_default, /*allow_existing*/ true);
+}
+
+
+// Register a newly constructed VFS. The caller has to free it when this fails
+// because the name is in use.
+int evfs__register_new(Evfs *vfs, bool make_default) {
+  return evfs__add_vfs(vfs, make_default, /*allow_existing*/ false);
+}
+
+
 /*
 Unregister a VFS object
 
@@ -469,14 +493,16 @@ int evfs_unregister(Evfs *vfs) {
 Unregister all registered VFS objects
 */
 void evfs_unregister_all(void) {
-  Evfs *cur_vfs = s_vfs_list;
-  Evfs *next_vfs;
+  Evfs *cur_vfs;
 
-  while(cur_vfs) {
-    next_vfs = cur_vfs->next;
-    evfs_unregister(cur_vfs);
-    cur_vfs = next_vfs;
-  }
+  do {
+    LOCK();
+    cur_vfs = s_vfs_list;
+    UNLOCK();
+
+    if(cur_vfs)
+      evfs_unregister(cur_vfs);
+  } while(cur_vfs);
 }
 
 
diff --git a/src/evfs_internal.h b/src/evfs_internal.h
index c790f39..7fb1508 100644
--- a/src/evfs_internal.h
+++ b/src/evfs_internal.h
@@ -154,6 +154,7 @@ static inline int evfs__nop(EvfsLock *(l)) { return 0; }
 
 void evfs__lib_init(void);  // Called by evfs__init_once()
 
+int evfs__register_new(Evfs *vfs, bool make_default);
 bool evfs__vfs_existing_dir(Evfs *vfs, const char *path);
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin);
 char *evfs__vmprintf(const char *fmt, va_list args);
diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 3e495e5..2fadb96 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -552,6 +552,10 @@ int evfs_register_fatfs(const char *vfs_name, uint8_t pdrv, bool default_vfs) {
   
   new_vfs->m_path_root_component = fatfs__path_root_component;
 
-  return evfs_register(new_vfs, default_vfs);
+  int status = evfs__register_new(new_vfs, default_vfs);
+  if(status != EVFS_OK) // Free the unused VFS
+    new_vfs->m_vfs_ctrl(new_vfs, EVFS_CMD_UNREGISTER, NULL);
+
+  return status;
 }
 
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d84866a..cf9286d 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -616,7 +616,11 @@ int evfs_register_littlefs(const char *vfs_name, lfs_t *lfs, bool default_vfs) {
   }
 #endif
 
-  return evfs_register(new_vfs, default_vfs);
+  int status = evfs__register_new(new_vfs, default_vfs);
+  if(status != EVFS_OK) // Free the unused VFS
+    new_vfs->m_vfs_ctrl(new_vfs, EVFS_CMD_UNREGISTER, NULL);
+
+  return status;
 }
 
 
diff --git a/src/shim_jail.c b/src/shim_jail.c
index d9cae85..e1046d1 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -581,6 +581,10 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   }
 #endif
 
-  return evfs_register(shim_vfs, default_vfs);
+  status = evfs__register_new(shim_vfs, default_vfs);
+  if(status != EVFS_OK) // Free the unused shim
+    shim_vfs->m_vfs_ctrl(shim_vfs, EVFS_CMD_UNREGISTER, NULL);
+
+  return status;
 }
 
diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index db229a6..db4b1a6 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1662,6 +1662,10 @@ int evfs_register_rotate(const char *vfs_name, const char *old_vfs_name, RotateC
 #endif
 
 
-  return evfs_register(shim_vfs, default_vfs);
+  status = evfs__register_new(shim_vfs, default_vfs);
+  if(status != EVFS_OK) // Free the unused shim
+    shim_vfs->m_vfs_ctrl(shim_vfs, EVFS_CMD_UNREGISTER, NULL);
+
+  return status;
 }
 
diff --git a/src/shim_trace.c b/src/shim_trace.c
index d0d43d1..1f1ac91 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -574,6 +574,10 @@ int evfs_register_trace(const char *vfs_name, const char *old_vfs_name,
 
   shim_vfs->m_path_root_component = trace__path_root_component;
 
-  return evfs_register(shim_vfs, default_vfs);
+  int status = evfs__register_new(shim_vfs, default_vfs);
+  if(status != EVFS_OK) // Free the unused shim
+    shim_vfs->m_vfs_ctrl(shim_vfs, EVFS_CMD_UNREGISTER, NULL);
+
+  return status;
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index cc4842f..033154e 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -621,10 +621,16 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
   }
 #endif
 
-  return evfs_register(new_vfs, default_vfs);
+  status = evfs__register_new(new_vfs, default_vfs);
+  if(status != EVFS_OK)
+    goto fail_register;
+
+  return EVFS_OK;
 
   // Clean up when registration fails. The caller keeps tar_file.
+fail_register:
 #ifdef EVFS_USE_THREADING
+  evfs__lock_destroy(&fs_data->cwd_lock);
 fail_lock:
 #endif
 #ifdef USE_TARFS_LOCK
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index c05b3b4..3557083 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -641,10 +641,16 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
   }
 #endif
 
-  return evfs_register(new_vfs, default_vfs);
+  status = evfs__register_new(new_vfs, default_vfs);
+  if(status != EVFS_OK)
+    goto fail_register;
+
+  return EVFS_OK;
 
   // Clean up when registration fails
+fail_register:
 #ifdef EVFS_USE_THREADING
+  evfs__lock_destroy(&fs_data->cwd_lock);
 fail_lock:
 #endif
 #ifdef USE_TARFS_LOCK
-- 
2.43.0


From 5b1fcfdd0fa0dc1952893d5febb15c5571ef0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 39/71] fix: rotate: refuse a missing configuration

---
 src/shim_rotate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index db4b1a6..80f61a7 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1603,7 +1603,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_rotate(const char *vfs_name, const char *old_vfs_name, RotateConfig *cfg, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(cfg)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   RotateData *shim_data;
-- 
2.43.0


From 26568d1492e31026d1870581ad07b11bf8572164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 40/71] fix: romfs: exact lookups and listings, bounded hostile
 images, failed mounts and read errors

Index values overflowed the stack variable they were copied to; hard linked
files appeared as directories; paths resolved differently with and without
the index; long names hid the rest of a directory; data outside the image and
endless or recursive directories were followed; read errors ended listings as
if complete and advanced the position; failed mounts leaked; the image was
read without a lock; too long paths left the lock held; the current directory
was neither normalized nor checked for overflow.
---
 include/evfs/romfs_common.h |  12 +
 src/romfs_common.c          | 565 ++++++++++++++++++------------------
 src/romfs_fs.c              | 288 ++++++++++--------
 3 files changed, 453 insertions(+), 412 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 0fcc3d7..19b2617 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -7,6 +7,9 @@
 #define ROMFS_MAX_HEADER_SIZE ((16 + EVFS_ROMFS_MAX_NAME_LEN + 15) & ~0xF)
 #define ROMFS_MIN_HEADER_SIZE (16 + 2)
 
+// Upper bound on the number of entries in an image
+#define ROMFS_MAX_HEADERS(fs)  ((fs)->total_size / 16)
+
 
 #define FILE_MODE_MASK  0x0F
 #define FILE_TYPE_MASK  0x07
@@ -87,6 +90,8 @@ extern "C" {
 int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
+int romfs_load_file_header(Romfs *fs, evfs_off_t hdr_pos, RomfsFileHead *hdr);
+int romfs_resolve_entry(Romfs *fs, evfs_off_t hdr_pos, RomfsFileHead *hdr);
 bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
 
 
@@ -98,6 +103,13 @@ static inline int romfs_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHe
   return fs->lookup_abs_path(fs, path, hdr);
 }
 
+// Directories contain hard links to themselves and their parent
+static inline bool romfs_is_dot_entry(const RomfsFileHead *hdr) {
+  const char *name = hdr->file_name;
+  return name[0] == '.' && (name[1] == '\0' || (name[1] == '.' && name[2] == '\0'));
+}
+
+void romfs_free(Romfs *fs);
 void romfs_unmount(Romfs *fs);
 
 #ifdef __cplusplus
diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e163f1..65c6299 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -1,7 +1,6 @@
 
 #include <stdio.h>
 #include <string.h>
-#include <stdalign.h>
 
 #include "evfs.h"
 #include "evfs_internal.h"
@@ -17,158 +16,210 @@
 
 // ******************** Romfs core ********************
 
-static inline int file_header_len(RomfsFileHead *hdr) {
-  // Header = 16 bytes + file_name
-  // Round up to 16-byte boundary
-  return (16 + strnlen(hdr->file_name, EVFS_ROMFS_MAX_NAME_LEN-1)+1 + 15) & ~0xF;
+// Read all of a buffer unless the image ends
+static ptrdiff_t romfs__read_all(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
+  uint8_t *data = (uint8_t *)buf;
+  size_t total = 0;
+
+  while(total < size && offset < fs->total_size) {
+    ptrdiff_t read = romfs_read(fs, offset, &data[total], size - total);
+    if(read < 0) return read;
+    if(read == 0) break;
+
+    total += read;
+    offset += read;
+  }
+
+  return total;
+}
+
+
+// Sum all words of a block
+static uint32_t romfs__checksum(uint32_t *words, size_t num_words) {
+  uint32_t checksum = 0;
+  for(size_t i = 0; i < num_words; i++) {
+    checksum += get_unaligned_be(&words[i]);
+  }
+
+  return checksum;
+}
+
+
+// Add up the remaining 16-byte blocks of a name that starts before offset
+static int romfs__skip_name(Romfs *fs, evfs_off_t *offset, uint32_t *checksum) {
+  uint32_t block[4];
+
+  do {
+    ptrdiff_t buf_len = romfs__read_all(fs, *offset, block, sizeof(block));
+    if(buf_len < 0) return buf_len;
+    if(buf_len < (ptrdiff_t)sizeof(block)) return EVFS_ERR_INVALID;
+
+    *checksum += romfs__checksum(block, COUNT_OF(block));
+    *offset += sizeof(block);
+  } while(!memchr(block, '\0', sizeof(block)));
+
+  return EVFS_OK;
 }
 
 
 // Read Romfs file header from image
-bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
+// Names that are too long are reported as an empty string
+int romfs_load_file_header(Romfs *fs, evfs_off_t hdr_pos, RomfsFileHead *hdr) {
   memset(hdr, 0, sizeof(*hdr));
 
-  ptrdiff_t buf_len = romfs_read(fs, hdr_pos, hdr, sizeof(*hdr));
+  if(hdr_pos <= 0 || hdr_pos >= fs->total_size)
+    return EVFS_ERR_INVALID;
+
+  ptrdiff_t buf_len = romfs__read_all(fs, hdr_pos, hdr, sizeof(*hdr));
+  if(buf_len < 0)
+    return buf_len;
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
-    return false;
+    return EVFS_ERR_INVALID;
+
+  // Header = 16 bytes + file_name
+  // Round up to 16-byte boundary
+  size_t max_name = buf_len - offsetof(RomfsFileHead, file_name);
+  size_t name_len = strnlen(hdr->file_name, max_name);
+  bool long_name = name_len == max_name;
+  size_t header_len = long_name ? (size_t)buf_len : (16 + name_len+1 + 15) & ~(size_t)0xF;
 
-  int header_len = file_header_len(hdr);
+  if(header_len > (size_t)buf_len)
+    return EVFS_ERR_INVALID;
 
   // Verify checksum
-  int32_t checksum = 0;
-  for(int i = 0; i < header_len / 4; i++) {
-    checksum += get_unaligned_be(&((uint32_t *)hdr)[i]);
+  uint32_t checksum = romfs__checksum((uint32_t *)hdr, header_len / 4);
+
+  if(long_name) {
+    evfs_off_t name_end = hdr_pos + header_len;
+    int status = romfs__skip_name(fs, &name_end, &checksum);
+    if(status != EVFS_OK) return status;
+
+    header_len = name_end - hdr_pos;
+    memset(hdr->file_name, 0, sizeof(hdr->file_name));
   }
 
   if(checksum != 0)
-    return false;
+    return EVFS_ERR_INVALID;
 
   hdr->offset       = get_unaligned_be(&hdr->offset);
   hdr->spec_info    = get_unaligned_be(&hdr->spec_info);
   hdr->size         = get_unaligned_be(&hdr->size);
   hdr->header_len   = header_len; // Overwrite checksum
 
-  return true;
+  // File data must be inside the image
+  if(FILE_TYPE(hdr) == FILE_TYPE_REGULAR_FILE) {
+    evfs_off_t max_size = fs->total_size - hdr_pos; // Always larger than the header
+    if(hdr->size > (uint64_t)max_size - header_len)
+      return EVFS_ERR_INVALID;
+  }
+
+  return EVFS_OK;
 }
 
-// Scan a directory for file from a path
-static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
-  evfs_off_t cur_hdr = dir_pos;
 
-  while(cur_hdr != 0) {
-    if(!romfs_read_file_header(fs, cur_hdr, hdr))
-      break;
+bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
+  return romfs_load_file_header(fs, hdr_pos, hdr) == EVFS_OK;
+}
 
-    if(range_eq(element, hdr->file_name)) {
-      hdr->offset = cur_hdr | FILE_MODE(hdr); // Replace with offset of the element
-      return true;
-    }
 
-    cur_hdr = FILE_OFFSET(hdr);
+// Follow a hard link and replace the offset of the next entry with the offset of this one
+int romfs_resolve_entry(Romfs *fs, evfs_off_t hdr_pos, RomfsFileHead *hdr) {
+  if(FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK) {
+    hdr_pos = hdr->spec_info & ~0xF;
+
+    int status = romfs_load_file_header(fs, hdr_pos, hdr);
+    if(status != EVFS_OK) return status;
+    if(FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK) return EVFS_ERR_INVALID;
   }
 
-  return false;
+  hdr->offset = hdr_pos | FILE_MODE(hdr);
+  return EVFS_OK;
 }
 
-#ifdef EVFS_USE_ROMFS_FAST_INDEX
-// Fast path lookups using a hash table
-static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hdr) {
-  int status;
 
-  // Lookup path in fast index
-  dhKey key;
-  key.data = &path[1]; // Skip leading '/'
-  key.length = strlen(key.data);
-
-  alignas(uintptr_t) evfs_off_t entry;
-  if(dh_lookup(&fs->fast_index.hash_table, key, &entry)) {
-    romfs_read_file_header(fs, entry, hdr);
-    //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
-    hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
-    status = EVFS_OK;
-  } else {
-    status = EVFS_ERR_NO_PATH;
-  }
-
-  return status;
-}
-#endif
+// Scan a directory for file from a path
+static int romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
+  evfs_off_t cur_hdr = dir_pos;
+  evfs_off_t headers_left = ROMFS_MAX_HEADERS(fs);
 
+  while(cur_hdr != 0 && headers_left-- > 0) {
+    int status = romfs_load_file_header(fs, cur_hdr, hdr);
+    if(status == EVFS_ERR_INVALID) break; // Treat this as the end of the directory
+    if(status != EVFS_OK) return status;
 
+    if(hdr->file_name[0] != '\0' && range_eq(element, hdr->file_name)) {
+      // Directories have only one name
+      bool is_link = FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK;
 
-// Simplfied version of evfs_vfs_scan_path() with no root element handling
-static int romfs__scan_path(const char *path, StringRange *element) {
-  bool new_tok;
+      status = romfs_resolve_entry(fs, cur_hdr, hdr);
+      if(status == EVFS_OK && is_link && FILE_TYPE(hdr) == FILE_TYPE_DIRECTORY)
+        status = EVFS_ERR_INVALID;
 
-  if(path) {
-    // Get first path element
-    new_tok = range_token(path, EVFS_PATH_SEPS, element);
+      return status == EVFS_ERR_INVALID ? EVFS_ERR_NO_PATH : status;
+    }
 
-  } else {
-    new_tok = range_token(NULL, EVFS_PATH_SEPS, element);
+    cur_hdr = FILE_OFFSET(hdr);
   }
 
-  return new_tok ? EVFS_OK : EVFS_ERR;
+  return EVFS_ERR_NO_PATH;
 }
 
 
-
-// Lookup paths by walking the directory tree
+// Lookup normalized absolute paths by walking the directory tree
 static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hdr) {
-  evfs_off_t dir_pos = fs->root_dir;
+  int status = romfs_load_file_header(fs, fs->root_dir, hdr);
+  if(status != EVFS_OK) return status;
+
+  hdr->offset = fs->root_dir | FILE_MODE(hdr);
 
   StringRange element;
+  bool new_elem = range_token(path, EVFS_PATH_SEPS, &element); // Get first element in path
 
-  int status = romfs__scan_path(path, &element); // Get first element in path
-  bool end_scan;
+  while(new_elem) {
+    if(FILE_TYPE(hdr) != FILE_TYPE_DIRECTORY)
+      return EVFS_ERR_NO_PATH;
 
-  if(status != EVFS_OK) { // Assume this is the root path
-    return romfs_read_file_header(fs, dir_pos, hdr) ? EVFS_OK : EVFS_ERR_NO_PATH;
+    status = romfs__find_path_elem(fs, hdr->spec_info & ~0xF, &element, hdr);
+    if(status != EVFS_OK) return status;
+
+    new_elem = range_token(NULL, EVFS_PATH_SEPS, &element); // Get next element in path
   }
 
-  while(status == EVFS_OK) {
-    int file_type = -1;
-    end_scan = false;
-
-    if(romfs__find_path_elem(fs, dir_pos, &element, hdr)) {
-      file_type = FILE_TYPE(hdr);
-      switch(file_type) {
-
-      case FILE_TYPE_HARD_LINK:
-        dir_pos = hdr->spec_info;  // Follow link dest
-        romfs_read_file_header(fs, dir_pos, hdr); // Reparse header (should never fail)
-        dir_pos = hdr->spec_info; // First file in dir
-        //DPRINT("FOLLOW LINK: %08X", dir_pos);
-        break;
-
-      case FILE_TYPE_DIRECTORY:
-        dir_pos = hdr->spec_info; // First file in dir
-        //DPRINT("FOLLOW DIR: %.*s  %08X --> %08X", RANGE_FMT(&element), FILE_OFFSET(hdr), dir_pos);
-        break;
-
-      default: // Should be last element of path
-        end_scan = true;
-        break;
-      }
+  return EVFS_OK;
+}
 
-    } else { // No match for element
-      return EVFS_ERR_NO_PATH;
-    }
 
-    status = romfs__scan_path(NULL, &element); // Get next element in path
+#ifdef EVFS_USE_ROMFS_FAST_INDEX
 
-    if(end_scan) { // Element is not a directory or link
-      // If we terminated path on last element then status should be EVFS_ERR
-      return (status == EVFS_ERR) ? EVFS_OK : EVFS_ERR_NO_PATH;
+// Offset of an entry header
+// Dhash values are stored in multiples of a pointer size
+typedef union RomfsIndexEntry {
+  evfs_off_t offset;
+  uintptr_t  align;
+} RomfsIndexEntry;
 
-    } else { // A directory or link
-      if(status == EVFS_ERR) // If path scan terminated we are done
-        return EVFS_OK;
-    }
-  }
 
-  return status;
+// Fast path lookups using a hash table
+static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hdr) {
+  // Lookup path in fast index
+  dhKey key;
+  key.data = path;
+  key.length = strlen(path);
+
+  // Longer paths aren't indexed
+  if(key.length <= 1 || key.length >= EVFS_MAX_PATH)
+    return romfs__lookup_abs_path(fs, path, hdr);
+
+  RomfsIndexEntry entry;
+  if(!dh_lookup(&fs->fast_index.hash_table, key, &entry))
+    return EVFS_ERR_NO_PATH;
+
+  int status = romfs_load_file_header(fs, entry.offset, hdr);
+  if(status != EVFS_OK) return status;
+
+  return romfs_resolve_entry(fs, entry.offset, hdr);
 }
+#endif
 
 
 static int romfs__validate(Romfs *fs) {
@@ -180,48 +231,51 @@ static int romfs__validate(Romfs *fs) {
 #define CHUNK_LEN       64
   uint32_t buf[CHUNK_LEN/4];
 
-  ptrdiff_t buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
-  chunk_pos += CHUNK_LEN;
+  ptrdiff_t buf_len = romfs__read_all(fs, chunk_pos, buf, sizeof(buf));
+  if(buf_len < 0)
+    return buf_len;
   if(ASSERT(buf_len >= ROMFS_MIN_HEADER_SIZE, "Romfs too small"))
     return EVFS_ERR_INVALID;
 
   // Force magic number string to little-endian
-  if(get_unaligned_le(&buf[0]) == 0x6D6F722D && get_unaligned_le(&buf[1]) == 0x2D736631) {
-    uint32_t fs_bytes = get_unaligned_be(&buf[2]);
-
-    if(ASSERT((evfs_off_t)fs_bytes <= fs->total_size, "Invalid Romfs size"))
-      return EVFS_ERR_INVALID;
+  if(get_unaligned_le(&buf[0]) != 0x6D6F722D || get_unaligned_le(&buf[1]) != 0x2D736631)
+    return EVFS_ERR_INVALID;
 
-    // Iterate over chunks to verify checksum
-    int32_t checksum = 0;
+  uint32_t fs_bytes = get_unaligned_be(&buf[2]);
 
-    for(int c = 0; c < SUPERBLOCK_LEN / CHUNK_LEN; c++) {
-      buf_len /= 4;
-      for(int i = 0; i < buf_len; i++) {
-        checksum += get_unaligned_be(&buf[i]);
-      }
+  if(ASSERT((int64_t)fs_bytes <= fs->total_size, "Invalid Romfs size"))
+    return EVFS_ERR_INVALID;
 
-      buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
-      chunk_pos += CHUNK_LEN;
-      if(buf_len <= 0)
-        break;
-    }
+  // Iterate over chunks to verify checksum
+  uint32_t checksum = 0;
 
-    if(checksum == 0) { // Valid superblock
-      // Read first chunk again
-      chunk_pos = 0;
-      buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+  while(buf_len > 0) {
+    checksum += romfs__checksum(buf, buf_len / 4);
 
-      char *vol_name = (char *)&buf[4];
-      //DPRINT("VOLUME: '%s'", vol_name);
+    chunk_pos += CHUNK_LEN;
+    if(chunk_pos >= SUPERBLOCK_LEN)
+      break;
 
-      // Root dir starts at first file header
-      fs->root_dir = (16 + strnlen(vol_name, EVFS_ROMFS_MAX_NAME_LEN-1)+1 + 15) & ~0xF;
-      return EVFS_OK;
-    }
+    buf_len = romfs__read_all(fs, chunk_pos, buf, sizeof(buf));
+    if(buf_len < 0)
+      return buf_len;
   }
 
-  return EVFS_ERR_INVALID;
+  if(checksum != 0)
+    return EVFS_ERR_INVALID;
+
+  // Root dir starts at first file header after the volume name
+  fs->root_dir = 16;
+  int status = romfs__skip_name(fs, &fs->root_dir, &checksum);
+  if(status != EVFS_OK)
+    return status;
+
+  RomfsFileHead hdr;
+  status = romfs_load_file_header(fs, fs->root_dir, &hdr);
+  if(status == EVFS_OK && FILE_TYPE(&hdr) != FILE_TYPE_DIRECTORY)
+    status = EVFS_ERR_INVALID;
+
+  return status;
 }
 
 
@@ -237,7 +291,7 @@ static void destroy_hashed_file(dhKey key, void *value, void *ctx) {
 static int romfs__fast_index_init(RomfsIndex *ht, int total_files, size_t total_path_len) {
   dhConfig s_hash_init = {
     .init_buckets = total_files,
-    .value_size   = sizeof(evfs_off_t),
+    .value_size   = sizeof(RomfsIndexEntry),
 
     .destroy_item = destroy_hashed_file,
     .gen_hash     = dh_gen_hash_string,
@@ -248,8 +302,7 @@ static int romfs__fast_index_init(RomfsIndex *ht, int total_files, size_t total_
   if(MEM_CHECK(ht->keys)) return EVFS_ERR_ALLOC;
 
 
-  int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
-  return err;
+  return dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR_ALLOC;
 }
 
 
@@ -260,194 +313,123 @@ static void romfs__fast_index_free(RomfsIndex *ht) {
 }
 
 
+typedef struct RomfsScan {
+  Romfs      *fs;
+  RomfsIndex *ht; // NULL while counting
 
-static int romfs__get_next_file(Romfs *fs, RomfsFileHead *cur_file, evfs_off_t *cur_file_offset) {
-  *cur_file_offset = FILE_OFFSET(cur_file);
-  if(*cur_file_offset == 0)
-    return EVFS_DONE;
-
-  return romfs_read_file_header(fs, *cur_file_offset, cur_file) ? EVFS_OK : EVFS_ERR;
-}
-
-
-static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
-                                evfs_off_t *cur_file_offset, evfs_off_t *dir_pos) {
-
-  StringRange element;
-  int status = romfs__scan_path(path, &element); // Get first element in path
-  bool is_root = status != EVFS_OK; // Assume this is the root path if scan failed
-
-  status = fs->lookup_abs_path(fs, path, hdr);
+  evfs_off_t headers_left;   // Limit on entries to detect recursive directories
+  int        total_files;
+  size_t     total_path_len; // Storage for keys
+  size_t     keys_len;       // Storage used
 
+  char path[EVFS_MAX_PATH];  // Path of the current entry
+} RomfsScan;
 
-  if(dir_pos)
-    *dir_pos = is_root ? (uint32_t)fs->root_dir : FILE_OFFSET(hdr); // Offset to the dir entry
 
-  //DPRINT("romfs__get_dir('%s') --> %d %02X  @ %u", path, status, FILE_MODE(hdr), FILE_OFFSET(hdr));
-  if(status == EVFS_OK && FILE_TYPE(hdr) != FILE_TYPE_DIRECTORY) {
-    status = EVFS_ERR_NO_PATH;
+// Add an entry to the index
+static int romfs__index_entry(RomfsScan *scan, size_t path_len, evfs_off_t entry_pos) {
+  if(!scan->ht) {
+    scan->total_files++;
+    scan->total_path_len += path_len + 1;
+    return EVFS_OK;
   }
 
-  if(status == EVFS_OK) {
-    // Get first file in directory
-    romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
-
-    // Skip hard link entries
-    romfs__get_next_file(fs, hdr, cur_file_offset);
-
-    status = romfs__get_next_file(fs, hdr, cur_file_offset);
-  }
-
-  return status;
-}
-
-
-
-
-// Recursively scan the filesystem and collect stats on all paths
-static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files) {
-  RomfsFileHead cur_file;
-  evfs_off_t    cur_file_offset;
-  int status;
-
-  size_t total_path_len = 0;
+  dhKey key;
+  RomfsIndexEntry entry;
 
-  status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, NULL);
-  //DPRINT("OPEN DIR: %s %d", path, status);
+  // The first of any duplicates is used
+  key.data = scan->path;
+  key.length = path_len;
+  if(dh_lookup(&scan->ht->hash_table, key, &entry))
+    return EVFS_OK;
 
-  do {
-    if(status == EVFS_OK) {
-      //DPRINT("  '%s'  %08X  %08X", cur_file.file_name, cur_file_offset, FILE_OFFSET(&cur_file));
-      (*total_files)++;
-
-      if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
-        // Build path to sub directory
-        size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-        total_path_len += new_prefix_len; // Entry for the directory
-
-        char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return 0;
-
-        AppendRange sub_path_r;
-        range_init(&sub_path_r, sub_path, new_prefix_len+1);
-        range_cat_str(&sub_path_r, path);
-        range_cat_char(&sub_path_r, '/');
-        range_cat_str(&sub_path_r, cur_file.file_name);
-
-        //DPRINT("SUB PATH: '%s'  %08X", sub_path, cur_file_offset);
-        total_path_len += scan_dir_tree(fs, sub_path, new_prefix_len, total_files);
-        free(sub_path);
-
-      } else { // Normal file
-        total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
-      }
+  if(path_len + 1 > scan->total_path_len - scan->keys_len)
+    return EVFS_ERR_IO; // The image changed
 
-      status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
-    }
-  } while(status == EVFS_OK);
+  key.data = &scan->ht->keys[scan->keys_len];
+  memcpy(&scan->ht->keys[scan->keys_len], scan->path, path_len + 1);
+  scan->keys_len += path_len + 1;
 
-  return total_path_len;
+  memset(&entry, 0, sizeof(entry));
+  entry.offset = entry_pos;
+  return dh_insert(&scan->ht->hash_table, key, &entry) ? EVFS_OK : EVFS_ERR_ALLOC;
 }
 
 
-// Recursively scan the filesystem to add hash table indices
-static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsIndex *ht, AppendRange *keys_r) {
-  RomfsFileHead cur_file;
-  evfs_off_t    cur_file_offset = 0;
+// Recursively scan a directory to count or index its entries
+static int romfs__scan_dir(RomfsScan *scan, evfs_off_t dir_pos, size_t prefix_len) {
+  RomfsFileHead hdr;
+  evfs_off_t cur_hdr = dir_pos;
   int status;
-  dhKey key;
-  alignas(uintptr_t) evfs_off_t entry;
-
-  status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, &entry);
-  //DPRINT("INDEX, OPEN DIR: %s %d", path, status);
-
-  // Prepare key
-  key.data = keys_r->start;
-  key.length = 0;
 
-  if(prefix_len > 0)
-    key.length += range_cat_str(keys_r, &path[1]); // Skip leading '/'
-  else
-    key.length += range_cat_str(keys_r, "");
-  range_cat_char(keys_r,'\0');
-
-  if(!dh_insert(&ht->hash_table, key, &entry))
-    return EVFS_ERR;
+  while(cur_hdr != 0) {
+    if(scan->headers_left-- <= 0) return EVFS_ERR_INVALID;
 
-  //DPRINT("## INDEX DIR: '%s' @ %08X", key.data, entry);
+    status = romfs_load_file_header(scan->fs, cur_hdr, &hdr);
+    if(status == EVFS_ERR_INVALID) break; // Treat this as the end of the directory
+    if(status != EVFS_OK) return status;
 
-  do {
-    if(status == EVFS_OK) {
-      //DPRINT("  '%s'", cur_file.file_name);
+    evfs_off_t next_hdr = FILE_OFFSET(&hdr);
+    size_t name_len = strlen(hdr.file_name);
+    size_t path_len = prefix_len + 1 + name_len;
 
-      if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
-        // Build path to sub directory
-        size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
+    // Paths that are too long can't be used
+    if(name_len > 0 && !romfs_is_dot_entry(&hdr) && path_len < sizeof(scan->path)) {
+      scan->path[prefix_len] = EVFS_DIR_SEP;
+      memcpy(&scan->path[prefix_len+1], hdr.file_name, name_len + 1);
 
-        char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
+      bool is_link = FILE_TYPE(&hdr) == FILE_TYPE_HARD_LINK;
+      evfs_off_t sub_dir = hdr.spec_info & ~0xF;
 
-        AppendRange sub_path_r;
-        range_init(&sub_path_r, sub_path, new_prefix_len+1);
-        range_cat_str(&sub_path_r, path);
-        range_cat_char(&sub_path_r, '/');
-        range_cat_str(&sub_path_r, cur_file.file_name);
+      status = romfs_resolve_entry(scan->fs, cur_hdr, &hdr);
+      if(status != EVFS_OK && status != EVFS_ERR_INVALID) return status;
 
-        //DPRINT("SUB PATH: '%s'", sub_path);
+      bool is_dir = FILE_TYPE(&hdr) == FILE_TYPE_DIRECTORY;
 
-        index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
-        free(sub_path);
+      if(status == EVFS_OK && !(is_link && is_dir)) { // Directories have only one name
+        status = romfs__index_entry(scan, path_len, cur_hdr);
+        if(status != EVFS_OK) return status;
 
-      } else { // Normal file
-        // Prepare key
-        key.data = keys_r->start;
-        key.length = 0;
-
-        if(prefix_len > 0) {
-          key.length += range_cat_str(keys_r, &path[1]); // Skip leading '/'
-          key.length += range_cat_char(keys_r,'/');
+        if(is_dir) {
+          status = romfs__scan_dir(scan, sub_dir, path_len);
+          if(status != EVFS_OK) return status;
         }
-        key.length += range_cat_str(keys_r, cur_file.file_name);
-        range_cat_char(keys_r,'\0');
-
-        entry = cur_file_offset;
-        if(!dh_insert(&ht->hash_table, key, &entry))
-          return EVFS_ERR;
-
-        //DPRINT("## INDEX FIL: %s @ %08X", key.data, entry);
       }
-
-      status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
     }
-  } while(status == EVFS_OK);
+
+    cur_hdr = next_hdr;
+  }
 
   return EVFS_OK;
 }
 
 
-static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
-  // Scan all files to get total storage for path keys
-  int status;
+static int romfs__scan_tree(RomfsScan *scan) {
+  RomfsFileHead hdr;
+  int status = romfs_load_file_header(scan->fs, scan->fs->root_dir, &hdr);
+  if(status != EVFS_OK) return status;
 
-  size_t total_path_len = 0;
-  int total_files = 0;
+  scan->headers_left = ROMFS_MAX_HEADERS(scan->fs);
+  return romfs__scan_dir(scan, hdr.spec_info & ~0xF, 0);
+}
 
-  total_path_len = scan_dir_tree(fs, "", 0, &total_files);
-  // Add space for root entry
-  total_files++;
-  total_path_len += 1;
+
+static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
+  RomfsScan scan = { .fs = fs };
+
+  // Scan all files to get total storage for path keys
+  int status = romfs__scan_tree(&scan);
+  if(status != EVFS_OK) return status;
 
   // Prepare the hash index
-  status = romfs__fast_index_init(ht, total_files, total_path_len);
-  if(status == EVFS_OK) {
-    AppendRange keys_r;
-    range_init(&keys_r, ht->keys, total_path_len);
+  status = romfs__fast_index_init(ht, scan.total_files + 1, scan.total_path_len + 1);
+  if(status != EVFS_OK) return status;
 
-    status = index_dir_tree(fs, "", 0, ht, &keys_r);
-    //dump_array((uint8_t *)ht->keys, total_path_len);
+  scan.ht = ht;
+  status = romfs__scan_tree(&scan);
 
+  if(status == EVFS_OK)
     fs->lookup_abs_path = romfs__fast_lookup_abs_path;
-  }
 
   return status;
 }
@@ -468,7 +450,9 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg) {
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
   if(status == EVFS_OK) {
-    romfs__build_index(fs, &fs->fast_index);
+    status = romfs__build_index(fs, &fs->fast_index);
+    if(status != EVFS_OK)
+      romfs__fast_index_free(&fs->fast_index);
   }
 #endif
 
@@ -476,12 +460,17 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg) {
 }
 
 
-void romfs_unmount(Romfs *fs) {
-  fs->unmount(fs);
-
+// Free all resources but leave the image alone
+void romfs_free(Romfs *fs) {
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
   romfs__fast_index_free(&fs->fast_index);
 #endif
+}
 
+
+void romfs_unmount(Romfs *fs) {
+  fs->unmount(fs);
+  romfs_free(fs);
 }
 
+
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index e13c939..8c7b565 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -32,7 +32,8 @@ Embedded Virtual Filesystem
 ///////////////////////////////////////////////////////////////////////////////////
 
 // Shared buffer needs lock if threading is enabled
-#if defined EVFS_USE_ROMFS_SHARED_BUFFER && defined EVFS_USE_THREADING
+// We also need a lock for reading the image in a threaded system
+#if defined EVFS_USE_THREADING
 #  define USE_ROMFS_LOCK
 #endif
 
@@ -40,9 +41,15 @@ Embedded Virtual Filesystem
 #ifdef USE_ROMFS_LOCK
 #  define LOCK()    evfs__lock(&fs_data->romfs_lock)
 #  define UNLOCK()  evfs__unlock(&fs_data->romfs_lock)
+
+// The current directory is read while romfs_lock is held so it needs its own lock
+#  define CWD_LOCK()    evfs__lock(&fs_data->cwd_lock)
+#  define CWD_UNLOCK()  evfs__unlock(&fs_data->cwd_lock)
 #else
 #  define LOCK()
 #  define UNLOCK()
+#  define CWD_LOCK()
+#  define CWD_UNLOCK()
 #endif
 
 
@@ -56,7 +63,8 @@ typedef struct RomfsData {
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
 #ifdef USE_ROMFS_LOCK
-  EvfsLock  romfs_lock; // Serialize access to shared abs_path buffer
+  EvfsLock  romfs_lock; // Serialize access to shared abs_path buffer and the image
+  EvfsLock  cwd_lock;   // Serialize access to cur_dir
 #endif
 
   Romfs romfs;
@@ -82,62 +90,48 @@ typedef struct RomfsDir {
   evfs_off_t    dir_pos;
   evfs_off_t    cur_file_offset; // Iterator position
   RomfsFileHead cur_file;
+  evfs_off_t    headers_left; // Limit on entries to detect endless directories
   bool          is_reset;
 } RomfsDir;
 
 
-// Helper to convert relative paths into absolute for the Romfs API
-// Returned path must be freed
-static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool force_malloc) {
-  RomfsData *fs_data = (RomfsData *)vfs->fs_data;
-  *absolute = NULL;
-
-  size_t abs_size;
-  char *abs_path = NULL;
-
 #ifdef EVFS_USE_ROMFS_SHARED_BUFFER
-  if(!force_malloc) {
-    abs_size = COUNT_OF(fs_data->abs_path);
-    LOCK();
-    abs_path = fs_data->abs_path;
-  }
+#  define FREE_ABS(abs_path)
+#else
+#  define FREE_ABS(abs_path)  evfs_free(abs_path)
 #endif
 
-  if(force_malloc || !abs_path) {
-    abs_size = strlen(path) + 1;
-    *absolute = NULL;
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+// Helper to convert paths into normalized absolute paths for the Romfs API
+// The lock must be held until the path is released with FREE_ABS()
+static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+  RomfsData *fs_data = (RomfsData *)vfs->fs_data;
+  size_t abs_size = COUNT_OF(fs_data->abs_path);
+  char *abs_path = fs_data->abs_path;
+#else
+  size_t abs_size = strlen(path) + 1;
+
+  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
+    abs_size += EVFS_MAX_PATH;
 
-    abs_path = evfs_malloc(abs_size);
-    if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
-  }
+  char *abs_path = evfs_malloc(abs_size);
+  if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
+#endif
 
   AppendRange abs_path_r;
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
-    *absolute = abs_path;
+  if(status != EVFS_OK) {
+    FREE_ABS(abs_path);
+    abs_path = NULL;
+  }
 
+  *absolute = abs_path;
   return status;
 }
 
-// Prepare a buffer for the absolute path
-#define MAKE_ABS(path, abs_path) char *abs_path; do { \
- int status_ma = make_absolute_path(vfs, path, &abs_path, false); \
- if(status_ma != EVFS_OK) \
-    return status_ma; \
-} while(0)
-
-
-#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
-#  define FREE_ABS(abs_path)  UNLOCK()
-#else
-#  define FREE_ABS(abs_path)  evfs_free(abs_path)
-#endif
-
 
 
 
@@ -184,13 +178,14 @@ static ptrdiff_t romfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   evfs_off_t remaining = fil->hdr.size - fil->read_pos;
   if(remaining <= 0) return 0;
 
-  if((evfs_off_t)size > remaining)
+  if((uintmax_t)size > (uintmax_t)remaining)
     size = remaining;
 
   LOCK();
   evfs_off_t data_offset = FILE_OFFSET(&fil->hdr) + fil->hdr.header_len + fil->read_pos;
   ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);
-  fil->read_pos += size;
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   //DPRINT("## READ: @ %ld,  %ld  '%02X'", fil->read_pos-size, size, *((uint8_t *)buf));
@@ -269,46 +264,69 @@ static int romfs__dir_close(EvfsDir *dh) {
 }
 
 
-static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
-  RomfsDir *dir = (RomfsDir *)dh;
+// Find the next directory entry
+static int romfs__dir_next(RomfsDir *dir, RomfsFileHead *entry, evfs_off_t *entry_pos) {
   RomfsData *fs_data = (RomfsData *)dir->fs_data;
-
+  evfs_off_t headers_left = dir->headers_left;
   int status;
-  evfs_off_t next_entry;
 
-  // Advance to next directory
   if(dir->is_reset) { // Init iterator
-    romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
-    next_entry = dir->cur_file.spec_info;
-    dir->is_reset = false;
+    status = romfs_load_file_header(&fs_data->romfs, dir->dir_pos, entry);
+    if(status != EVFS_OK) return status;
 
-    if(fs_data->cfg_no_dir_dots) { // Skip over hard links
-      romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file); // Skip "."
-      romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file); // Skip ".."
-      next_entry = FILE_OFFSET(&dir->cur_file);
-    }
+    *entry_pos = entry->spec_info & ~0xF;
+    headers_left = ROMFS_MAX_HEADERS(&fs_data->romfs);
 
   } else { // Already initialized
-    next_entry = FILE_OFFSET(&dir->cur_file);
+    *entry_pos = FILE_OFFSET(&dir->cur_file);
   }
 
-  if(next_entry > 0) {
-    dir->cur_file_offset = next_entry;
-    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
+  while(*entry_pos != 0) {
+    if(headers_left-- <= 0) return EVFS_ERR_CORRUPTION;
+
+    status = romfs_load_file_header(&fs_data->romfs, *entry_pos, entry);
+    if(status != EVFS_OK) return status;
+
+    // Skip over hard links and names that are too long
+    if(entry->file_name[0] != '\0' && !(fs_data->cfg_no_dir_dots && romfs_is_dot_entry(entry))) {
+      dir->headers_left = headers_left;
+      return EVFS_OK;
+    }
 
-  } else { // Iteration complete
-    status = EVFS_DONE;
+    *entry_pos = FILE_OFFSET(entry);
   }
 
+  return EVFS_DONE; // Iteration complete
+}
 
-  memset(info, 0, sizeof(*info));
+
+static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
+  RomfsDir *dir = (RomfsDir *)dh;
+  RomfsData *fs_data = (RomfsData *)dir->fs_data;
+
+  RomfsFileHead entry, target;
+  evfs_off_t entry_pos;
+
+  LOCK();
+  int status = romfs__dir_next(dir, &entry, &entry_pos);
 
   if(status == EVFS_OK) {
+    target = entry;
+    status = romfs_resolve_entry(&fs_data->romfs, entry_pos, &target);
+  }
+  UNLOCK();
+
+  memset(info, 0, sizeof(*info));
+
+  if(status == EVFS_OK) { // Advance to this entry
+    dir->cur_file = entry;
+    dir->cur_file_offset = entry_pos;
+    dir->is_reset = false;
+
     info->name = dir->cur_file.file_name;
-    info->size = dir->cur_file.size;
+    info->size = target.size;
 
-    int file_type = FILE_TYPE(&dir->cur_file);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+    if(FILE_TYPE(&target) == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
@@ -338,16 +356,16 @@ static EvfsDirMethods s_romfs_dir_methods = {
 
 static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *path,
                                     RomfsFileHead *hdr) {
-  int status;
+  char *abs_path;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    status = romfs_lookup_abs_path(&fs_data->romfs, path, hdr);
+  LOCK();
+  int status = make_absolute_path(vfs, path, &abs_path);
 
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
+  if(status == EVFS_OK) {
     status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
     FREE_ABS(abs_path);
   }
+  UNLOCK();
 
   return status;
 }
@@ -360,7 +378,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_romfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_NO_EXIST | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
@@ -369,8 +387,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   int status = romfs__lookup_path(vfs, fs_data, path, &fil->hdr);
 
   // Must be a plain file
-  int file_type = FILE_TYPE(&fil->hdr);
-  if(file_type != FILE_TYPE_REGULAR_FILE) {
+  if(status == EVFS_ERR_NO_PATH || (status == EVFS_OK && FILE_TYPE(&fil->hdr) != FILE_TYPE_REGULAR_FILE)) {
     status = EVFS_ERR_NO_FILE;
   }
 
@@ -390,8 +407,7 @@ static int romfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   if(status >= 0) {
     info->size = hdr.size;
 
-    int file_type = FILE_TYPE(&hdr);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+    if(FILE_TYPE(&hdr) == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
@@ -412,8 +428,7 @@ static int romfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   int status = romfs__lookup_path(vfs, fs_data, path, &hdr);
 
-  int file_type = FILE_TYPE(&hdr);
-  if(status == EVFS_OK && file_type != FILE_TYPE_DIRECTORY) {
+  if(status == EVFS_OK && FILE_TYPE(&hdr) != FILE_TYPE_DIRECTORY) {
     status = EVFS_ERR_NO_PATH;
   }
 
@@ -430,60 +445,60 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
-  return EVFS_OK;
+  CWD_LOCK();
+  int copied = range_cat_str(&r, fs_data->cur_dir);
+  CWD_UNLOCK();
+
+  return copied < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
 
 static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
+  char old_dir[EVFS_MAX_PATH];
+  char joined_path[EVFS_MAX_PATH];
+  char new_dir[EVFS_MAX_PATH];
+  bool is_absolute = evfs_vfs_path_is_absolute(vfs, path);
+  bool changed;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+  do {
+    StringRange old_dir_r = RANGE_FROM_ARRAY(old_dir);
+    int status = romfs__get_cur_dir(vfs, &old_dir_r);
+    if(status != EVFS_OK) return status;
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
+    const char *full_path = path;
 
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
+    if(!is_absolute) { // Path is relative: Join it to the existing directory
+      StringRange joined = RANGE_FROM_ARRAY(joined_path);
+      status = evfs_vfs_path_join_str(vfs, old_dir, path, &joined);
+      if(status != EVFS_OK) return status;
 
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+      full_path = joined_path;
+    }
 
-    // We must normalize now because the fast index can't handle denormal paths
-    range_init(&joined, joined_path, joined_size);
-    evfs_vfs_path_normalize(vfs, joined_path, &joined);
+    StringRange new_dir_r = RANGE_FROM_ARRAY(new_dir);
+    status = evfs_vfs_path_normalize(vfs, full_path, &new_dir_r);
+    if(status != EVFS_OK) return status;
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
+    if(!evfs__vfs_existing_dir(vfs, new_dir))
       return EVFS_ERR_NO_PATH;
-    }
-
-    // Overwrite old cur_dir
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_cat_str((AppendRange *)&head, joined_path);
 
-    evfs_free(joined_path);
-  }
+    // Overwrite old cur_dir unless another thread has moved a relative base
+    CWD_LOCK();
+    changed = !is_absolute && strcmp(old_dir, fs_data->cur_dir) != 0;
+    if(!changed)
+      strcpy(fs_data->cur_dir, new_dir);
+    CWD_UNLOCK();
+  } while(changed);
 
   return EVFS_OK;
 }
 
 
 
+
 static int romfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
 
@@ -492,6 +507,7 @@ static int romfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
       romfs_unmount(&fs_data->romfs);
 #ifdef USE_ROMFS_LOCK
       evfs__lock_destroy(&fs_data->romfs_lock);
+      evfs__lock_destroy(&fs_data->cwd_lock);
 #endif
 
       evfs_free(vfs);
@@ -565,25 +581,40 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
   new_vfs->m_set_cur_dir = romfs__set_cur_dir;
   new_vfs->m_vfs_ctrl = romfs__vfs_ctrl;
 
+  int status = romfs_init(&fs_data->romfs, cfg);
+  if(status != EVFS_OK)
+    goto fail_init;
+
 #ifdef USE_ROMFS_LOCK
   if(evfs__lock_init(&fs_data->romfs_lock) != EVFS_OK) {
-    evfs_free(new_vfs);
-    THROW(EVFS_ERR_INIT);
+    status = EVFS_ERR_INIT;
+    goto fail_romfs_lock;
   }
-#endif
 
+  if(evfs__lock_init(&fs_data->cwd_lock) != EVFS_OK) {
+    status = EVFS_ERR_INIT;
+    goto fail_cwd_lock;
+  }
+#endif
 
-/*  RomfsConfig cfg = {
-    .ctx        = image,
-    .total_size = evfs_file_size(image),
-    .read_data  = romfs_read_image,
-    .unmount    = romfs_unmount_image
-  };*/
-  int status = romfs_init(&fs_data->romfs, cfg);
+  status = evfs__register_new(new_vfs, default_vfs);
   if(status != EVFS_OK)
-    return status;
+    goto fail_register;
+
+  return EVFS_OK;
 
-  return evfs_register(new_vfs, default_vfs);
+  // Clean up when registration fails. The caller keeps the image.
+fail_register:
+#ifdef USE_ROMFS_LOCK
+  evfs__lock_destroy(&fs_data->cwd_lock);
+fail_cwd_lock:
+  evfs__lock_destroy(&fs_data->romfs_lock);
+fail_romfs_lock:
+#endif
+  romfs_free(&fs_data->romfs);
+fail_init:
+  evfs_free(new_vfs);
+  THROW(status);
 }
 
 
@@ -596,7 +627,9 @@ static void romfs_unmount_image(Romfs *fs) {
 
 static ptrdiff_t romfs_read_image(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   EvfsFile *image = (EvfsFile *)fs->ctx;
-  evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  int status = evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  if(status != EVFS_OK) return status;
+
   return evfs_file_read(image, buf, size);
 }
 
@@ -622,6 +655,8 @@ int evfs_register_romfs(const char *vfs_name, EvfsFile *image, bool default_vfs)
     .unmount    = romfs_unmount_image
   };
 
+  if(cfg.total_size < 0) return cfg.total_size;
+
   return evfs__register_romfs_cfg(vfs_name, &cfg, default_vfs);
 }
 
@@ -638,7 +673,8 @@ ptrdiff_t romfs_read_rsrc(Romfs *fs, evfs_off_t offset, void *buf, size_t size)
     return EVFS_ERR_OVERFLOW;
 
   evfs_off_t remain = fs->total_size - offset;
-  size = MIN((evfs_off_t)size, remain);
+  if((uintmax_t)size > (uintmax_t)remain)
+    size = remain;
 
   memcpy(buf, fs_base + offset, size);
 
@@ -661,6 +697,10 @@ Returns:
 int evfs_register_rsrc_romfs(const char *vfs_name, const uint8_t *resource, size_t resource_len, bool default_vfs) {
   if(PTR_CHECK(vfs_name) || PTR_CHECK(resource)) return EVFS_ERR_BAD_ARG;
 
+  // The size has to be representable as an offset
+  if((evfs_off_t)resource_len < 0 || (uintmax_t)(evfs_off_t)resource_len != resource_len)
+    return EVFS_ERR_INVALID;
+
   RomfsConfig cfg = {
     .ctx        = (void *)resource,
     .total_size = resource_len,
-- 
2.43.0


From 201e6228965c4b70db4e3ac08cba84fc09d83fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 41/71] fix: path buffers without the shared buffer never
 exceed the path limit

---
 src/romfs_fs.c    | 5 +----
 src/tar_fs.c      | 5 +----
 src/tar_rsrc_fs.c | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 8c7b565..659b0d8 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -110,10 +110,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
   size_t abs_size = COUNT_OF(fs_data->abs_path);
   char *abs_path = fs_data->abs_path;
 #else
-  size_t abs_size = strlen(path) + 1;
-
-  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-    abs_size += EVFS_MAX_PATH;
+  size_t abs_size = EVFS_MAX_PATH;
 
   char *abs_path = evfs_malloc(abs_size);
   if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 033154e..e8fa894 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -120,10 +120,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
   LOCK(); // Unlocked by FREE_ABS() macro
   char *abs_path = fs_data->abs_path;
 #else
-  size_t abs_size = strlen(path) + 1;
-
-  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-    abs_size += EVFS_MAX_PATH;
+  size_t abs_size = EVFS_MAX_PATH;
 
   char *abs_path = evfs_malloc(abs_size);
   if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 3557083..49fb2a1 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -130,10 +130,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute) {
   LOCK(); // Unlocked by FREE_ABS() macro
   char *abs_path = fs_data->abs_path;
 #else
-  size_t abs_size = strlen(path) + 1;
-
-  if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-    abs_size += EVFS_MAX_PATH;
+  size_t abs_size = EVFS_MAX_PATH;
 
   char *abs_path = evfs_malloc(abs_size);
   if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
-- 
2.43.0


From f361cccca630c9de67afef8ef5715bdb0fcc22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 42/71] fix: romfs special files have no size

---
 src/romfs_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 65c6299..34af386 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -107,10 +107,12 @@ int romfs_load_file_header(Romfs *fs, evfs_off_t hdr_pos, RomfsFileHead *hdr) {
   hdr->header_len   = header_len; // Overwrite checksum
 
   // File data must be inside the image
-  if(FILE_TYPE(hdr) == FILE_TYPE_REGULAR_FILE) {
+  if(FILE_TYPE(hdr) == FILE_TYPE_REGULAR_FILE || FILE_TYPE(hdr) == FILE_TYPE_SYM_LINK) {
     evfs_off_t max_size = fs->total_size - hdr_pos; // Always larger than the header
     if(hdr->size > (uint64_t)max_size - header_len)
       return EVFS_ERR_INVALID;
+  } else { // Nothing else has data
+    hdr->size = 0;
   }
 
   return EVFS_OK;
-- 
2.43.0


From 2d0164ad4b4adfdf627f523c8fc36d3475fdcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 43/71] fix: fatfs images: bounded volumes, checked sector I/O,
 failed mounts and formats leave nothing behind

---
 src/evfs.c          |  17 ++++++
 src/evfs_internal.h |   2 +
 src/fatfs_image.c   | 126 +++++++++++++++++++++++++++++++++-----------
 3 files changed, 114 insertions(+), 31 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index b07094b..a9ec46f 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -33,6 +33,9 @@ static Evfs *s_default_vfs = NULL;
 // Library-wide lock controlling updates to VFS linked list
 static EvfsLock s_evfs_lock = LOCK_INITIALIZER;
 
+// Serializes use of third-party code that keeps global state
+static EvfsLock s_library_lock = LOCK_INITIALIZER;
+
 #  define LOCK()    evfs__lock(&s_evfs_lock)
 #  define UNLOCK()  evfs__unlock(&s_evfs_lock)
 
@@ -41,6 +44,18 @@ static EvfsLock s_evfs_lock = LOCK_INITIALIZER;
 #  define UNLOCK()
 #endif
 
+void evfs__library_lock(void) {
+#ifdef EVFS_USE_THREADING
+  evfs__lock(&s_library_lock);
+#endif
+}
+
+void evfs__library_unlock(void) {
+#ifdef EVFS_USE_THREADING
+  evfs__unlock(&s_library_lock);
+#endif
+}
+
 // ******************** Initialization ********************
 
 static bool s_evfs_initialized = false;
@@ -49,6 +64,7 @@ static bool s_evfs_initialized = false;
 static void evfs__lib_shutdown(void) {
   evfs_unregister_all();
 #  ifdef EVFS_USE_THREADING
+  evfs__lock_destroy(&s_library_lock);
   evfs__lock_destroy(&s_evfs_lock);
 #  endif
 }
@@ -59,6 +75,7 @@ static void evfs__lib_shutdown(void) {
 void evfs__lib_init(void) {
 #ifdef EVFS_USE_THREADING
   evfs__lock_init(&s_evfs_lock);
+  evfs__lock_init(&s_library_lock);
 #endif
 #ifdef EVFS_USE_ATEXIT
   atexit(evfs__lib_shutdown);
diff --git a/src/evfs_internal.h b/src/evfs_internal.h
index 7fb1508..4803a2d 100644
--- a/src/evfs_internal.h
+++ b/src/evfs_internal.h
@@ -153,6 +153,8 @@ static inline int evfs__nop(EvfsLock *(l)) { return 0; }
 
 
 void evfs__lib_init(void);  // Called by evfs__init_once()
+void evfs__library_lock(void);    // Serialize third-party code with global state
+void evfs__library_unlock(void);
 
 int evfs__register_new(Evfs *vfs, bool make_default);
 bool evfs__vfs_existing_dir(Evfs *vfs, const char *path);
diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 914fbd1..d4f4154 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -29,7 +29,14 @@ Embedded Virtual Filesystem
 static FatfsImage s_fatfs_image_data[FF_VOLUMES] = {0};
 
 static inline FatfsImage *get_image_data(BYTE pdrv) {
-  return &s_fatfs_image_data[pdrv];
+  return pdrv < FF_VOLUMES ? &s_fatfs_image_data[pdrv] : NULL;
+}
+
+// FatFs path for a volume
+#define DRIVE_PATH_SIZE  sizeof("255:")
+
+static inline void make_drive_path(char *drive_path, uint8_t pdrv) {
+  snprintf(drive_path, DRIVE_PATH_SIZE, "%u:", pdrv);
 }
 
 
@@ -52,36 +59,51 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
   // We need to use a FatFs volume entry for formatting
   FatfsImage *img = get_image_data(pdrv);
 
-  if(PTR_CHECK(img)) return EVFS_ERR;
+  if(PTR_CHECK(img)) return EVFS_ERR_BAD_ARG;
+  if(ASSERT(!img->fh, "Volume is in use")) return EVFS_ERR_EXISTS;
+  if(ASSERT(img_size > 0, "Invalid image size")) return EVFS_ERR_BAD_ARG;
 
   int status = evfs_open(img_path, &img->fh, EVFS_WRITE | EVFS_NO_EXIST);
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+    status = evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+    if(status == EVFS_OK) {
+      ptrdiff_t wrote = evfs_file_write(img->fh, "\0", 1);
+      if(wrote < 1)
+        status = wrote < 0 ? (int)wrote : EVFS_ERR_IO;
+    }
+
+    int close_status = evfs_file_close(img->fh);
+    img->fh = NULL;
+    if(status == EVFS_OK)
+      status = close_status;
 
-    char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
-    if(status > 0) {
+    if(status == EVFS_OK) {
 #if FF_FS_READONLY == 0
       // Reopen for formatting
-      evfs_file_close(img->fh);
-      evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
-
-
-      char drive_path[3];
-      char buf[FF_MAX_SS*4];
-
-      snprintf(drive_path, 2, "%hhu", pdrv);
-
-      FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
-      status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
+      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      if(status == EVFS_OK) {
+        char drive_path[DRIVE_PATH_SIZE];
+        char buf[FF_MAX_SS*4];
+
+        make_drive_path(drive_path, pdrv);
+        evfs__library_lock();
+        FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
+        evfs__library_unlock();
+        status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
+
+        close_status = evfs_file_close(img->fh);
+        if(status == EVFS_OK)
+          status = close_status;
+      }
 #else
       status = EVFS_ERR_NO_SUPPORT;
 #endif
     }
 
-    evfs_file_close(img->fh);
+    if(status != EVFS_OK) // Don't leave an unusable image
+      evfs_delete(img_path);
   }
 
   img->fh = NULL;
@@ -103,21 +125,32 @@ Returns:
 int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   if(PTR_CHECK(img_path)) return EVFS_ERR_BAD_ARG;
   FatfsImage *img = get_image_data(pdrv);
+  if(PTR_CHECK(img)) return EVFS_ERR_BAD_ARG;
+  if(ASSERT(!img->fh, "Volume is in use")) return EVFS_ERR_EXISTS;
 
   // Open the image
   int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+    img->fh = NULL;
     return status;
+  }
 
 
-  char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  char drive_path[DRIVE_PATH_SIZE];
+  make_drive_path(drive_path, pdrv);
 
+  evfs__library_lock();
   FRESULT err = f_mount(&img->fs, drive_path, 1);
+  if(err != FR_OK) // The volume is registered even when it can't be mounted
+    f_unmount(drive_path);
+  evfs__library_unlock();
+
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
@@ -133,12 +166,18 @@ Args:
 */
 void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
+  if(!img || !img->fh) // Not mounted
+    return;
+
+  char drive_path[DRIVE_PATH_SIZE];
+  make_drive_path(drive_path, pdrv);
 
-  char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  evfs__library_lock();
   f_unmount(drive_path);
+  evfs__library_unlock();
 
   evfs_file_close(img->fh);
+  img->fh = NULL;
 }
 
 
@@ -150,18 +189,33 @@ void fatfs_unmount_image(uint8_t pdrv) {
 
 DSTATUS disk_initialize(BYTE pdrv) {
   FatfsImage *img = get_image_data(pdrv);
-  return img ? 0 : STA_NOINIT;
+  return img && img->fh ? 0 : STA_NOINIT;
 }
 
 DSTATUS disk_status(BYTE pdrv) {
   FatfsImage *img = get_image_data(pdrv);
-  return img ? 0 : STA_NOINIT;
+  return img && img->fh ? 0 : STA_NOINIT;
+}
+
+// Move to a sector in the image
+static bool seek_sector(FatfsImage *img, LBA_t sector) {
+  evfs_off_t offset = (evfs_off_t)sector * FF_MAX_SS;
+
+  // Sector may be beyond the largest offset we can represent
+  if((uint64_t)sector * FF_MAX_SS != (uint64_t)offset || offset < 0)
+    return false;
+
+  return evfs_file_seek(img->fh, offset, EVFS_SEEK_TO) == EVFS_OK;
 }
 
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
+  if(!img || !img->fh)
+    return RES_NOTRDY;
+
+  if(!seek_sector(img, sector))
+    return RES_ERROR;
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
 
   return read == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -169,8 +223,12 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
+  if(!img || !img->fh)
+    return RES_NOTRDY;
+
+  if(!seek_sector(img, sector))
+    return RES_ERROR;
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
 
   return wrote == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -181,6 +239,8 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
   FatfsImage *img = get_image_data(pdrv);
   if(!img)
     return RES_PARERR;
+  if(!img->fh)
+    return RES_NOTRDY;
 
   switch(cmd) {
   case CTRL_SYNC:         // Complete pending write process (needed at FF_FS_READONLY == 0)
@@ -190,7 +250,11 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
   case GET_SECTOR_COUNT:  // Get media size (needed at FF_USE_MKFS == 1)
     {
       LBA_t *sectors = (LBA_t *)buff;
-      *sectors = evfs_file_size(img->fh) / FF_MAX_SS;
+      evfs_off_t img_size = evfs_file_size(img->fh);
+      if(img_size < 0)
+        return RES_ERROR;
+
+      *sectors = img_size / FF_MAX_SS;
       return RES_OK;
     }
     break;
@@ -205,8 +269,8 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
 
   case GET_BLOCK_SIZE:    // Get erase block size (needed at FF_USE_MKFS == 1)
     {
-      WORD *ss = (WORD *)buff;
-      *ss = FF_MAX_SS;
+      DWORD *sectors = (DWORD *)buff; // Block size in sectors
+      *sectors = 1;
       return RES_OK;
     }
     break;
-- 
2.43.0


From 421c5b7298e27f7a548272f039b55fa0139e5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 44/71] fix: fatfs: serialized access, paths refer to the
 registered volume, errors and full volumes are reported

---
 src/fatfs_fs.c | 264 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 225 insertions(+), 39 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 2fadb96..29349b8 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -27,11 +27,26 @@ Embedded Virtual Filesystem
 
 ///////////////////////////////////////////////////////////////////////////////////
 
+// FatFs isn't reentrant so all access to a volume is serialized
+#ifdef EVFS_USE_THREADING
+#  define LOCK()    evfs__lock(&fs_data->fatfs_lock)
+#  define UNLOCK()  evfs__unlock(&fs_data->fatfs_lock)
+#else
+#  define LOCK()    (void)fs_data
+#  define UNLOCK()
+#endif
+
+// Largest size or offset we can report
+#define FATFS_MAX_OFFSET  (sizeof(evfs_off_t) > 4 ? (evfs_off_t)INT64_MAX : (evfs_off_t)INT32_MAX)
+
 
 typedef struct FatfsData_s {
   //FATFS *fs;
   uint8_t pdrv;
   FILINFO info;
+#ifdef EVFS_USE_THREADING
+  EvfsLock fatfs_lock;
+#endif
 
   // VFS config options
   unsigned cfg_readonly:1; // EVFS_CMD_SET_READONLY
@@ -42,12 +57,14 @@ typedef struct FatfsFile_s {
   EvfsFile base;
   FatfsData *fs_data;
   uint8_t pdrv;
+  bool append; // All writes go to the end
   FIL fil;
 } FatfsFile;
 
 
 typedef struct FatfsDir_s {
   EvfsDir base;
+  FatfsData *fs_data;
   uint8_t pdrv;
   DIR dir;
   FILINFO info; // Need to hold entry names
@@ -85,6 +102,36 @@ static int translate_error(int err) {
 #define simple_error(e)  ((e) == FR_OK ? EVFS_OK : EVFS_ERR)
 
 
+static inline evfs_off_t limit_offset(FSIZE_t offset) {
+  return (uint64_t)offset > (uint64_t)FATFS_MAX_OFFSET ? FATFS_MAX_OFFSET : (evfs_off_t)offset;
+}
+
+
+// Paths without a drive number refer to the registered volume
+#define DRIVE_PATH_SIZE  (2 + EVFS_MAX_PATH)
+
+static int fatfs__drive_path(FatfsData *fs_data, const char *path, char *drive_path) {
+  size_t pos = 0;
+
+  if(!(isdigit((unsigned char)path[0]) && path[1] == ':')) {
+    drive_path[pos++] = '0' + fs_data->pdrv;
+    drive_path[pos++] = ':';
+  }
+
+  size_t path_len = strlen(path);
+  if(path_len >= EVFS_MAX_PATH) return EVFS_ERR_TOO_LONG;
+
+  memcpy(&drive_path[pos], path, path_len+1);
+  return EVFS_OK;
+}
+
+#define MAKE_DRIVE_PATH(path, drive_path) char drive_path[DRIVE_PATH_SIZE]; do { \
+ int path_status = fatfs__drive_path(fs_data, path, drive_path); \
+ if(path_status != EVFS_OK) \
+   return path_status; \
+} while(0)
+
+
 static bool fatfs__path_root_component(Evfs *vfs, const char *path, StringRange *root) {
   // Handle DOS style drive paths
   const char *pos = path;
@@ -112,15 +159,25 @@ static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int fatfs__file_close(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  f_close(&fil->fil);
-  return EVFS_OK;
+  FatfsData *fs_data = fil->fs_data;
+
+  LOCK();
+  FRESULT status = f_close(&fil->fil);
+  UNLOCK();
+
+  return translate_error(status);
 }
 
 static ptrdiff_t fatfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   FatfsFile *fil = (FatfsFile *)fh;
+  FatfsData *fs_data = fil->fs_data;
 
   UINT read = 0;
+  size = MIN(size, INT32_MAX);
+
+  LOCK();
   FRESULT status = f_read(&fil->fil, buf, size, &read);
+  UNLOCK();
   ptrdiff_t rval = translate_error(status);
 
   if(rval == EVFS_OK && read > 0)
@@ -137,11 +194,25 @@ static ptrdiff_t fatfs__file_write(EvfsFile *fh, const void *buf, size_t size) {
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
   UINT wrote = 0;
-  FRESULT status = f_write(&fil->fil, buf, size, &wrote);
+  FRESULT status = FR_OK;
+  size = MIN(size, INT32_MAX);
+
+  LOCK();
+  if(fil->append && f_tell(&fil->fil) != f_size(&fil->fil))
+    status = f_lseek(&fil->fil, f_size(&fil->fil));
+
+  if(status == FR_OK)
+    status = f_write(&fil->fil, buf, size, &wrote);
+  UNLOCK();
+
   ptrdiff_t rval = translate_error(status);
 
-  if(rval == EVFS_OK && wrote > 0)
-    rval = wrote;
+  if(rval == EVFS_OK) {
+    if(wrote > 0)
+      rval = wrote;
+    else if(size > 0) // No space left
+      rval = EVFS_ERR_FS_FULL;
+  }
 
   return rval;
 #else
@@ -156,22 +227,28 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  evfs_off_t cur_pos = f_tell(&fil->fil);
+  if(size < 0) return EVFS_ERR_BAD_ARG;
+
+  FRESULT status = FR_OK;
+
+  LOCK();
+  FSIZE_t cur_pos = f_tell(&fil->fil);
 
   // f_lseek() can grow files in write mode which we don't want to do here.
-  evfs_off_t file_size = f_size(&fil->fil);
-  if(size >= file_size)
-    size = file_size-1;
+  FSIZE_t new_size = MIN((FSIZE_t)size, f_size(&fil->fil));
 
-  if(cur_pos > size)
-    cur_pos = size;
+  if(cur_pos > new_size)
+    cur_pos = new_size;
 
-  FRESULT status = f_lseek(&fil->fil, size);
+  status = f_lseek(&fil->fil, new_size);
   if(status == FR_OK)
     status = f_truncate(&fil->fil);
 
   // Restore original position
-  f_lseek(&fil->fil, cur_pos);
+  FRESULT seek_status = f_lseek(&fil->fil, cur_pos);
+  if(status == FR_OK)
+    status = seek_status;
+  UNLOCK();
 
   return translate_error(status);
 #else
@@ -182,7 +259,13 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 static int fatfs__file_sync(EvfsFile *fh) {
 #if FF_FS_READONLY == 0
   FatfsFile *fil = (FatfsFile *)fh;
-  return simple_error(f_sync(&fil->fil));
+  FatfsData *fs_data = fil->fs_data;
+
+  LOCK();
+  FRESULT status = f_sync(&fil->fil);
+  UNLOCK();
+
+  return translate_error(status);
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
 #endif
@@ -191,8 +274,7 @@ static int fatfs__file_sync(EvfsFile *fh) {
 static evfs_off_t fatfs__file_size(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
 
-  FSIZE_t size = f_size(&fil->fil);
-  return size;
+  return limit_offset(f_size(&fil->fil));
 }
 
 static int fatfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
@@ -219,12 +301,24 @@ static int fatfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
 
   if(offset < 0) return offset;
 
-  return translate_error(f_lseek(&fil->fil, offset));
+  FatfsData *fs_data = fil->fs_data;
+
+  LOCK();
+  FRESULT status = f_lseek(&fil->fil, offset);
+
+  // A file that is writable can't be extended when the volume is full
+  bool no_space = (fil->fil.flag & FA_WRITE) && f_tell(&fil->fil) < (FSIZE_t)offset;
+  UNLOCK();
+
+  if(status == FR_OK && no_space)
+    return EVFS_ERR_FS_FULL;
+
+  return translate_error(status);
 }
 
 static evfs_off_t fatfs__file_tell(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  return f_tell(&fil->fil);
+  return limit_offset(f_tell(&fil->fil));
 }
 
 static bool fatfs__file_eof(EvfsFile *fh) {
@@ -254,7 +348,13 @@ static EvfsFileMethods s_fatfs_methods = {
 
 static int fatfs__dir_close(EvfsDir *dh) {
   FatfsDir *dir = (FatfsDir *)dh;
-  return simple_error(f_closedir(&dir->dir));
+  FatfsData *fs_data = dir->fs_data;
+
+  LOCK();
+  FRESULT status = f_closedir(&dir->dir);
+  UNLOCK();
+
+  return simple_error(status);
 }
 
 /*
@@ -277,14 +377,20 @@ DWORD get_fattime(void) {
 
 static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   FatfsDir *dir = (FatfsDir *)dh;
+  FatfsData *fs_data = dir->fs_data;
 
+  LOCK();
   FRESULT status = f_readdir(&dir->dir, &dir->info);
+  UNLOCK();
 
   memset(info, 0, sizeof(*info));
 
-  if(status == FR_OK && dir->info.fname[0] != '\0') {
+  if(status != FR_OK)
+    return translate_error(status);
+
+  if(dir->info.fname[0] != '\0') {
     info->name = dir->info.fname;
-    info->size = dir->info.fsize;
+    info->size = limit_offset(dir->info.fsize);
 
     if(dir->info.fattrib & AM_DIR)
       info->type |= EVFS_FILE_DIR;
@@ -320,7 +426,13 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
 static int fatfs__dir_rewind(EvfsDir *dh) {
   FatfsDir *dir = (FatfsDir *)dh;
-  return translate_error(f_rewinddir(&dir->dir));
+  FatfsData *fs_data = dir->fs_data;
+
+  LOCK();
+  FRESULT status = f_rewinddir(&dir->dir);
+  UNLOCK();
+
+  return translate_error(status);
 }
 
 
@@ -342,9 +454,11 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
+  MAKE_DRIVE_PATH(path, drive_path);
+
   BYTE fs_flags = 0;
 
   if(flags & EVFS_READ)        fs_flags |= FA_READ;
@@ -356,9 +470,11 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   fil->fs_data = fs_data;
   fil->pdrv = fs_data->pdrv;
-  
-  FRESULT status;
-  status = f_open(&fil->fil, path, fs_flags);
+  fil->append = !!(flags & EVFS_APPEND);
+
+  LOCK();
+  FRESULT status = f_open(&fil->fil, drive_path, fs_flags);
+  UNLOCK();
 
   return translate_error(status);
 }
@@ -367,21 +483,33 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   FatfsData *fs_data = (FatfsData *)vfs->fs_data;
 
-  FRESULT status;
+  memset(info, 0, sizeof(*info));
 
-  status = f_stat(path, &fs_data->info);
+  MAKE_DRIVE_PATH(path, drive_path);
 
-  memset(info, 0, sizeof(*info));
+  LOCK();
+  FRESULT status = f_stat(drive_path, &fs_data->info);
+
+  if(status == FR_INVALID_NAME) { // f_stat() doesn't work on the root directory
+    DIR dir;
+    if(f_opendir(&dir, drive_path) == FR_OK) {
+      f_closedir(&dir);
+      memset(&fs_data->info, 0, sizeof(fs_data->info));
+      fs_data->info.fattrib = AM_DIR;
+      status = FR_OK;
+    }
+  }
 
   if(status == FR_OK) {
     info->name = fs_data->info.fname;
-    info->size = fs_data->info.fsize;
+    info->size = limit_offset(fs_data->info.fsize);
 
     if(fs_data->info.fattrib & AM_DIR)
       info->type |= EVFS_FILE_DIR;
   } else {
     info->name = NULL;
   }
+  UNLOCK();
 
   return translate_error(status);
 }
@@ -393,7 +521,12 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  status = f_unlink(path);
+  MAKE_DRIVE_PATH(path, drive_path);
+
+  LOCK();
+  status = f_unlink(drive_path);
+  UNLOCK();
+
   return translate_error(status);
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
@@ -408,7 +541,13 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  status = f_rename(old_path, new_path);
+  MAKE_DRIVE_PATH(old_path, old_drive_path);
+  MAKE_DRIVE_PATH(new_path, new_drive_path);
+
+  LOCK();
+  status = f_rename(old_drive_path, new_drive_path);
+  UNLOCK();
+
   return translate_error(status);
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
@@ -424,7 +563,12 @@ static int fatfs__make_dir(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  status = f_mkdir(path);
+  MAKE_DRIVE_PATH(path, drive_path);
+
+  LOCK();
+  status = f_mkdir(drive_path);
+  UNLOCK();
+
   return translate_error(status);
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
@@ -439,24 +583,55 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
   memset(dir, 0, sizeof(*dir));
   dh->methods = &s_fatfs_dir_methods;
   //dir->fs = fs_data->fs;
+  dir->fs_data = fs_data;
   dir->pdrv = fs_data->pdrv;
 
-  FRESULT status;
+  MAKE_DRIVE_PATH(path, drive_path);
 
-  status = f_opendir(&dir->dir, path);
-  return translate_error(status);
+  LOCK();
+  FRESULT status = f_opendir(&dir->dir, drive_path);
+  UNLOCK();
 
+  return translate_error(status);
 }
 
 
 
 static int fatfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
-  FRESULT status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
-  return translate_error(status);
+  FatfsData *fs_data = (FatfsData *)vfs->fs_data;
+  char drive[] = {'0' + fs_data->pdrv, ':', '\0'};
+  char path[EVFS_MAX_PATH]; // f_getcwd() needs more space than the path takes
+
+  evfs__library_lock(); // The current drive is global
+  LOCK();
+  FRESULT status = f_chdrive(drive);
+  if(status == FR_OK)
+    status = f_getcwd(path, COUNT_OF(path));
+  UNLOCK();
+  evfs__library_unlock();
+
+  if(status == FR_NOT_ENOUGH_CORE)
+    return EVFS_ERR_OVERFLOW;
+
+  if(status != FR_OK)
+    return translate_error(status);
+
+  if(strlen(path) >= (size_t)range_size(cur_dir))
+    return EVFS_ERR_OVERFLOW;
+
+  strcpy((char *)cur_dir->start, path);
+  return EVFS_OK;
 }
 
 static int fatfs__set_cur_dir(Evfs *vfs, const char *path) {
-  FRESULT status = f_chdir(path);
+  FatfsData *fs_data = (FatfsData *)vfs->fs_data;
+
+  MAKE_DRIVE_PATH(path, drive_path);
+
+  LOCK();
+  FRESULT status = f_chdir(drive_path);
+  UNLOCK();
+
   return translate_error(status);
 }
 
@@ -466,6 +641,9 @@ static int fatfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
 
   switch(cmd) {
     case EVFS_CMD_UNREGISTER:
+#ifdef EVFS_USE_THREADING
+      evfs__lock_destroy(&fs_data->fatfs_lock);
+#endif
       evfs_free(vfs);
       return EVFS_OK; break;
 
@@ -512,6 +690,7 @@ Returns:
 */
 int evfs_register_fatfs(const char *vfs_name, uint8_t pdrv, bool default_vfs) {
   if(PTR_CHECK(vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(ASSERT(pdrv < FF_VOLUMES, "Invalid volume")) return EVFS_ERR_BAD_ARG;
   Evfs *new_vfs;
   FatfsData *fs_data;
 
@@ -532,6 +711,13 @@ int evfs_register_fatfs(const char *vfs_name, uint8_t pdrv, bool default_vfs) {
   // Init FS data
   fs_data->pdrv = pdrv;
 
+#ifdef EVFS_USE_THREADING
+  if(evfs__lock_init(&fs_data->fatfs_lock) != EVFS_OK) {
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
+#endif
+
   // Init VFS
   new_vfs->vfs_file_size = sizeof(FatfsFile);
   new_vfs->vfs_dir_size = sizeof(FatfsDir);
-- 
2.43.0


From f7c63cff2dd236a7e8e874f488df8017db29268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 45/71] fix: fatfs: a directory can't be moved into itself

---
 libraries/fatfs/source/ff.c | 13975 +++++++++++++++++-----------------
 1 file changed, 6993 insertions(+), 6982 deletions(-)

diff --git a/libraries/fatfs/source/ff.c b/libraries/fatfs/source/ff.c
index cbdf685..1b8dce6 100644
--- a/libraries/fatfs/source/ff.c
+++ b/libraries/fatfs/source/ff.c
@@ -1,6982 +1,6993 @@
-/*----------------------------------------------------------------------------/
-/  FatFs - Generic FAT Filesystem Module  R0.14b                              /
-/-----------------------------------------------------------------------------/
-/
-/ Copyright (C) 2021, ChaN, all right reserved.
-/
-/ FatFs module is an open source software. Redistribution and use of FatFs in
-/ source and binary forms, with or without modification, are permitted provided
-/ that the following condition is met:
-/
-/ 1. Redistributions of source code must retain the above copyright notice,
-/    this condition and the following disclaimer.
-/
-/ This software is provided by the copyright holder and contributors "AS IS"
-/ and any warranties related to this software are DISCLAIMED.
-/ The copyright owner or contributors be NOT LIABLE for any damages caused
-/ by use of this software.
-/
-/----------------------------------------------------------------------------*/
-
-
-#include <string.h>
-#include "ff.h"			/* Declarations of FatFs API */
-#include "diskio.h"		/* Declarations of device I/O functions */
-
-
-/*--------------------------------------------------------------------------
-
-   Module Private Definitions
-
----------------------------------------------------------------------------*/
-
-#if FF_DEFINED != 86631	/* Revision ID */
-#error Wrong include file (ff.h).
-#endif
-
-
-/* Limits and boundaries */
-#define MAX_DIR		0x200000		/* Max size of FAT directory */
-#define MAX_DIR_EX	0x10000000		/* Max size of exFAT directory */
-#define MAX_FAT12	0xFF5			/* Max FAT12 clusters (differs from specs, but right for real DOS/Windows behavior) */
-#define MAX_FAT16	0xFFF5			/* Max FAT16 clusters (differs from specs, but right for real DOS/Windows behavior) */
-#define MAX_FAT32	0x0FFFFFF5		/* Max FAT32 clusters (not specified, practical limit) */
-#define MAX_EXFAT	0x7FFFFFFD		/* Max exFAT clusters (differs from specs, implementation limit) */
-
-
-/* Character code support macros */
-#define IsUpper(c)		((c) >= 'A' && (c) <= 'Z')
-#define IsLower(c)		((c) >= 'a' && (c) <= 'z')
-#define IsDigit(c)		((c) >= '0' && (c) <= '9')
-#define IsSeparator(c)	((c) == '/' || (c) == '\\')
-#define IsTerminator(c)	((UINT)(c) < (FF_USE_LFN ? ' ' : '!'))
-#define IsSurrogate(c)	((c) >= 0xD800 && (c) <= 0xDFFF)
-#define IsSurrogateH(c)	((c) >= 0xD800 && (c) <= 0xDBFF)
-#define IsSurrogateL(c)	((c) >= 0xDC00 && (c) <= 0xDFFF)
-
-
-/* Additional file access control and file status flags for internal use */
-#define FA_SEEKEND	0x20	/* Seek to end of the file on file open */
-#define FA_MODIFIED	0x40	/* File has been modified */
-#define FA_DIRTY	0x80	/* FIL.buf[] needs to be written-back */
-
-
-/* Additional file attribute bits for internal use */
-#define AM_VOL		0x08	/* Volume label */
-#define AM_LFN		0x0F	/* LFN entry */
-#define AM_MASK		0x3F	/* Mask of defined bits in FAT */
-#define AM_MASKX	0x37	/* Mask of defined bits in exFAT */
-
-
-/* Name status flags in fn[11] */
-#define NSFLAG		11		/* Index of the name status byte */
-#define NS_LOSS		0x01	/* Out of 8.3 format */
-#define NS_LFN		0x02	/* Force to create LFN entry */
-#define NS_LAST		0x04	/* Last segment */
-#define NS_BODY		0x08	/* Lower case flag (body) */
-#define NS_EXT		0x10	/* Lower case flag (ext) */
-#define NS_DOT		0x20	/* Dot entry */
-#define NS_NOLFN	0x40	/* Do not find LFN */
-#define NS_NONAME	0x80	/* Not followed */
-
-
-/* exFAT directory entry types */
-#define	ET_BITMAP	0x81	/* Allocation bitmap */
-#define	ET_UPCASE	0x82	/* Up-case table */
-#define	ET_VLABEL	0x83	/* Volume label */
-#define	ET_FILEDIR	0x85	/* File and directory */
-#define	ET_STREAM	0xC0	/* Stream extension */
-#define	ET_FILENAME	0xC1	/* Name extension */
-
-
-/* FatFs refers the FAT structure as simple byte array instead of structure member
-/ because the C structure is not binary compatible between different platforms */
-
-#define BS_JmpBoot			0		/* x86 jump instruction (3-byte) */
-#define BS_OEMName			3		/* OEM name (8-byte) */
-#define BPB_BytsPerSec		11		/* Sector size [byte] (WORD) */
-#define BPB_SecPerClus		13		/* Cluster size [sector] (BYTE) */
-#define BPB_RsvdSecCnt		14		/* Size of reserved area [sector] (WORD) */
-#define BPB_NumFATs			16		/* Number of FATs (BYTE) */
-#define BPB_RootEntCnt		17		/* Size of root directory area for FAT [entry] (WORD) */
-#define BPB_TotSec16		19		/* Volume size (16-bit) [sector] (WORD) */
-#define BPB_Media			21		/* Media descriptor byte (BYTE) */
-#define BPB_FATSz16			22		/* FAT size (16-bit) [sector] (WORD) */
-#define BPB_SecPerTrk		24		/* Number of sectors per track for int13h [sector] (WORD) */
-#define BPB_NumHeads		26		/* Number of heads for int13h (WORD) */
-#define BPB_HiddSec			28		/* Volume offset from top of the drive (DWORD) */
-#define BPB_TotSec32		32		/* Volume size (32-bit) [sector] (DWORD) */
-#define BS_DrvNum			36		/* Physical drive number for int13h (BYTE) */
-#define BS_NTres			37		/* WindowsNT error flag (BYTE) */
-#define BS_BootSig			38		/* Extended boot signature (BYTE) */
-#define BS_VolID			39		/* Volume serial number (DWORD) */
-#define BS_VolLab			43		/* Volume label string (8-byte) */
-#define BS_FilSysType		54		/* Filesystem type string (8-byte) */
-#define BS_BootCode			62		/* Boot code (448-byte) */
-#define BS_55AA				510		/* Signature word (WORD) */
-
-#define BPB_FATSz32			36		/* FAT32: FAT size [sector] (DWORD) */
-#define BPB_ExtFlags32		40		/* FAT32: Extended flags (WORD) */
-#define BPB_FSVer32			42		/* FAT32: Filesystem version (WORD) */
-#define BPB_RootClus32		44		/* FAT32: Root directory cluster (DWORD) */
-#define BPB_FSInfo32		48		/* FAT32: Offset of FSINFO sector (WORD) */
-#define BPB_BkBootSec32		50		/* FAT32: Offset of backup boot sector (WORD) */
-#define BS_DrvNum32			64		/* FAT32: Physical drive number for int13h (BYTE) */
-#define BS_NTres32			65		/* FAT32: Error flag (BYTE) */
-#define BS_BootSig32		66		/* FAT32: Extended boot signature (BYTE) */
-#define BS_VolID32			67		/* FAT32: Volume serial number (DWORD) */
-#define BS_VolLab32			71		/* FAT32: Volume label string (8-byte) */
-#define BS_FilSysType32		82		/* FAT32: Filesystem type string (8-byte) */
-#define BS_BootCode32		90		/* FAT32: Boot code (420-byte) */
-
-#define BPB_ZeroedEx		11		/* exFAT: MBZ field (53-byte) */
-#define BPB_VolOfsEx		64		/* exFAT: Volume offset from top of the drive [sector] (QWORD) */
-#define BPB_TotSecEx		72		/* exFAT: Volume size [sector] (QWORD) */
-#define BPB_FatOfsEx		80		/* exFAT: FAT offset from top of the volume [sector] (DWORD) */
-#define BPB_FatSzEx			84		/* exFAT: FAT size [sector] (DWORD) */
-#define BPB_DataOfsEx		88		/* exFAT: Data offset from top of the volume [sector] (DWORD) */
-#define BPB_NumClusEx		92		/* exFAT: Number of clusters (DWORD) */
-#define BPB_RootClusEx		96		/* exFAT: Root directory start cluster (DWORD) */
-#define BPB_VolIDEx			100		/* exFAT: Volume serial number (DWORD) */
-#define BPB_FSVerEx			104		/* exFAT: Filesystem version (WORD) */
-#define BPB_VolFlagEx		106		/* exFAT: Volume flags (WORD) */
-#define BPB_BytsPerSecEx	108		/* exFAT: Log2 of sector size in unit of byte (BYTE) */
-#define BPB_SecPerClusEx	109		/* exFAT: Log2 of cluster size in unit of sector (BYTE) */
-#define BPB_NumFATsEx		110		/* exFAT: Number of FATs (BYTE) */
-#define BPB_DrvNumEx		111		/* exFAT: Physical drive number for int13h (BYTE) */
-#define BPB_PercInUseEx		112		/* exFAT: Percent in use (BYTE) */
-#define BPB_RsvdEx			113		/* exFAT: Reserved (7-byte) */
-#define BS_BootCodeEx		120		/* exFAT: Boot code (390-byte) */
-
-#define DIR_Name			0		/* Short file name (11-byte) */
-#define DIR_Attr			11		/* Attribute (BYTE) */
-#define DIR_NTres			12		/* Lower case flag (BYTE) */
-#define DIR_CrtTime10		13		/* Created time sub-second (BYTE) */
-#define DIR_CrtTime			14		/* Created time (DWORD) */
-#define DIR_LstAccDate		18		/* Last accessed date (WORD) */
-#define DIR_FstClusHI		20		/* Higher 16-bit of first cluster (WORD) */
-#define DIR_ModTime			22		/* Modified time (DWORD) */
-#define DIR_FstClusLO		26		/* Lower 16-bit of first cluster (WORD) */
-#define DIR_FileSize		28		/* File size (DWORD) */
-#define LDIR_Ord			0		/* LFN: LFN order and LLE flag (BYTE) */
-#define LDIR_Attr			11		/* LFN: LFN attribute (BYTE) */
-#define LDIR_Type			12		/* LFN: Entry type (BYTE) */
-#define LDIR_Chksum			13		/* LFN: Checksum of the SFN (BYTE) */
-#define LDIR_FstClusLO		26		/* LFN: MBZ field (WORD) */
-#define XDIR_Type			0		/* exFAT: Type of exFAT directory entry (BYTE) */
-#define XDIR_NumLabel		1		/* exFAT: Number of volume label characters (BYTE) */
-#define XDIR_Label			2		/* exFAT: Volume label (11-WORD) */
-#define XDIR_CaseSum		4		/* exFAT: Sum of case conversion table (DWORD) */
-#define XDIR_NumSec			1		/* exFAT: Number of secondary entries (BYTE) */
-#define XDIR_SetSum			2		/* exFAT: Sum of the set of directory entries (WORD) */
-#define XDIR_Attr			4		/* exFAT: File attribute (WORD) */
-#define XDIR_CrtTime		8		/* exFAT: Created time (DWORD) */
-#define XDIR_ModTime		12		/* exFAT: Modified time (DWORD) */
-#define XDIR_AccTime		16		/* exFAT: Last accessed time (DWORD) */
-#define XDIR_CrtTime10		20		/* exFAT: Created time subsecond (BYTE) */
-#define XDIR_ModTime10		21		/* exFAT: Modified time subsecond (BYTE) */
-#define XDIR_CrtTZ			22		/* exFAT: Created timezone (BYTE) */
-#define XDIR_ModTZ			23		/* exFAT: Modified timezone (BYTE) */
-#define XDIR_AccTZ			24		/* exFAT: Last accessed timezone (BYTE) */
-#define XDIR_GenFlags		33		/* exFAT: General secondary flags (BYTE) */
-#define XDIR_NumName		35		/* exFAT: Number of file name characters (BYTE) */
-#define XDIR_NameHash		36		/* exFAT: Hash of file name (WORD) */
-#define XDIR_ValidFileSize	40		/* exFAT: Valid file size (QWORD) */
-#define XDIR_FstClus		52		/* exFAT: First cluster of the file data (DWORD) */
-#define XDIR_FileSize		56		/* exFAT: File/Directory size (QWORD) */
-
-#define SZDIRE				32		/* Size of a directory entry */
-#define DDEM				0xE5	/* Deleted directory entry mark set to DIR_Name[0] */
-#define RDDEM				0x05	/* Replacement of the character collides with DDEM */
-#define LLEF				0x40	/* Last long entry flag in LDIR_Ord */
-
-#define FSI_LeadSig			0		/* FAT32 FSI: Leading signature (DWORD) */
-#define FSI_StrucSig		484		/* FAT32 FSI: Structure signature (DWORD) */
-#define FSI_Free_Count		488		/* FAT32 FSI: Number of free clusters (DWORD) */
-#define FSI_Nxt_Free		492		/* FAT32 FSI: Last allocated cluster (DWORD) */
-
-#define MBR_Table			446		/* MBR: Offset of partition table in the MBR */
-#define SZ_PTE				16		/* MBR: Size of a partition table entry */
-#define PTE_Boot			0		/* MBR PTE: Boot indicator */
-#define PTE_StHead			1		/* MBR PTE: Start head */
-#define PTE_StSec			2		/* MBR PTE: Start sector */
-#define PTE_StCyl			3		/* MBR PTE: Start cylinder */
-#define PTE_System			4		/* MBR PTE: System ID */
-#define PTE_EdHead			5		/* MBR PTE: End head */
-#define PTE_EdSec			6		/* MBR PTE: End sector */
-#define PTE_EdCyl			7		/* MBR PTE: End cylinder */
-#define PTE_StLba			8		/* MBR PTE: Start in LBA */
-#define PTE_SizLba			12		/* MBR PTE: Size in LBA */
-
-#define GPTH_Sign			0		/* GPT: Header signature (8-byte) */
-#define GPTH_Rev			8		/* GPT: Revision (DWORD) */
-#define GPTH_Size			12		/* GPT: Header size (DWORD) */
-#define GPTH_Bcc			16		/* GPT: Header BCC (DWORD) */
-#define GPTH_CurLba			24		/* GPT: Main header LBA (QWORD) */
-#define GPTH_BakLba			32		/* GPT: Backup header LBA (QWORD) */
-#define GPTH_FstLba			40		/* GPT: First LBA for partitions (QWORD) */
-#define GPTH_LstLba			48		/* GPT: Last LBA for partitions (QWORD) */
-#define GPTH_DskGuid		56		/* GPT: Disk GUID (16-byte) */
-#define GPTH_PtOfs			72		/* GPT: Partation table LBA (QWORD) */
-#define GPTH_PtNum			80		/* GPT: Number of table entries (DWORD) */
-#define GPTH_PteSize		84		/* GPT: Size of table entry (DWORD) */
-#define GPTH_PtBcc			88		/* GPT: Partation table BCC (DWORD) */
-#define SZ_GPTE				128		/* GPT: Size of partition table entry */
-#define GPTE_PtGuid			0		/* GPT PTE: Partition type GUID (16-byte) */
-#define GPTE_UpGuid			16		/* GPT PTE: Partition unique GUID (16-byte) */
-#define GPTE_FstLba			32		/* GPT PTE: First LBA (QWORD) */
-#define GPTE_LstLba			40		/* GPT PTE: Last LBA inclusive (QWORD) */
-#define GPTE_Flags			48		/* GPT PTE: Flags (QWORD) */
-#define GPTE_Name			56		/* GPT PTE: Name */
-
-
-/* Post process on fatal error in the file operations */
-#define ABORT(fs, res)		{ fp->err = (BYTE)(res); LEAVE_FF(fs, res); }
-
-
-/* Re-entrancy related */
-#if FF_FS_REENTRANT
-#if FF_USE_LFN == 1
-#error Static LFN work area cannot be used in thread-safe configuration
-#endif
-#define LEAVE_FF(fs, res)	{ unlock_fs(fs, res); return res; }
-#else
-#define LEAVE_FF(fs, res)	return res
-#endif
-
-
-/* Definitions of logical drive - physical location conversion */
-#if FF_MULTI_PARTITION
-#define LD2PD(vol) VolToPart[vol].pd	/* Get physical drive number */
-#define LD2PT(vol) VolToPart[vol].pt	/* Get partition number (0:auto search, 1..:forced partition number) */
-#else
-#define LD2PD(vol) (BYTE)(vol)	/* Each logical drive is associated with the same physical drive number */
-#define LD2PT(vol) 0			/* Auto partition search */
-#endif
-
-
-/* Definitions of sector size */
-#if (FF_MAX_SS < FF_MIN_SS) || (FF_MAX_SS != 512 && FF_MAX_SS != 1024 && FF_MAX_SS != 2048 && FF_MAX_SS != 4096) || (FF_MIN_SS != 512 && FF_MIN_SS != 1024 && FF_MIN_SS != 2048 && FF_MIN_SS != 4096)
-#error Wrong sector size configuration
-#endif
-#if FF_MAX_SS == FF_MIN_SS
-#define SS(fs)	((UINT)FF_MAX_SS)	/* Fixed sector size */
-#else
-#define SS(fs)	((fs)->ssize)	/* Variable sector size */
-#endif
-
-
-/* Timestamp */
-#if FF_FS_NORTC == 1
-#if FF_NORTC_YEAR < 1980 || FF_NORTC_YEAR > 2107 || FF_NORTC_MON < 1 || FF_NORTC_MON > 12 || FF_NORTC_MDAY < 1 || FF_NORTC_MDAY > 31
-#error Invalid FF_FS_NORTC settings
-#endif
-#define GET_FATTIME()	((DWORD)(FF_NORTC_YEAR - 1980) << 25 | (DWORD)FF_NORTC_MON << 21 | (DWORD)FF_NORTC_MDAY << 16)
-#else
-#define GET_FATTIME()	get_fattime()
-#endif
-
-
-/* File lock controls */
-#if FF_FS_LOCK != 0
-#if FF_FS_READONLY
-#error FF_FS_LOCK must be 0 at read-only configuration
-#endif
-typedef struct {
-	FATFS *fs;		/* Object ID 1, volume (NULL:blank entry) */
-	DWORD clu;		/* Object ID 2, containing directory (0:root) */
-	DWORD ofs;		/* Object ID 3, offset in the directory */
-	WORD ctr;		/* Object open counter, 0:none, 0x01..0xFF:read mode open count, 0x100:write mode */
-} FILESEM;
-#endif
-
-
-/* SBCS up-case tables (\x80-\xFF) */
-#define TBL_CT437  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT720  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT737  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x92,0x92,0x93,0x94,0x95,0x96,0x97,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87, \
-					0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0xAA,0x92,0x93,0x94,0x95,0x96, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0x97,0xEA,0xEB,0xEC,0xE4,0xED,0xEE,0xEF,0xF5,0xF0,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT771  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDC,0xDE,0xDE, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFE,0xFF}
-#define TBL_CT775  {0x80,0x9A,0x91,0xA0,0x8E,0x95,0x8F,0x80,0xAD,0xED,0x8A,0x8A,0xA1,0x8D,0x8E,0x8F, \
-					0x90,0x92,0x92,0xE2,0x99,0x95,0x96,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
-					0xA0,0xA1,0xE0,0xA3,0xA3,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xA5,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE3,0xE8,0xE8,0xEA,0xEA,0xEE,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT850  {0x43,0x55,0x45,0x41,0x41,0x41,0x41,0x43,0x45,0x45,0x45,0x49,0x49,0x49,0x41,0x41, \
-					0x45,0x92,0x92,0x4F,0x4F,0x4F,0x55,0x55,0x59,0x4F,0x55,0x4F,0x9C,0x4F,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0x41,0x41,0x41,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0x41,0x41,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD1,0xD1,0x45,0x45,0x45,0x49,0x49,0x49,0x49,0xD9,0xDA,0xDB,0xDC,0xDD,0x49,0xDF, \
-					0x4F,0xE1,0x4F,0x4F,0x4F,0x4F,0xE6,0xE8,0xE8,0x55,0x55,0x55,0x59,0x59,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT852  {0x80,0x9A,0x90,0xB6,0x8E,0xDE,0x8F,0x80,0x9D,0xD3,0x8A,0x8A,0xD7,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x91,0xE2,0x99,0x95,0x95,0x97,0x97,0x99,0x9A,0x9B,0x9B,0x9D,0x9E,0xAC, \
-					0xB5,0xD6,0xE0,0xE9,0xA4,0xA4,0xA6,0xA6,0xA8,0xA8,0xAA,0x8D,0xAC,0xB8,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBD,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC6,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD1,0xD1,0xD2,0xD3,0xD2,0xD5,0xD6,0xD7,0xB7,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE3,0xD5,0xE6,0xE6,0xE8,0xE9,0xE8,0xEB,0xED,0xED,0xDD,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xEB,0xFC,0xFC,0xFE,0xFF}
-#define TBL_CT855  {0x81,0x81,0x83,0x83,0x85,0x85,0x87,0x87,0x89,0x89,0x8B,0x8B,0x8D,0x8D,0x8F,0x8F, \
-					0x91,0x91,0x93,0x93,0x95,0x95,0x97,0x97,0x99,0x99,0x9B,0x9B,0x9D,0x9D,0x9F,0x9F, \
-					0xA1,0xA1,0xA3,0xA3,0xA5,0xA5,0xA7,0xA7,0xA9,0xA9,0xAB,0xAB,0xAD,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB6,0xB6,0xB8,0xB8,0xB9,0xBA,0xBB,0xBC,0xBE,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD1,0xD1,0xD3,0xD3,0xD5,0xD5,0xD7,0xD7,0xDD,0xD9,0xDA,0xDB,0xDC,0xDD,0xE0,0xDF, \
-					0xE0,0xE2,0xE2,0xE4,0xE4,0xE6,0xE6,0xE8,0xE8,0xEA,0xEA,0xEC,0xEC,0xEE,0xEE,0xEF, \
-					0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT857  {0x80,0x9A,0x90,0xB6,0x8E,0xB7,0x8F,0x80,0xD2,0xD3,0xD4,0xD8,0xD7,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0xE2,0x99,0xE3,0xEA,0xEB,0x98,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9E, \
-					0xB5,0xD6,0xE0,0xE9,0xA5,0xA5,0xA6,0xA6,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0x49,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xDE,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT860  {0x80,0x9A,0x90,0x8F,0x8E,0x91,0x86,0x80,0x89,0x89,0x92,0x8B,0x8C,0x98,0x8E,0x8F, \
-					0x90,0x91,0x92,0x8C,0x99,0xA9,0x96,0x9D,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x86,0x8B,0x9F,0x96,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT861  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x8B,0x8B,0x8D,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x8D,0x55,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
-					0xA4,0xA5,0xA6,0xA7,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT862  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT863  {0x43,0x55,0x45,0x41,0x41,0x41,0x86,0x43,0x45,0x45,0x45,0x49,0x49,0x8D,0x41,0x8F, \
-					0x45,0x45,0x45,0x4F,0x45,0x49,0x55,0x55,0x98,0x4F,0x55,0x9B,0x9C,0x55,0x55,0x9F, \
-					0xA0,0xA1,0x4F,0x55,0xA4,0xA5,0xA6,0xA7,0x49,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT864  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT865  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT866  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT869  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x86,0x9C,0x8D,0x8F,0x90, \
-					0x91,0x90,0x92,0x95,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xA4,0xA5,0xA6,0xD9,0xDA,0xDB,0xDC,0xA7,0xA8,0xDF, \
-					0xA9,0xAA,0xAC,0xAD,0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xCF,0xCF,0xD0,0xEF, \
-					0xF0,0xF1,0xD1,0xD2,0xD3,0xF5,0xD4,0xF7,0xF8,0xF9,0xD5,0x96,0x95,0x98,0xFE,0xFF}
-
-
-/* DBCS code range |----- 1st byte -----|  |----------- 2nd byte -----------| */
-/*                  <------>    <------>    <------>    <------>    <------>  */
-#define TBL_DC932 {0x81, 0x9F, 0xE0, 0xFC, 0x40, 0x7E, 0x80, 0xFC, 0x00, 0x00}
-#define TBL_DC936 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0x80, 0xFE, 0x00, 0x00}
-#define TBL_DC949 {0x81, 0xFE, 0x00, 0x00, 0x41, 0x5A, 0x61, 0x7A, 0x81, 0xFE}
-#define TBL_DC950 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0xA1, 0xFE, 0x00, 0x00}
-
-
-/* Macros for table definitions */
-#define MERGE_2STR(a, b) a ## b
-#define MKCVTBL(hd, cp) MERGE_2STR(hd, cp)
-
-
-
-
-/*--------------------------------------------------------------------------
-
-   Module Private Work Area
-
----------------------------------------------------------------------------*/
-/* Remark: Variables defined here without initial value shall be guaranteed
-/  zero/null at start-up. If not, the linker option or start-up routine is
-/  not compliance with C standard. */
-
-/*--------------------------------*/
-/* File/Volume controls           */
-/*--------------------------------*/
-
-#if FF_VOLUMES < 1 || FF_VOLUMES > 10
-#error Wrong FF_VOLUMES setting
-#endif
-static FATFS* FatFs[FF_VOLUMES];	/* Pointer to the filesystem objects (logical drives) */
-static WORD Fsid;					/* Filesystem mount ID */
-
-#if FF_FS_RPATH != 0
-static BYTE CurrVol;				/* Current drive */
-#endif
-
-#if FF_FS_LOCK != 0
-static FILESEM Files[FF_FS_LOCK];	/* Open object lock semaphores */
-#endif
-
-#if FF_STR_VOLUME_ID
-#ifdef FF_VOLUME_STRS
-static const char* const VolumeStr[FF_VOLUMES] = {FF_VOLUME_STRS};	/* Pre-defined volume ID */
-#endif
-#endif
-
-#if FF_LBA64
-#if FF_MIN_GPT > 0x100000000
-#error Wrong FF_MIN_GPT setting
-#endif
-static const BYTE GUID_MS_Basic[16] = {0xA2,0xA0,0xD0,0xEB,0xE5,0xB9,0x33,0x44,0x87,0xC0,0x68,0xB6,0xB7,0x26,0x99,0xC7};
-#endif
-
-
-
-/*--------------------------------*/
-/* LFN/Directory working buffer   */
-/*--------------------------------*/
-
-#if FF_USE_LFN == 0		/* Non-LFN configuration */
-#if FF_FS_EXFAT
-#error LFN must be enabled when enable exFAT
-#endif
-#define DEF_NAMBUF
-#define INIT_NAMBUF(fs)
-#define FREE_NAMBUF()
-#define LEAVE_MKFS(res)	return res
-
-#else					/* LFN configurations */
-#if FF_MAX_LFN < 12 || FF_MAX_LFN > 255
-#error Wrong setting of FF_MAX_LFN
-#endif
-#if FF_LFN_BUF < FF_SFN_BUF || FF_SFN_BUF < 12
-#error Wrong setting of FF_LFN_BUF or FF_SFN_BUF
-#endif
-#if FF_LFN_UNICODE < 0 || FF_LFN_UNICODE > 3
-#error Wrong setting of FF_LFN_UNICODE
-#endif
-static const BYTE LfnOfs[] = {1,3,5,7,9,14,16,18,20,22,24,28,30};	/* FAT: Offset of LFN characters in the directory entry */
-#define MAXDIRB(nc)	((nc + 44U) / 15 * SZDIRE)	/* exFAT: Size of directory entry block scratchpad buffer needed for the name length */
-
-#if FF_USE_LFN == 1		/* LFN enabled with static working buffer */
-#if FF_FS_EXFAT
-static BYTE	DirBuf[MAXDIRB(FF_MAX_LFN)];	/* Directory entry block scratchpad buffer */
-#endif
-static WCHAR LfnBuf[FF_MAX_LFN + 1];		/* LFN working buffer */
-#define DEF_NAMBUF
-#define INIT_NAMBUF(fs)
-#define FREE_NAMBUF()
-#define LEAVE_MKFS(res)	return res
-
-#elif FF_USE_LFN == 2 	/* LFN enabled with dynamic working buffer on the stack */
-#if FF_FS_EXFAT
-#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1]; BYTE dbuf[MAXDIRB(FF_MAX_LFN)];	/* LFN working buffer and directory entry block scratchpad buffer */
-#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; (fs)->dirbuf = dbuf; }
-#define FREE_NAMBUF()
-#else
-#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1];	/* LFN working buffer */
-#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; }
-#define FREE_NAMBUF()
-#endif
-#define LEAVE_MKFS(res)	return res
-
-#elif FF_USE_LFN == 3 	/* LFN enabled with dynamic working buffer on the heap */
-#if FF_FS_EXFAT
-#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer and directory entry block scratchpad buffer */
-#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2 + MAXDIRB(FF_MAX_LFN)); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; (fs)->dirbuf = (BYTE*)(lfn+FF_MAX_LFN+1); }
-#define FREE_NAMBUF()	ff_memfree(lfn)
-#else
-#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer */
-#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; }
-#define FREE_NAMBUF()	ff_memfree(lfn)
-#endif
-#define LEAVE_MKFS(res)	{ if (!work) ff_memfree(buf); return res; }
-#define MAX_MALLOC	0x8000	/* Must be >=FF_MAX_SS */
-
-#else
-#error Wrong setting of FF_USE_LFN
-
-#endif	/* FF_USE_LFN == 1 */
-#endif	/* FF_USE_LFN == 0 */
-
-
-
-/*--------------------------------*/
-/* Code conversion tables         */
-/*--------------------------------*/
-
-#if FF_CODE_PAGE == 0	/* Run-time code page configuration */
-#define CODEPAGE CodePage
-static WORD CodePage;	/* Current code page */
-static const BYTE *ExCvt, *DbcTbl;	/* Pointer to current SBCS up-case table and DBCS code range table below */
-
-static const BYTE Ct437[] = TBL_CT437;
-static const BYTE Ct720[] = TBL_CT720;
-static const BYTE Ct737[] = TBL_CT737;
-static const BYTE Ct771[] = TBL_CT771;
-static const BYTE Ct775[] = TBL_CT775;
-static const BYTE Ct850[] = TBL_CT850;
-static const BYTE Ct852[] = TBL_CT852;
-static const BYTE Ct855[] = TBL_CT855;
-static const BYTE Ct857[] = TBL_CT857;
-static const BYTE Ct860[] = TBL_CT860;
-static const BYTE Ct861[] = TBL_CT861;
-static const BYTE Ct862[] = TBL_CT862;
-static const BYTE Ct863[] = TBL_CT863;
-static const BYTE Ct864[] = TBL_CT864;
-static const BYTE Ct865[] = TBL_CT865;
-static const BYTE Ct866[] = TBL_CT866;
-static const BYTE Ct869[] = TBL_CT869;
-static const BYTE Dc932[] = TBL_DC932;
-static const BYTE Dc936[] = TBL_DC936;
-static const BYTE Dc949[] = TBL_DC949;
-static const BYTE Dc950[] = TBL_DC950;
-
-#elif FF_CODE_PAGE < 900	/* Static code page configuration (SBCS) */
-#define CODEPAGE FF_CODE_PAGE
-static const BYTE ExCvt[] = MKCVTBL(TBL_CT, FF_CODE_PAGE);
-
-#else					/* Static code page configuration (DBCS) */
-#define CODEPAGE FF_CODE_PAGE
-static const BYTE DbcTbl[] = MKCVTBL(TBL_DC, FF_CODE_PAGE);
-
-#endif
-
-
-
-
-/*--------------------------------------------------------------------------
-
-   Module Private Functions
-
----------------------------------------------------------------------------*/
-
-
-/*-----------------------------------------------------------------------*/
-/* Load/Store multi-byte word in the FAT structure                       */
-/*-----------------------------------------------------------------------*/
-
-static WORD ld_word (const BYTE* ptr)	/*	 Load a 2-byte little-endian word */
-{
-	WORD rv;
-
-	rv = ptr[1];
-	rv = rv << 8 | ptr[0];
-	return rv;
-}
-
-static DWORD ld_dword (const BYTE* ptr)	/* Load a 4-byte little-endian word */
-{
-	DWORD rv;
-
-	rv = ptr[3];
-	rv = rv << 8 | ptr[2];
-	rv = rv << 8 | ptr[1];
-	rv = rv << 8 | ptr[0];
-	return rv;
-}
-
-#if FF_FS_EXFAT
-static QWORD ld_qword (const BYTE* ptr)	/* Load an 8-byte little-endian word */
-{
-	QWORD rv;
-
-	rv = ptr[7];
-	rv = rv << 8 | ptr[6];
-	rv = rv << 8 | ptr[5];
-	rv = rv << 8 | ptr[4];
-	rv = rv << 8 | ptr[3];
-	rv = rv << 8 | ptr[2];
-	rv = rv << 8 | ptr[1];
-	rv = rv << 8 | ptr[0];
-	return rv;
-}
-#endif
-
-#if !FF_FS_READONLY
-static void st_word (BYTE* ptr, WORD val)	/* Store a 2-byte word in little-endian */
-{
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val;
-}
-
-static void st_dword (BYTE* ptr, DWORD val)	/* Store a 4-byte word in little-endian */
-{
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val;
-}
-
-#if FF_FS_EXFAT
-static void st_qword (BYTE* ptr, QWORD val)	/* Store an 8-byte word in little-endian */
-{
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val;
-}
-#endif
-#endif	/* !FF_FS_READONLY */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* String functions                                                      */
-/*-----------------------------------------------------------------------*/
-
-/* Test if the byte is DBC 1st byte */
-static int dbc_1st (BYTE c)
-{
-#if FF_CODE_PAGE == 0		/* Variable code page */
-	if (DbcTbl && c >= DbcTbl[0]) {
-		if (c <= DbcTbl[1]) return 1;					/* 1st byte range 1 */
-		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;	/* 1st byte range 2 */
-	}
-#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
-	if (c >= DbcTbl[0]) {
-		if (c <= DbcTbl[1]) return 1;
-		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;
-	}
-#else						/* SBCS fixed code page */
-	if (c != 0) return 0;	/* Always false */
-#endif
-	return 0;
-}
-
-
-/* Test if the byte is DBC 2nd byte */
-static int dbc_2nd (BYTE c)
-{
-#if FF_CODE_PAGE == 0		/* Variable code page */
-	if (DbcTbl && c >= DbcTbl[4]) {
-		if (c <= DbcTbl[5]) return 1;					/* 2nd byte range 1 */
-		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;	/* 2nd byte range 2 */
-		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;	/* 2nd byte range 3 */
-	}
-#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
-	if (c >= DbcTbl[4]) {
-		if (c <= DbcTbl[5]) return 1;
-		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;
-		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;
-	}
-#else						/* SBCS fixed code page */
-	if (c != 0) return 0;	/* Always false */
-#endif
-	return 0;
-}
-
-
-#if FF_USE_LFN
-
-/* Get a Unicode code point from the TCHAR string in defined API encodeing */
-static DWORD tchar2uni (	/* Returns a character in UTF-16 encoding (>=0x10000 on surrogate pair, 0xFFFFFFFF on decode error) */
-	const TCHAR** str		/* Pointer to pointer to TCHAR string in configured encoding */
-)
-{
-	DWORD uc;
-	const TCHAR *p = *str;
-
-#if FF_LFN_UNICODE == 1		/* UTF-16 input */
-	WCHAR wc;
-
-	uc = *p++;	/* Get a unit */
-	if (IsSurrogate(uc)) {	/* Surrogate? */
-		wc = *p++;		/* Get low surrogate */
-		if (!IsSurrogateH(uc) || !IsSurrogateL(wc)) return 0xFFFFFFFF;	/* Wrong surrogate? */
-		uc = uc << 16 | wc;
-	}
-
-#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
-	BYTE b;
-	int nf;
-
-	uc = (BYTE)*p++;	/* Get an encoding unit */
-	if (uc & 0x80) {	/* Multiple byte code? */
-		if        ((uc & 0xE0) == 0xC0) {	/* 2-byte sequence? */
-			uc &= 0x1F; nf = 1;
-		} else if ((uc & 0xF0) == 0xE0) {	/* 3-byte sequence? */
-			uc &= 0x0F; nf = 2;
-		} else if ((uc & 0xF8) == 0xF0) {	/* 4-byte sequence? */
-			uc &= 0x07; nf = 3;
-		} else {							/* Wrong sequence */
-			return 0xFFFFFFFF;
-		}
-		do {	/* Get trailing bytes */
-			b = (BYTE)*p++;
-			if ((b & 0xC0) != 0x80) return 0xFFFFFFFF;	/* Wrong sequence? */
-			uc = uc << 6 | (b & 0x3F);
-		} while (--nf != 0);
-		if (uc < 0x80 || IsSurrogate(uc) || uc >= 0x110000) return 0xFFFFFFFF;	/* Wrong code? */
-		if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
-	}
-
-#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
-	uc = (TCHAR)*p++;	/* Get a unit */
-	if (uc >= 0x110000 || IsSurrogate(uc)) return 0xFFFFFFFF;	/* Wrong code? */
-	if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
-
-#else		/* ANSI/OEM input */
-	BYTE b;
-	WCHAR wc;
-
-	wc = (BYTE)*p++;			/* Get a byte */
-	if (dbc_1st((BYTE)wc)) {	/* Is it a DBC 1st byte? */
-		b = (BYTE)*p++;			/* Get 2nd byte */
-		if (!dbc_2nd(b)) return 0xFFFFFFFF;	/* Invalid code? */
-		wc = (wc << 8) + b;		/* Make a DBC */
-	}
-	if (wc != 0) {
-		wc = ff_oem2uni(wc, CODEPAGE);	/* ANSI/OEM ==> Unicode */
-		if (wc == 0) return 0xFFFFFFFF;	/* Invalid code? */
-	}
-	uc = wc;
-
-#endif
-	*str = p;	/* Next read pointer */
-	return uc;
-}
-
-
-/* Store a Unicode char in defined API encoding */
-static UINT put_utf (	/* Returns number of encoding units written (0:buffer overflow or wrong encoding) */
-	DWORD chr,	/* UTF-16 encoded character (Surrogate pair if >=0x10000) */
-	TCHAR* buf,	/* Output buffer */
-	UINT szb	/* Size of the buffer */
-)
-{
-#if FF_LFN_UNICODE == 1	/* UTF-16 output */
-	WCHAR hs, wc;
-
-	hs = (WCHAR)(chr >> 16);
-	wc = (WCHAR)chr;
-	if (hs == 0) {	/* Single encoding unit? */
-		if (szb < 1 || IsSurrogate(wc)) return 0;	/* Buffer overflow or wrong code? */
-		*buf = wc;
-		return 1;
-	}
-	if (szb < 2 || !IsSurrogateH(hs) || !IsSurrogateL(wc)) return 0;	/* Buffer overflow or wrong surrogate? */
-	*buf++ = hs;
-	*buf++ = wc;
-	return 2;
-
-#elif FF_LFN_UNICODE == 2	/* UTF-8 output */
-	DWORD hc;
-
-	if (chr < 0x80) {	/* Single byte code? */
-		if (szb < 1) return 0;	/* Buffer overflow? */
-		*buf = (TCHAR)chr;
-		return 1;
-	}
-	if (chr < 0x800) {	/* 2-byte sequence? */
-		if (szb < 2) return 0;	/* Buffer overflow? */
-		*buf++ = (TCHAR)(0xC0 | (chr >> 6 & 0x1F));
-		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
-		return 2;
-	}
-	if (chr < 0x10000) {	/* 3-byte sequence? */
-		if (szb < 3 || IsSurrogate(chr)) return 0;	/* Buffer overflow or wrong code? */
-		*buf++ = (TCHAR)(0xE0 | (chr >> 12 & 0x0F));
-		*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
-		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
-		return 3;
-	}
-	/* 4-byte sequence */
-	if (szb < 4) return 0;	/* Buffer overflow? */
-	hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
-	chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
-	if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
-	chr = (hc | chr) + 0x10000;
-	*buf++ = (TCHAR)(0xF0 | (chr >> 18 & 0x07));
-	*buf++ = (TCHAR)(0x80 | (chr >> 12 & 0x3F));
-	*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
-	*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
-	return 4;
-
-#elif FF_LFN_UNICODE == 3	/* UTF-32 output */
-	DWORD hc;
-
-	if (szb < 1) return 0;	/* Buffer overflow? */
-	if (chr >= 0x10000) {	/* Out of BMP? */
-		hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
-		chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
-		if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
-		chr = (hc | chr) + 0x10000;
-	}
-	*buf++ = (TCHAR)chr;
-	return 1;
-
-#else						/* ANSI/OEM output */
-	WCHAR wc;
-
-	wc = ff_uni2oem(chr, CODEPAGE);
-	if (wc >= 0x100) {	/* Is this a DBC? */
-		if (szb < 2) return 0;
-		*buf++ = (char)(wc >> 8);	/* Store DBC 1st byte */
-		*buf++ = (TCHAR)wc;			/* Store DBC 2nd byte */
-		return 2;
-	}
-	if (wc == 0 || szb < 1) return 0;	/* Invalid char or buffer overflow? */
-	*buf++ = (TCHAR)wc;					/* Store the character */
-	return 1;
-#endif
-}
-#endif	/* FF_USE_LFN */
-
-
-#if FF_FS_REENTRANT
-/*-----------------------------------------------------------------------*/
-/* Request/Release grant to access the volume                            */
-/*-----------------------------------------------------------------------*/
-static int lock_fs (		/* 1:Ok, 0:timeout */
-	FATFS* fs		/* Filesystem object */
-)
-{
-	return ff_req_grant(fs->sobj);
-}
-
-
-static void unlock_fs (
-	FATFS* fs,		/* Filesystem object */
-	FRESULT res		/* Result code to be returned */
-)
-{
-	if (fs && res != FR_NOT_ENABLED && res != FR_INVALID_DRIVE && res != FR_TIMEOUT) {
-		ff_rel_grant(fs->sobj);
-	}
-}
-
-#endif
-
-
-
-#if FF_FS_LOCK != 0
-/*-----------------------------------------------------------------------*/
-/* File lock control functions                                           */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT chk_lock (	/* Check if the file can be accessed */
-	DIR* dp,		/* Directory object pointing the file to be checked */
-	int acc			/* Desired access type (0:Read mode open, 1:Write mode open, 2:Delete or rename) */
-)
-{
-	UINT i, be;
-
-	/* Search open object table for the object */
-	be = 0;
-	for (i = 0; i < FF_FS_LOCK; i++) {
-		if (Files[i].fs) {	/* Existing entry */
-			if (Files[i].fs == dp->obj.fs &&	 	/* Check if the object matches with an open object */
-				Files[i].clu == dp->obj.sclust &&
-				Files[i].ofs == dp->dptr) break;
-		} else {			/* Blank entry */
-			be = 1;
-		}
-	}
-	if (i == FF_FS_LOCK) {	/* The object has not been opened */
-		return (!be && acc != 2) ? FR_TOO_MANY_OPEN_FILES : FR_OK;	/* Is there a blank entry for new object? */
-	}
-
-	/* The object was opened. Reject any open against writing file and all write mode open */
-	return (acc != 0 || Files[i].ctr == 0x100) ? FR_LOCKED : FR_OK;
-}
-
-
-static int enq_lock (void)	/* Check if an entry is available for a new object */
-{
-	UINT i;
-
-	for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
-	return (i == FF_FS_LOCK) ? 0 : 1;
-}
-
-
-static UINT inc_lock (	/* Increment object open counter and returns its index (0:Internal error) */
-	DIR* dp,	/* Directory object pointing the file to register or increment */
-	int acc		/* Desired access (0:Read, 1:Write, 2:Delete/Rename) */
-)
-{
-	UINT i;
-
-
-	for (i = 0; i < FF_FS_LOCK; i++) {	/* Find the object */
-		if (Files[i].fs == dp->obj.fs
-		 && Files[i].clu == dp->obj.sclust
-		 && Files[i].ofs == dp->dptr) break;
-	}
-
-	if (i == FF_FS_LOCK) {			/* Not opened. Register it as new. */
-		for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
-		if (i == FF_FS_LOCK) return 0;	/* No free entry to register (int err) */
-		Files[i].fs = dp->obj.fs;
-		Files[i].clu = dp->obj.sclust;
-		Files[i].ofs = dp->dptr;
-		Files[i].ctr = 0;
-	}
-
-	if (acc >= 1 && Files[i].ctr) return 0;	/* Access violation (int err) */
-
-	Files[i].ctr = acc ? 0x100 : Files[i].ctr + 1;	/* Set semaphore value */
-
-	return i + 1;	/* Index number origin from 1 */
-}
-
-
-static FRESULT dec_lock (	/* Decrement object open counter */
-	UINT i			/* Semaphore index (1..) */
-)
-{
-	WORD n;
-	FRESULT res;
-
-
-	if (--i < FF_FS_LOCK) {	/* Index number origin from 0 */
-		n = Files[i].ctr;
-		if (n == 0x100) n = 0;	/* If write mode open, delete the entry */
-		if (n > 0) n--;			/* Decrement read mode open count */
-		Files[i].ctr = n;
-		if (n == 0) Files[i].fs = 0;	/* Delete the entry if open count gets zero */
-		res = FR_OK;
-	} else {
-		res = FR_INT_ERR;		/* Invalid index nunber */
-	}
-	return res;
-}
-
-
-static void clear_lock (	/* Clear lock entries of the volume */
-	FATFS *fs
-)
-{
-	UINT i;
-
-	for (i = 0; i < FF_FS_LOCK; i++) {
-		if (Files[i].fs == fs) Files[i].fs = 0;
-	}
-}
-
-#endif	/* FF_FS_LOCK != 0 */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Move/Flush disk access window in the filesystem object                */
-/*-----------------------------------------------------------------------*/
-#if !FF_FS_READONLY
-static FRESULT sync_window (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS* fs			/* Filesystem object */
-)
-{
-	FRESULT res = FR_OK;
-
-
-	if (fs->wflag) {	/* Is the disk access window dirty? */
-		if (disk_write(fs->pdrv, fs->win, fs->winsect, 1) == RES_OK) {	/* Write it back into the volume */
-			fs->wflag = 0;	/* Clear window dirty flag */
-			if (fs->winsect - fs->fatbase < fs->fsize) {	/* Is it in the 1st FAT? */
-				if (fs->n_fats == 2) disk_write(fs->pdrv, fs->win, fs->winsect + fs->fsize, 1);	/* Reflect it to 2nd FAT if needed */
-			}
-		} else {
-			res = FR_DISK_ERR;
-		}
-	}
-	return res;
-}
-#endif
-
-
-static FRESULT move_window (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS* fs,		/* Filesystem object */
-	LBA_t sect		/* Sector LBA to make appearance in the fs->win[] */
-)
-{
-	FRESULT res = FR_OK;
-
-
-	if (sect != fs->winsect) {	/* Window offset changed? */
-#if !FF_FS_READONLY
-		res = sync_window(fs);		/* Flush the window */
-#endif
-		if (res == FR_OK) {			/* Fill sector window with new data */
-			if (disk_read(fs->pdrv, fs->win, sect, 1) != RES_OK) {
-				sect = (LBA_t)0 - 1;	/* Invalidate window if read data is not valid */
-				res = FR_DISK_ERR;
-			}
-			fs->winsect = sect;
-		}
-	}
-	return res;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Synchronize filesystem and data on the storage                        */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT sync_fs (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS* fs		/* Filesystem object */
-)
-{
-	FRESULT res;
-
-
-	res = sync_window(fs);
-	if (res == FR_OK) {
-		if (fs->fs_type == FS_FAT32 && fs->fsi_flag == 1) {	/* FAT32: Update FSInfo sector if needed */
-			/* Create FSInfo structure */
-			memset(fs->win, 0, sizeof fs->win);
-			st_word(fs->win + BS_55AA, 0xAA55);					/* Boot signature */
-			st_dword(fs->win + FSI_LeadSig, 0x41615252);		/* Leading signature */
-			st_dword(fs->win + FSI_StrucSig, 0x61417272);		/* Structure signature */
-			st_dword(fs->win + FSI_Free_Count, fs->free_clst);	/* Number of free clusters */
-			st_dword(fs->win + FSI_Nxt_Free, fs->last_clst);	/* Last allocated culuster */
-			fs->winsect = fs->volbase + 1;						/* Write it into the FSInfo sector (Next to VBR) */
-			disk_write(fs->pdrv, fs->win, fs->winsect, 1);
-			fs->fsi_flag = 0;
-		}
-		/* Make sure that no pending write process in the lower layer */
-		if (disk_ioctl(fs->pdrv, CTRL_SYNC, 0) != RES_OK) res = FR_DISK_ERR;
-	}
-
-	return res;
-}
-
-#endif
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Get physical sector number from cluster number                        */
-/*-----------------------------------------------------------------------*/
-
-static LBA_t clst2sect (	/* !=0:Sector number, 0:Failed (invalid cluster#) */
-	FATFS* fs,		/* Filesystem object */
-	DWORD clst		/* Cluster# to be converted */
-)
-{
-	clst -= 2;		/* Cluster number is origin from 2 */
-	if (clst >= fs->n_fatent - 2) return 0;		/* Is it invalid cluster number? */
-	return fs->database + (LBA_t)fs->csize * clst;	/* Start sector number of the cluster */
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* FAT access - Read value of an FAT entry                               */
-/*-----------------------------------------------------------------------*/
-
-static DWORD get_fat (		/* 0xFFFFFFFF:Disk error, 1:Internal error, 2..0x7FFFFFFF:Cluster status */
-	FFOBJID* obj,	/* Corresponding object */
-	DWORD clst		/* Cluster number to get the value */
-)
-{
-	UINT wc, bc;
-	DWORD val;
-	FATFS *fs = obj->fs;
-
-
-	if (clst < 2 || clst >= fs->n_fatent) {	/* Check if in valid range */
-		val = 1;	/* Internal error */
-
-	} else {
-		val = 0xFFFFFFFF;	/* Default value falls on disk error */
-
-		switch (fs->fs_type) {
-		case FS_FAT12 :
-			bc = (UINT)clst; bc += bc / 2;
-			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
-			wc = fs->win[bc++ % SS(fs)];		/* Get 1st byte of the entry */
-			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
-			wc |= fs->win[bc % SS(fs)] << 8;	/* Merge 2nd byte of the entry */
-			val = (clst & 1) ? (wc >> 4) : (wc & 0xFFF);	/* Adjust bit position */
-			break;
-
-		case FS_FAT16 :
-			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 2))) != FR_OK) break;
-			val = ld_word(fs->win + clst * 2 % SS(fs));		/* Simple WORD array */
-			break;
-
-		case FS_FAT32 :
-			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
-			val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x0FFFFFFF;	/* Simple DWORD array but mask out upper 4 bits */
-			break;
-#if FF_FS_EXFAT
-		case FS_EXFAT :
-			if ((obj->objsize != 0 && obj->sclust != 0) || obj->stat == 0) {	/* Object except root dir must have valid data length */
-				DWORD cofs = clst - obj->sclust;	/* Offset from start cluster */
-				DWORD clen = (DWORD)((LBA_t)((obj->objsize - 1) / SS(fs)) / fs->csize);	/* Number of clusters - 1 */
-
-				if (obj->stat == 2 && cofs <= clen) {	/* Is it a contiguous chain? */
-					val = (cofs == clen) ? 0x7FFFFFFF : clst + 1;	/* No data on the FAT, generate the value */
-					break;
-				}
-				if (obj->stat == 3 && cofs < obj->n_cont) {	/* Is it in the 1st fragment? */
-					val = clst + 1; 	/* Generate the value */
-					break;
-				}
-				if (obj->stat != 2) {	/* Get value from FAT if FAT chain is valid */
-					if (obj->n_frag != 0) {	/* Is it on the growing edge? */
-						val = 0x7FFFFFFF;	/* Generate EOC */
-					} else {
-						if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
-						val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x7FFFFFFF;
-					}
-					break;
-				}
-			}
-			val = 1;	/* Internal error */
-			break;
-#endif
-		default:
-			val = 1;	/* Internal error */
-		}
-	}
-
-	return val;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* FAT access - Change value of an FAT entry                             */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT put_fat (	/* FR_OK(0):succeeded, !=0:error */
-	FATFS* fs,		/* Corresponding filesystem object */
-	DWORD clst,		/* FAT index number (cluster number) to be changed */
-	DWORD val		/* New value to be set to the entry */
-)
-{
-	UINT bc;
-	BYTE *p;
-	FRESULT res = FR_INT_ERR;
-
-
-	if (clst >= 2 && clst < fs->n_fatent) {	/* Check if in valid range */
-		switch (fs->fs_type) {
-		case FS_FAT12:
-			bc = (UINT)clst; bc += bc / 2;	/* bc: byte offset of the entry */
-			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
-			if (res != FR_OK) break;
-			p = fs->win + bc++ % SS(fs);
-			*p = (clst & 1) ? ((*p & 0x0F) | ((BYTE)val << 4)) : (BYTE)val;	/* Update 1st byte */
-			fs->wflag = 1;
-			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
-			if (res != FR_OK) break;
-			p = fs->win + bc % SS(fs);
-			*p = (clst & 1) ? (BYTE)(val >> 4) : ((*p & 0xF0) | ((BYTE)(val >> 8) & 0x0F));	/* Update 2nd byte */
-			fs->wflag = 1;
-			break;
-
-		case FS_FAT16:
-			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 2)));
-			if (res != FR_OK) break;
-			st_word(fs->win + clst * 2 % SS(fs), (WORD)val);	/* Simple WORD array */
-			fs->wflag = 1;
-			break;
-
-		case FS_FAT32:
-#if FF_FS_EXFAT
-		case FS_EXFAT:
-#endif
-			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 4)));
-			if (res != FR_OK) break;
-			if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
-				val = (val & 0x0FFFFFFF) | (ld_dword(fs->win + clst * 4 % SS(fs)) & 0xF0000000);
-			}
-			st_dword(fs->win + clst * 4 % SS(fs), val);
-			fs->wflag = 1;
-			break;
-		}
-	}
-	return res;
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-
-#if FF_FS_EXFAT && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* exFAT: Accessing FAT and Allocation Bitmap                            */
-/*-----------------------------------------------------------------------*/
-
-/*--------------------------------------*/
-/* Find a contiguous free cluster block */
-/*--------------------------------------*/
-
-static DWORD find_bitmap (	/* 0:Not found, 2..:Cluster block found, 0xFFFFFFFF:Disk error */
-	FATFS* fs,	/* Filesystem object */
-	DWORD clst,	/* Cluster number to scan from */
-	DWORD ncl	/* Number of contiguous clusters to find (1..) */
-)
-{
-	BYTE bm, bv;
-	UINT i;
-	DWORD val, scl, ctr;
-
-
-	clst -= 2;	/* The first bit in the bitmap corresponds to cluster #2 */
-	if (clst >= fs->n_fatent - 2) clst = 0;
-	scl = val = clst; ctr = 0;
-	for (;;) {
-		if (move_window(fs, fs->bitbase + val / 8 / SS(fs)) != FR_OK) return 0xFFFFFFFF;
-		i = val / 8 % SS(fs); bm = 1 << (val % 8);
-		do {
-			do {
-				bv = fs->win[i] & bm; bm <<= 1;		/* Get bit value */
-				if (++val >= fs->n_fatent - 2) {	/* Next cluster (with wrap-around) */
-					val = 0; bm = 0; i = SS(fs);
-				}
-				if (bv == 0) {	/* Is it a free cluster? */
-					if (++ctr == ncl) return scl + 2;	/* Check if run length is sufficient for required */
-				} else {
-					scl = val; ctr = 0;		/* Encountered a cluster in-use, restart to scan */
-				}
-				if (val == clst) return 0;	/* All cluster scanned? */
-			} while (bm != 0);
-			bm = 1;
-		} while (++i < SS(fs));
-	}
-}
-
-
-/*----------------------------------------*/
-/* Set/Clear a block of allocation bitmap */
-/*----------------------------------------*/
-
-static FRESULT change_bitmap (
-	FATFS* fs,	/* Filesystem object */
-	DWORD clst,	/* Cluster number to change from */
-	DWORD ncl,	/* Number of clusters to be changed */
-	int bv		/* bit value to be set (0 or 1) */
-)
-{
-	BYTE bm;
-	UINT i;
-	LBA_t sect;
-
-
-	clst -= 2;	/* The first bit corresponds to cluster #2 */
-	sect = fs->bitbase + clst / 8 / SS(fs);	/* Sector address */
-	i = clst / 8 % SS(fs);					/* Byte offset in the sector */
-	bm = 1 << (clst % 8);					/* Bit mask in the byte */
-	for (;;) {
-		if (move_window(fs, sect++) != FR_OK) return FR_DISK_ERR;
-		do {
-			do {
-				if (bv == (int)((fs->win[i] & bm) != 0)) return FR_INT_ERR;	/* Is the bit expected value? */
-				fs->win[i] ^= bm;	/* Flip the bit */
-				fs->wflag = 1;
-				if (--ncl == 0) return FR_OK;	/* All bits processed? */
-			} while (bm <<= 1);		/* Next bit */
-			bm = 1;
-		} while (++i < SS(fs));		/* Next byte */
-		i = 0;
-	}
-}
-
-
-/*---------------------------------------------*/
-/* Fill the first fragment of the FAT chain    */
-/*---------------------------------------------*/
-
-static FRESULT fill_first_frag (
-	FFOBJID* obj	/* Pointer to the corresponding object */
-)
-{
-	FRESULT res;
-	DWORD cl, n;
-
-
-	if (obj->stat == 3) {	/* Has the object been changed 'fragmented' in this session? */
-		for (cl = obj->sclust, n = obj->n_cont; n; cl++, n--) {	/* Create cluster chain on the FAT */
-			res = put_fat(obj->fs, cl, cl + 1);
-			if (res != FR_OK) return res;
-		}
-		obj->stat = 0;	/* Change status 'FAT chain is valid' */
-	}
-	return FR_OK;
-}
-
-
-/*---------------------------------------------*/
-/* Fill the last fragment of the FAT chain     */
-/*---------------------------------------------*/
-
-static FRESULT fill_last_frag (
-	FFOBJID* obj,	/* Pointer to the corresponding object */
-	DWORD lcl,		/* Last cluster of the fragment */
-	DWORD term		/* Value to set the last FAT entry */
-)
-{
-	FRESULT res;
-
-
-	while (obj->n_frag > 0) {	/* Create the chain of last fragment */
-		res = put_fat(obj->fs, lcl - obj->n_frag + 1, (obj->n_frag > 1) ? lcl - obj->n_frag + 2 : term);
-		if (res != FR_OK) return res;
-		obj->n_frag--;
-	}
-	return FR_OK;
-}
-
-#endif	/* FF_FS_EXFAT && !FF_FS_READONLY */
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* FAT handling - Remove a cluster chain                                 */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT remove_chain (	/* FR_OK(0):succeeded, !=0:error */
-	FFOBJID* obj,		/* Corresponding object */
-	DWORD clst,			/* Cluster to remove a chain from */
-	DWORD pclst			/* Previous cluster of clst (0 if entire chain) */
-)
-{
-	FRESULT res = FR_OK;
-	DWORD nxt;
-	FATFS *fs = obj->fs;
-#if FF_FS_EXFAT || FF_USE_TRIM
-	DWORD scl = clst, ecl = clst;
-#endif
-#if FF_USE_TRIM
-	LBA_t rt[2];
-#endif
-
-	if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Check if in valid range */
-
-	/* Mark the previous cluster 'EOC' on the FAT if it exists */
-	if (pclst != 0 && (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT || obj->stat != 2)) {
-		res = put_fat(fs, pclst, 0xFFFFFFFF);
-		if (res != FR_OK) return res;
-	}
-
-	/* Remove the chain */
-	do {
-		nxt = get_fat(obj, clst);			/* Get cluster status */
-		if (nxt == 0) break;				/* Empty cluster? */
-		if (nxt == 1) return FR_INT_ERR;	/* Internal error? */
-		if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error? */
-		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
-			res = put_fat(fs, clst, 0);		/* Mark the cluster 'free' on the FAT */
-			if (res != FR_OK) return res;
-		}
-		if (fs->free_clst < fs->n_fatent - 2) {	/* Update FSINFO */
-			fs->free_clst++;
-			fs->fsi_flag |= 1;
-		}
-#if FF_FS_EXFAT || FF_USE_TRIM
-		if (ecl + 1 == nxt) {	/* Is next cluster contiguous? */
-			ecl = nxt;
-		} else {				/* End of contiguous cluster block */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				res = change_bitmap(fs, scl, ecl - scl + 1, 0);	/* Mark the cluster block 'free' on the bitmap */
-				if (res != FR_OK) return res;
-			}
-#endif
-#if FF_USE_TRIM
-			rt[0] = clst2sect(fs, scl);					/* Start of data area to be freed */
-			rt[1] = clst2sect(fs, ecl) + fs->csize - 1;	/* End of data area to be freed */
-			disk_ioctl(fs->pdrv, CTRL_TRIM, rt);		/* Inform storage device that the data in the block may be erased */
-#endif
-			scl = ecl = nxt;
-		}
-#endif
-		clst = nxt;					/* Next cluster */
-	} while (clst < fs->n_fatent);	/* Repeat while not the last link */
-
-#if FF_FS_EXFAT
-	/* Some post processes for chain status */
-	if (fs->fs_type == FS_EXFAT) {
-		if (pclst == 0) {	/* Has the entire chain been removed? */
-			obj->stat = 0;		/* Change the chain status 'initial' */
-		} else {
-			if (obj->stat == 0) {	/* Is it a fragmented chain from the beginning of this session? */
-				clst = obj->sclust;		/* Follow the chain to check if it gets contiguous */
-				while (clst != pclst) {
-					nxt = get_fat(obj, clst);
-					if (nxt < 2) return FR_INT_ERR;
-					if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;
-					if (nxt != clst + 1) break;	/* Not contiguous? */
-					clst++;
-				}
-				if (clst == pclst) {	/* Has the chain got contiguous again? */
-					obj->stat = 2;		/* Change the chain status 'contiguous' */
-				}
-			} else {
-				if (obj->stat == 3 && pclst >= obj->sclust && pclst <= obj->sclust + obj->n_cont) {	/* Was the chain fragmented in this session and got contiguous again? */
-					obj->stat = 2;	/* Change the chain status 'contiguous' */
-				}
-			}
-		}
-	}
-#endif
-	return FR_OK;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* FAT handling - Stretch a chain or Create a new chain                  */
-/*-----------------------------------------------------------------------*/
-
-static DWORD create_chain (	/* 0:No free cluster, 1:Internal error, 0xFFFFFFFF:Disk error, >=2:New cluster# */
-	FFOBJID* obj,		/* Corresponding object */
-	DWORD clst			/* Cluster# to stretch, 0:Create a new chain */
-)
-{
-	DWORD cs, ncl, scl;
-	FRESULT res;
-	FATFS *fs = obj->fs;
-
-
-	if (clst == 0) {	/* Create a new chain */
-		scl = fs->last_clst;				/* Suggested cluster to start to find */
-		if (scl == 0 || scl >= fs->n_fatent) scl = 1;
-	}
-	else {				/* Stretch a chain */
-		cs = get_fat(obj, clst);			/* Check the cluster status */
-		if (cs < 2) return 1;				/* Test for insanity */
-		if (cs == 0xFFFFFFFF) return cs;	/* Test for disk error */
-		if (cs < fs->n_fatent) return cs;	/* It is already followed by next cluster */
-		scl = clst;							/* Cluster to start to find */
-	}
-	if (fs->free_clst == 0) return 0;		/* No free cluster */
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		ncl = find_bitmap(fs, scl, 1);				/* Find a free cluster */
-		if (ncl == 0 || ncl == 0xFFFFFFFF) return ncl;	/* No free cluster or hard error? */
-		res = change_bitmap(fs, ncl, 1, 1);			/* Mark the cluster 'in use' */
-		if (res == FR_INT_ERR) return 1;
-		if (res == FR_DISK_ERR) return 0xFFFFFFFF;
-		if (clst == 0) {							/* Is it a new chain? */
-			obj->stat = 2;							/* Set status 'contiguous' */
-		} else {									/* It is a stretched chain */
-			if (obj->stat == 2 && ncl != scl + 1) {	/* Is the chain got fragmented? */
-				obj->n_cont = scl - obj->sclust;	/* Set size of the contiguous part */
-				obj->stat = 3;						/* Change status 'just fragmented' */
-			}
-		}
-		if (obj->stat != 2) {	/* Is the file non-contiguous? */
-			if (ncl == clst + 1) {	/* Is the cluster next to previous one? */
-				obj->n_frag = obj->n_frag ? obj->n_frag + 1 : 2;	/* Increment size of last framgent */
-			} else {				/* New fragment */
-				if (obj->n_frag == 0) obj->n_frag = 1;
-				res = fill_last_frag(obj, clst, ncl);	/* Fill last fragment on the FAT and link it to new one */
-				if (res == FR_OK) obj->n_frag = 1;
-			}
-		}
-	} else
-#endif
-	{	/* On the FAT/FAT32 volume */
-		ncl = 0;
-		if (scl == clst) {						/* Stretching an existing chain? */
-			ncl = scl + 1;						/* Test if next cluster is free */
-			if (ncl >= fs->n_fatent) ncl = 2;
-			cs = get_fat(obj, ncl);				/* Get next cluster status */
-			if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
-			if (cs != 0) {						/* Not free? */
-				cs = fs->last_clst;				/* Start at suggested cluster if it is valid */
-				if (cs >= 2 && cs < fs->n_fatent) scl = cs;
-				ncl = 0;
-			}
-		}
-		if (ncl == 0) {	/* The new cluster cannot be contiguous and find another fragment */
-			ncl = scl;	/* Start cluster */
-			for (;;) {
-				ncl++;							/* Next cluster */
-				if (ncl >= fs->n_fatent) {		/* Check wrap-around */
-					ncl = 2;
-					if (ncl > scl) return 0;	/* No free cluster found? */
-				}
-				cs = get_fat(obj, ncl);			/* Get the cluster status */
-				if (cs == 0) break;				/* Found a free cluster? */
-				if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
-				if (ncl == scl) return 0;		/* No free cluster found? */
-			}
-		}
-		res = put_fat(fs, ncl, 0xFFFFFFFF);		/* Mark the new cluster 'EOC' */
-		if (res == FR_OK && clst != 0) {
-			res = put_fat(fs, clst, ncl);		/* Link it from the previous one if needed */
-		}
-	}
-
-	if (res == FR_OK) {			/* Update FSINFO if function succeeded. */
-		fs->last_clst = ncl;
-		if (fs->free_clst <= fs->n_fatent - 2) fs->free_clst--;
-		fs->fsi_flag |= 1;
-	} else {
-		ncl = (res == FR_DISK_ERR) ? 0xFFFFFFFF : 1;	/* Failed. Generate error status */
-	}
-
-	return ncl;		/* Return new cluster number or error status */
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-
-#if FF_USE_FASTSEEK
-/*-----------------------------------------------------------------------*/
-/* FAT handling - Convert offset into cluster with link map table        */
-/*-----------------------------------------------------------------------*/
-
-static DWORD clmt_clust (	/* <2:Error, >=2:Cluster number */
-	FIL* fp,		/* Pointer to the file object */
-	FSIZE_t ofs		/* File offset to be converted to cluster# */
-)
-{
-	DWORD cl, ncl, *tbl;
-	FATFS *fs = fp->obj.fs;
-
-
-	tbl = fp->cltbl + 1;	/* Top of CLMT */
-	cl = (DWORD)(ofs / SS(fs) / fs->csize);	/* Cluster order from top of the file */
-	for (;;) {
-		ncl = *tbl++;			/* Number of cluters in the fragment */
-		if (ncl == 0) return 0;	/* End of table? (error) */
-		if (cl < ncl) break;	/* In this fragment? */
-		cl -= ncl; tbl++;		/* Next fragment */
-	}
-	return cl + *tbl;	/* Return the cluster number */
-}
-
-#endif	/* FF_USE_FASTSEEK */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Fill a cluster with zeros                        */
-/*-----------------------------------------------------------------------*/
-
-#if !FF_FS_READONLY
-static FRESULT dir_clear (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS *fs,		/* Filesystem object */
-	DWORD clst		/* Directory table to clear */
-)
-{
-	LBA_t sect;
-	UINT n, szb;
-	BYTE *ibuf;
-
-
-	if (sync_window(fs) != FR_OK) return FR_DISK_ERR;	/* Flush disk access window */
-	sect = clst2sect(fs, clst);		/* Top of the cluster */
-	fs->winsect = sect;				/* Set window to top of the cluster */
-	memset(fs->win, 0, sizeof fs->win);	/* Clear window buffer */
-#if FF_USE_LFN == 3		/* Quick table clear by using multi-secter write */
-	/* Allocate a temporary buffer */
-	for (szb = ((DWORD)fs->csize * SS(fs) >= MAX_MALLOC) ? MAX_MALLOC : fs->csize * SS(fs), ibuf = 0; szb > SS(fs) && (ibuf = ff_memalloc(szb)) == 0; szb /= 2) ;
-	if (szb > SS(fs)) {		/* Buffer allocated? */
-		memset(ibuf, 0, szb);
-		szb /= SS(fs);		/* Bytes -> Sectors */
-		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
-		ff_memfree(ibuf);
-	} else
-#endif
-	{
-		ibuf = fs->win; szb = 1;	/* Use window buffer (many single-sector writes may take a time) */
-		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
-	}
-	return (n == fs->csize) ? FR_OK : FR_DISK_ERR;
-}
-#endif	/* !FF_FS_READONLY */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Set directory index                              */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_sdi (	/* FR_OK(0):succeeded, !=0:error */
-	DIR* dp,		/* Pointer to directory object */
-	DWORD ofs		/* Offset of directory table */
-)
-{
-	DWORD csz, clst;
-	FATFS *fs = dp->obj.fs;
-
-
-	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR) || ofs % SZDIRE) {	/* Check range of offset and alignment */
-		return FR_INT_ERR;
-	}
-	dp->dptr = ofs;				/* Set current offset */
-	clst = dp->obj.sclust;		/* Table start cluster (0:root) */
-	if (clst == 0 && fs->fs_type >= FS_FAT32) {	/* Replace cluster# 0 with root cluster# */
-		clst = (DWORD)fs->dirbase;
-		if (FF_FS_EXFAT) dp->obj.stat = 0;	/* exFAT: Root dir has an FAT chain */
-	}
-
-	if (clst == 0) {	/* Static table (root-directory on the FAT volume) */
-		if (ofs / SZDIRE >= fs->n_rootdir) return FR_INT_ERR;	/* Is index out of range? */
-		dp->sect = fs->dirbase;
-
-	} else {			/* Dynamic table (sub-directory or root-directory on the FAT32/exFAT volume) */
-		csz = (DWORD)fs->csize * SS(fs);	/* Bytes per cluster */
-		while (ofs >= csz) {				/* Follow cluster chain */
-			clst = get_fat(&dp->obj, clst);				/* Get next cluster */
-			if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
-			if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Reached to end of table or internal error */
-			ofs -= csz;
-		}
-		dp->sect = clst2sect(fs, clst);
-	}
-	dp->clust = clst;					/* Current cluster# */
-	if (dp->sect == 0) return FR_INT_ERR;
-	dp->sect += ofs / SS(fs);			/* Sector# of the directory entry */
-	dp->dir = fs->win + (ofs % SS(fs));	/* Pointer to the entry in the win[] */
-
-	return FR_OK;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Move directory table index next                  */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_next (	/* FR_OK(0):succeeded, FR_NO_FILE:End of table, FR_DENIED:Could not stretch */
-	DIR* dp,				/* Pointer to the directory object */
-	int stretch				/* 0: Do not stretch table, 1: Stretch table if needed */
-)
-{
-	DWORD ofs, clst;
-	FATFS *fs = dp->obj.fs;
-
-
-	ofs = dp->dptr + SZDIRE;	/* Next entry */
-	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR)) dp->sect = 0;	/* Disable it if the offset reached the max value */
-	if (dp->sect == 0) return FR_NO_FILE;	/* Report EOT if it has been disabled */
-
-	if (ofs % SS(fs) == 0) {	/* Sector changed? */
-		dp->sect++;				/* Next sector */
-
-		if (dp->clust == 0) {	/* Static table */
-			if (ofs / SZDIRE >= fs->n_rootdir) {	/* Report EOT if it reached end of static table */
-				dp->sect = 0; return FR_NO_FILE;
-			}
-		}
-		else {					/* Dynamic table */
-			if ((ofs / SS(fs) & (fs->csize - 1)) == 0) {	/* Cluster changed? */
-				clst = get_fat(&dp->obj, dp->clust);		/* Get next cluster */
-				if (clst <= 1) return FR_INT_ERR;			/* Internal error */
-				if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
-				if (clst >= fs->n_fatent) {					/* It reached end of dynamic table */
-#if !FF_FS_READONLY
-					if (!stretch) {								/* If no stretch, report EOT */
-						dp->sect = 0; return FR_NO_FILE;
-					}
-					clst = create_chain(&dp->obj, dp->clust);	/* Allocate a cluster */
-					if (clst == 0) return FR_DENIED;			/* No free cluster */
-					if (clst == 1) return FR_INT_ERR;			/* Internal error */
-					if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
-					if (dir_clear(fs, clst) != FR_OK) return FR_DISK_ERR;	/* Clean up the stretched table */
-					if (FF_FS_EXFAT) dp->obj.stat |= 4;			/* exFAT: The directory has been stretched */
-#else
-					if (!stretch) dp->sect = 0;					/* (this line is to suppress compiler warning) */
-					dp->sect = 0; return FR_NO_FILE;			/* Report EOT */
-#endif
-				}
-				dp->clust = clst;		/* Initialize data for new cluster */
-				dp->sect = clst2sect(fs, clst);
-			}
-		}
-	}
-	dp->dptr = ofs;						/* Current entry */
-	dp->dir = fs->win + ofs % SS(fs);	/* Pointer to the entry in the win[] */
-
-	return FR_OK;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Reserve a block of directory entries             */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_alloc (	/* FR_OK(0):succeeded, !=0:error */
-	DIR* dp,				/* Pointer to the directory object */
-	UINT n_ent				/* Number of contiguous entries to allocate */
-)
-{
-	FRESULT res;
-	UINT n;
-	FATFS *fs = dp->obj.fs;
-
-
-	res = dir_sdi(dp, 0);
-	if (res == FR_OK) {
-		n = 0;
-		do {
-			res = move_window(fs, dp->sect);
-			if (res != FR_OK) break;
-#if FF_FS_EXFAT
-			if ((fs->fs_type == FS_EXFAT) ? (int)((dp->dir[XDIR_Type] & 0x80) == 0) : (int)(dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0)) {	/* Is the entry free? */
-#else
-			if (dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0) {	/* Is the entry free? */
-#endif
-				if (++n == n_ent) break;	/* Is a block of contiguous free entries found? */
-			} else {
-				n = 0;				/* Not a free entry, restart to search */
-			}
-			res = dir_next(dp, 1);	/* Next entry with table stretch enabled */
-		} while (res == FR_OK);
-	}
-
-	if (res == FR_NO_FILE) res = FR_DENIED;	/* No directory entry to allocate */
-	return res;
-}
-
-#endif	/* !FF_FS_READONLY */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* FAT: Directory handling - Load/Store start cluster number             */
-/*-----------------------------------------------------------------------*/
-
-static DWORD ld_clust (	/* Returns the top cluster value of the SFN entry */
-	FATFS* fs,			/* Pointer to the fs object */
-	const BYTE* dir		/* Pointer to the key entry */
-)
-{
-	DWORD cl;
-
-	cl = ld_word(dir + DIR_FstClusLO);
-	if (fs->fs_type == FS_FAT32) {
-		cl |= (DWORD)ld_word(dir + DIR_FstClusHI) << 16;
-	}
-
-	return cl;
-}
-
-
-#if !FF_FS_READONLY
-static void st_clust (
-	FATFS* fs,	/* Pointer to the fs object */
-	BYTE* dir,	/* Pointer to the key entry */
-	DWORD cl	/* Value to be set */
-)
-{
-	st_word(dir + DIR_FstClusLO, (WORD)cl);
-	if (fs->fs_type == FS_FAT32) {
-		st_word(dir + DIR_FstClusHI, (WORD)(cl >> 16));
-	}
-}
-#endif
-
-
-
-#if FF_USE_LFN
-/*--------------------------------------------------------*/
-/* FAT-LFN: Compare a part of file name with an LFN entry */
-/*--------------------------------------------------------*/
-
-static int cmp_lfn (		/* 1:matched, 0:not matched */
-	const WCHAR* lfnbuf,	/* Pointer to the LFN working buffer to be compared */
-	BYTE* dir				/* Pointer to the directory entry containing the part of LFN */
-)
-{
-	UINT i, s;
-	WCHAR wc, uc;
-
-
-	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO */
-
-	i = ((dir[LDIR_Ord] & 0x3F) - 1) * 13;	/* Offset in the LFN buffer */
-
-	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
-		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
-		if (wc != 0) {
-			if (i >= FF_MAX_LFN + 1 || ff_wtoupper(uc) != ff_wtoupper(lfnbuf[i++])) {	/* Compare it */
-				return 0;					/* Not matched */
-			}
-			wc = uc;
-		} else {
-			if (uc != 0xFFFF) return 0;		/* Check filler */
-		}
-	}
-
-	if ((dir[LDIR_Ord] & LLEF) && wc && lfnbuf[i]) return 0;	/* Last segment matched but different length */
-
-	return 1;		/* The part of LFN matched */
-}
-
-
-#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
-/*-----------------------------------------------------*/
-/* FAT-LFN: Pick a part of file name from an LFN entry */
-/*-----------------------------------------------------*/
-
-static int pick_lfn (	/* 1:succeeded, 0:buffer overflow or invalid LFN entry */
-	WCHAR* lfnbuf,		/* Pointer to the LFN working buffer */
-	BYTE* dir			/* Pointer to the LFN entry */
-)
-{
-	UINT i, s;
-	WCHAR wc, uc;
-
-
-	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO is 0 */
-
-	i = ((dir[LDIR_Ord] & ~LLEF) - 1) * 13;	/* Offset in the LFN buffer */
-
-	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
-		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
-		if (wc != 0) {
-			if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
-			lfnbuf[i++] = wc = uc;			/* Store it */
-		} else {
-			if (uc != 0xFFFF) return 0;		/* Check filler */
-		}
-	}
-
-	if (dir[LDIR_Ord] & LLEF && wc != 0) {	/* Put terminator if it is the last LFN part and not terminated */
-		if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
-		lfnbuf[i] = 0;
-	}
-
-	return 1;		/* The part of LFN is valid */
-}
-#endif
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------*/
-/* FAT-LFN: Create an entry of LFN entries */
-/*-----------------------------------------*/
-
-static void put_lfn (
-	const WCHAR* lfn,	/* Pointer to the LFN */
-	BYTE* dir,			/* Pointer to the LFN entry to be created */
-	BYTE ord,			/* LFN order (1-20) */
-	BYTE sum			/* Checksum of the corresponding SFN */
-)
-{
-	UINT i, s;
-	WCHAR wc;
-
-
-	dir[LDIR_Chksum] = sum;			/* Set checksum */
-	dir[LDIR_Attr] = AM_LFN;		/* Set attribute. LFN entry */
-	dir[LDIR_Type] = 0;
-	st_word(dir + LDIR_FstClusLO, 0);
-
-	i = (ord - 1) * 13;				/* Get offset in the LFN working buffer */
-	s = wc = 0;
-	do {
-		if (wc != 0xFFFF) wc = lfn[i++];	/* Get an effective character */
-		st_word(dir + LfnOfs[s], wc);		/* Put it */
-		if (wc == 0) wc = 0xFFFF;			/* Padding characters for following items */
-	} while (++s < 13);
-	if (wc == 0xFFFF || !lfn[i]) ord |= LLEF;	/* Last LFN part is the start of LFN sequence */
-	dir[LDIR_Ord] = ord;			/* Set the LFN order */
-}
-
-#endif	/* !FF_FS_READONLY */
-#endif	/* FF_USE_LFN */
-
-
-
-#if FF_USE_LFN && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* FAT-LFN: Create a Numbered SFN                                        */
-/*-----------------------------------------------------------------------*/
-
-static void gen_numname (
-	BYTE* dst,			/* Pointer to the buffer to store numbered SFN */
-	const BYTE* src,	/* Pointer to SFN in directory form */
-	const WCHAR* lfn,	/* Pointer to LFN */
-	UINT seq			/* Sequence number */
-)
-{
-	BYTE ns[8], c;
-	UINT i, j;
-	WCHAR wc;
-	DWORD sreg;
-
-
-	memcpy(dst, src, 11);	/* Prepare the SFN to be modified */
-
-	if (seq > 5) {	/* In case of many collisions, generate a hash number instead of sequential number */
-		sreg = seq;
-		while (*lfn) {	/* Create a CRC as hash value */
-			wc = *lfn++;
-			for (i = 0; i < 16; i++) {
-				sreg = (sreg << 1) + (wc & 1);
-				wc >>= 1;
-				if (sreg & 0x10000) sreg ^= 0x11021;
-			}
-		}
-		seq = (UINT)sreg;
-	}
-
-	/* Make suffix (~ + hexdecimal) */
-	i = 7;
-	do {
-		c = (BYTE)((seq % 16) + '0'); seq /= 16;
-		if (c > '9') c += 7;
-		ns[i--] = c;
-	} while (i && seq);
-	ns[i] = '~';
-
-	/* Append the suffix to the SFN body */
-	for (j = 0; j < i && dst[j] != ' '; j++) {	/* Find the offset to append */
-		if (dbc_1st(dst[j])) {	/* To avoid DBC break up */
-			if (j == i - 1) break;
-			j++;
-		}
-	}
-	do {	/* Append the suffix */
-		dst[j++] = (i < 8) ? ns[i++] : ' ';
-	} while (j < 8);
-}
-#endif	/* FF_USE_LFN && !FF_FS_READONLY */
-
-
-
-#if FF_USE_LFN
-/*-----------------------------------------------------------------------*/
-/* FAT-LFN: Calculate checksum of an SFN entry                           */
-/*-----------------------------------------------------------------------*/
-
-static BYTE sum_sfn (
-	const BYTE* dir		/* Pointer to the SFN entry */
-)
-{
-	BYTE sum = 0;
-	UINT n = 11;
-
-	do {
-		sum = (sum >> 1) + (sum << 7) + *dir++;
-	} while (--n);
-	return sum;
-}
-
-#endif	/* FF_USE_LFN */
-
-
-
-#if FF_FS_EXFAT
-/*-----------------------------------------------------------------------*/
-/* exFAT: Checksum                                                       */
-/*-----------------------------------------------------------------------*/
-
-static WORD xdir_sum (	/* Get checksum of the directoly entry block */
-	const BYTE* dir		/* Directory entry block to be calculated */
-)
-{
-	UINT i, szblk;
-	WORD sum;
-
-
-	szblk = (dir[XDIR_NumSec] + 1) * SZDIRE;	/* Number of bytes of the entry block */
-	for (i = sum = 0; i < szblk; i++) {
-		if (i == XDIR_SetSum) {	/* Skip 2-byte sum field */
-			i++;
-		} else {
-			sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + dir[i];
-		}
-	}
-	return sum;
-}
-
-
-
-static WORD xname_sum (	/* Get check sum (to be used as hash) of the file name */
-	const WCHAR* name	/* File name to be calculated */
-)
-{
-	WCHAR chr;
-	WORD sum = 0;
-
-
-	while ((chr = *name++) != 0) {
-		chr = (WCHAR)ff_wtoupper(chr);		/* File name needs to be up-case converted */
-		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr & 0xFF);
-		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr >> 8);
-	}
-	return sum;
-}
-
-
-#if !FF_FS_READONLY && FF_USE_MKFS
-static DWORD xsum32 (	/* Returns 32-bit checksum */
-	BYTE  dat,			/* Byte to be calculated (byte-by-byte processing) */
-	DWORD sum			/* Previous sum value */
-)
-{
-	sum = ((sum & 1) ? 0x80000000 : 0) + (sum >> 1) + dat;
-	return sum;
-}
-#endif
-
-
-
-/*-----------------------------------*/
-/* exFAT: Get a directry entry block */
-/*-----------------------------------*/
-
-static FRESULT load_xdir (	/* FR_INT_ERR: invalid entry block */
-	DIR* dp					/* Reading direcotry object pointing top of the entry block to load */
-)
-{
-	FRESULT res;
-	UINT i, sz_ent;
-	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the on-memory direcotry entry block 85+C0+C1s */
-
-
-	/* Load file directory entry */
-	res = move_window(dp->obj.fs, dp->sect);
-	if (res != FR_OK) return res;
-	if (dp->dir[XDIR_Type] != ET_FILEDIR) return FR_INT_ERR;	/* Invalid order */
-	memcpy(dirb + 0 * SZDIRE, dp->dir, SZDIRE);
-	sz_ent = (dirb[XDIR_NumSec] + 1) * SZDIRE;
-	if (sz_ent < 3 * SZDIRE || sz_ent > 19 * SZDIRE) return FR_INT_ERR;
-
-	/* Load stream extension entry */
-	res = dir_next(dp, 0);
-	if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
-	if (res != FR_OK) return res;
-	res = move_window(dp->obj.fs, dp->sect);
-	if (res != FR_OK) return res;
-	if (dp->dir[XDIR_Type] != ET_STREAM) return FR_INT_ERR;	/* Invalid order */
-	memcpy(dirb + 1 * SZDIRE, dp->dir, SZDIRE);
-	if (MAXDIRB(dirb[XDIR_NumName]) > sz_ent) return FR_INT_ERR;
-
-	/* Load file name entries */
-	i = 2 * SZDIRE;	/* Name offset to load */
-	do {
-		res = dir_next(dp, 0);
-		if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
-		if (res != FR_OK) return res;
-		res = move_window(dp->obj.fs, dp->sect);
-		if (res != FR_OK) return res;
-		if (dp->dir[XDIR_Type] != ET_FILENAME) return FR_INT_ERR;	/* Invalid order */
-		if (i < MAXDIRB(FF_MAX_LFN)) memcpy(dirb + i, dp->dir, SZDIRE);
-	} while ((i += SZDIRE) < sz_ent);
-
-	/* Sanity check (do it for only accessible object) */
-	if (i <= MAXDIRB(FF_MAX_LFN)) {
-		if (xdir_sum(dirb) != ld_word(dirb + XDIR_SetSum)) return FR_INT_ERR;
-	}
-	return FR_OK;
-}
-
-
-/*------------------------------------------------------------------*/
-/* exFAT: Initialize object allocation info with loaded entry block */
-/*------------------------------------------------------------------*/
-
-static void init_alloc_info (
-	FATFS* fs,		/* Filesystem object */
-	FFOBJID* obj	/* Object allocation information to be initialized */
-)
-{
-	obj->sclust = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Start cluster */
-	obj->objsize = ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
-	obj->stat = fs->dirbuf[XDIR_GenFlags] & 2;				/* Allocation status */
-	obj->n_frag = 0;										/* No last fragment info */
-}
-
-
-
-#if !FF_FS_READONLY || FF_FS_RPATH != 0
-/*------------------------------------------------*/
-/* exFAT: Load the object's directory entry block */
-/*------------------------------------------------*/
-
-static FRESULT load_obj_xdir (
-	DIR* dp,			/* Blank directory object to be used to access containing direcotry */
-	const FFOBJID* obj	/* Object with its containing directory information */
-)
-{
-	FRESULT res;
-
-	/* Open object containing directory */
-	dp->obj.fs = obj->fs;
-	dp->obj.sclust = obj->c_scl;
-	dp->obj.stat = (BYTE)obj->c_size;
-	dp->obj.objsize = obj->c_size & 0xFFFFFF00;
-	dp->obj.n_frag = 0;
-	dp->blk_ofs = obj->c_ofs;
-
-	res = dir_sdi(dp, dp->blk_ofs);	/* Goto object's entry block */
-	if (res == FR_OK) {
-		res = load_xdir(dp);		/* Load the object's entry block */
-	}
-	return res;
-}
-#endif
-
-
-#if !FF_FS_READONLY
-/*----------------------------------------*/
-/* exFAT: Store the directory entry block */
-/*----------------------------------------*/
-
-static FRESULT store_xdir (
-	DIR* dp				/* Pointer to the direcotry object */
-)
-{
-	FRESULT res;
-	UINT nent;
-	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the direcotry entry block 85+C0+C1s */
-
-	/* Create set sum */
-	st_word(dirb + XDIR_SetSum, xdir_sum(dirb));
-	nent = dirb[XDIR_NumSec] + 1;
-
-	/* Store the direcotry entry block to the directory */
-	res = dir_sdi(dp, dp->blk_ofs);
-	while (res == FR_OK) {
-		res = move_window(dp->obj.fs, dp->sect);
-		if (res != FR_OK) break;
-		memcpy(dp->dir, dirb, SZDIRE);
-		dp->obj.fs->wflag = 1;
-		if (--nent == 0) break;
-		dirb += SZDIRE;
-		res = dir_next(dp, 0);
-	}
-	return (res == FR_OK || res == FR_DISK_ERR) ? res : FR_INT_ERR;
-}
-
-
-
-/*-------------------------------------------*/
-/* exFAT: Create a new directory enrty block */
-/*-------------------------------------------*/
-
-static void create_xdir (
-	BYTE* dirb,			/* Pointer to the direcotry entry block buffer */
-	const WCHAR* lfn	/* Pointer to the object name */
-)
-{
-	UINT i;
-	BYTE nc1, nlen;
-	WCHAR wc;
-
-
-	/* Create file-directory and stream-extension entry */
-	memset(dirb, 0, 2 * SZDIRE);
-	dirb[0 * SZDIRE + XDIR_Type] = ET_FILEDIR;
-	dirb[1 * SZDIRE + XDIR_Type] = ET_STREAM;
-
-	/* Create file-name entries */
-	i = SZDIRE * 2;	/* Top of file_name entries */
-	nlen = nc1 = 0; wc = 1;
-	do {
-		dirb[i++] = ET_FILENAME; dirb[i++] = 0;
-		do {	/* Fill name field */
-			if (wc != 0 && (wc = lfn[nlen]) != 0) nlen++;	/* Get a character if exist */
-			st_word(dirb + i, wc); 	/* Store it */
-			i += 2;
-		} while (i % SZDIRE != 0);
-		nc1++;
-	} while (lfn[nlen]);	/* Fill next entry if any char follows */
-
-	dirb[XDIR_NumName] = nlen;		/* Set name length */
-	dirb[XDIR_NumSec] = 1 + nc1;	/* Set secondary count (C0 + C1s) */
-	st_word(dirb + XDIR_NameHash, xname_sum(lfn));	/* Set name hash */
-}
-
-#endif	/* !FF_FS_READONLY */
-#endif	/* FF_FS_EXFAT */
-
-
-
-#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
-/*-----------------------------------------------------------------------*/
-/* Read an object from the directory                                     */
-/*-----------------------------------------------------------------------*/
-
-#define DIR_READ_FILE(dp) dir_read(dp, 0)
-#define DIR_READ_LABEL(dp) dir_read(dp, 1)
-
-static FRESULT dir_read (
-	DIR* dp,		/* Pointer to the directory object */
-	int vol			/* Filtered by 0:file/directory or 1:volume label */
-)
-{
-	FRESULT res = FR_NO_FILE;
-	FATFS *fs = dp->obj.fs;
-	BYTE attr, b;
-#if FF_USE_LFN
-	BYTE ord = 0xFF, sum = 0xFF;
-#endif
-
-	while (dp->sect) {
-		res = move_window(fs, dp->sect);
-		if (res != FR_OK) break;
-		b = dp->dir[DIR_Name];	/* Test for the entry type */
-		if (b == 0) {
-			res = FR_NO_FILE; break; /* Reached to end of the directory */
-		}
-#if FF_FS_EXFAT
-		if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-			if (FF_USE_LABEL && vol) {
-				if (b == ET_VLABEL) break;	/* Volume label entry? */
-			} else {
-				if (b == ET_FILEDIR) {		/* Start of the file entry block? */
-					dp->blk_ofs = dp->dptr;	/* Get location of the block */
-					res = load_xdir(dp);	/* Load the entry block */
-					if (res == FR_OK) {
-						dp->obj.attr = fs->dirbuf[XDIR_Attr] & AM_MASK;	/* Get attribute */
-					}
-					break;
-				}
-			}
-		} else
-#endif
-		{	/* On the FAT/FAT32 volume */
-			dp->obj.attr = attr = dp->dir[DIR_Attr] & AM_MASK;	/* Get attribute */
-#if FF_USE_LFN		/* LFN configuration */
-			if (b == DDEM || b == '.' || (int)((attr & ~AM_ARC) == AM_VOL) != vol) {	/* An entry without valid data */
-				ord = 0xFF;
-			} else {
-				if (attr == AM_LFN) {	/* An LFN entry is found */
-					if (b & LLEF) {		/* Is it start of an LFN sequence? */
-						sum = dp->dir[LDIR_Chksum];
-						b &= (BYTE)~LLEF; ord = b;
-						dp->blk_ofs = dp->dptr;
-					}
-					/* Check LFN validity and capture it */
-					ord = (b == ord && sum == dp->dir[LDIR_Chksum] && pick_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
-				} else {				/* An SFN entry is found */
-					if (ord != 0 || sum != sum_sfn(dp->dir)) {	/* Is there a valid LFN? */
-						dp->blk_ofs = 0xFFFFFFFF;	/* It has no LFN. */
-					}
-					break;
-				}
-			}
-#else		/* Non LFN configuration */
-			if (b != DDEM && b != '.' && attr != AM_LFN && (int)((attr & ~AM_ARC) == AM_VOL) == vol) {	/* Is it a valid entry? */
-				break;
-			}
-#endif
-		}
-		res = dir_next(dp, 0);		/* Next entry */
-		if (res != FR_OK) break;
-	}
-
-	if (res != FR_OK) dp->sect = 0;		/* Terminate the read operation on error or EOT */
-	return res;
-}
-
-#endif	/* FF_FS_MINIMIZE <= 1 || FF_USE_LABEL || FF_FS_RPATH >= 2 */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Find an object in the directory                  */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_find (	/* FR_OK(0):succeeded, !=0:error */
-	DIR* dp					/* Pointer to the directory object with the file name */
-)
-{
-	FRESULT res;
-	FATFS *fs = dp->obj.fs;
-	BYTE c;
-#if FF_USE_LFN
-	BYTE a, ord, sum;
-#endif
-
-	res = dir_sdi(dp, 0);			/* Rewind directory object */
-	if (res != FR_OK) return res;
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		BYTE nc;
-		UINT di, ni;
-		WORD hash = xname_sum(fs->lfnbuf);		/* Hash value of the name to find */
-
-		while ((res = DIR_READ_FILE(dp)) == FR_OK) {	/* Read an item */
-#if FF_MAX_LFN < 255
-			if (fs->dirbuf[XDIR_NumName] > FF_MAX_LFN) continue;		/* Skip comparison if inaccessible object name */
-#endif
-			if (ld_word(fs->dirbuf + XDIR_NameHash) != hash) continue;	/* Skip comparison if hash mismatched */
-			for (nc = fs->dirbuf[XDIR_NumName], di = SZDIRE * 2, ni = 0; nc; nc--, di += 2, ni++) {	/* Compare the name */
-				if ((di % SZDIRE) == 0) di += 2;
-				if (ff_wtoupper(ld_word(fs->dirbuf + di)) != ff_wtoupper(fs->lfnbuf[ni])) break;
-			}
-			if (nc == 0 && !fs->lfnbuf[ni]) break;	/* Name matched? */
-		}
-		return res;
-	}
-#endif
-	/* On the FAT/FAT32 volume */
-#if FF_USE_LFN
-	ord = sum = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
-#endif
-	do {
-		res = move_window(fs, dp->sect);
-		if (res != FR_OK) break;
-		c = dp->dir[DIR_Name];
-		if (c == 0) { res = FR_NO_FILE; break; }	/* Reached to end of table */
-#if FF_USE_LFN		/* LFN configuration */
-		dp->obj.attr = a = dp->dir[DIR_Attr] & AM_MASK;
-		if (c == DDEM || ((a & AM_VOL) && a != AM_LFN)) {	/* An entry without valid data */
-			ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
-		} else {
-			if (a == AM_LFN) {			/* An LFN entry is found */
-				if (!(dp->fn[NSFLAG] & NS_NOLFN)) {
-					if (c & LLEF) {		/* Is it start of LFN sequence? */
-						sum = dp->dir[LDIR_Chksum];
-						c &= (BYTE)~LLEF; ord = c;	/* LFN start order */
-						dp->blk_ofs = dp->dptr;	/* Start offset of LFN */
-					}
-					/* Check validity of the LFN entry and compare it with given name */
-					ord = (c == ord && sum == dp->dir[LDIR_Chksum] && cmp_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
-				}
-			} else {					/* An SFN entry is found */
-				if (ord == 0 && sum == sum_sfn(dp->dir)) break;	/* LFN matched? */
-				if (!(dp->fn[NSFLAG] & NS_LOSS) && !memcmp(dp->dir, dp->fn, 11)) break;	/* SFN matched? */
-				ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
-			}
-		}
-#else		/* Non LFN configuration */
-		dp->obj.attr = dp->dir[DIR_Attr] & AM_MASK;
-		if (!(dp->dir[DIR_Attr] & AM_VOL) && !memcmp(dp->dir, dp->fn, 11)) break;	/* Is it a valid entry? */
-#endif
-		res = dir_next(dp, 0);	/* Next entry */
-	} while (res == FR_OK);
-
-	return res;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Register an object to the directory                                   */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_register (	/* FR_OK:succeeded, FR_DENIED:no free entry or too many SFN collision, FR_DISK_ERR:disk error */
-	DIR* dp						/* Target directory with object name to be created */
-)
-{
-	FRESULT res;
-	FATFS *fs = dp->obj.fs;
-#if FF_USE_LFN		/* LFN configuration */
-	UINT n, len, n_ent;
-	BYTE sn[12], sum;
-
-
-	if (dp->fn[NSFLAG] & (NS_DOT | NS_NONAME)) return FR_INVALID_NAME;	/* Check name validity */
-	for (len = 0; fs->lfnbuf[len]; len++) ;	/* Get lfn length */
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		n_ent = (len + 14) / 15 + 2;	/* Number of entries to allocate (85+C0+C1s) */
-		res = dir_alloc(dp, n_ent);		/* Allocate directory entries */
-		if (res != FR_OK) return res;
-		dp->blk_ofs = dp->dptr - SZDIRE * (n_ent - 1);	/* Set the allocated entry block offset */
-
-		if (dp->obj.stat & 4) {			/* Has the directory been stretched by new allocation? */
-			dp->obj.stat &= ~4;
-			res = fill_first_frag(&dp->obj);	/* Fill the first fragment on the FAT if needed */
-			if (res != FR_OK) return res;
-			res = fill_last_frag(&dp->obj, dp->clust, 0xFFFFFFFF);	/* Fill the last fragment on the FAT if needed */
-			if (res != FR_OK) return res;
-			if (dp->obj.sclust != 0) {		/* Is it a sub-directory? */
-				DIR dj;
-
-				res = load_obj_xdir(&dj, &dp->obj);	/* Load the object status */
-				if (res != FR_OK) return res;
-				dp->obj.objsize += (DWORD)fs->csize * SS(fs);		/* Increase the directory size by cluster size */
-				st_qword(fs->dirbuf + XDIR_FileSize, dp->obj.objsize);
-				st_qword(fs->dirbuf + XDIR_ValidFileSize, dp->obj.objsize);
-				fs->dirbuf[XDIR_GenFlags] = dp->obj.stat | 1;		/* Update the allocation status */
-				res = store_xdir(&dj);				/* Store the object status */
-				if (res != FR_OK) return res;
-			}
-		}
-
-		create_xdir(fs->dirbuf, fs->lfnbuf);	/* Create on-memory directory block to be written later */
-		return FR_OK;
-	}
-#endif
-	/* On the FAT/FAT32 volume */
-	memcpy(sn, dp->fn, 12);
-	if (sn[NSFLAG] & NS_LOSS) {			/* When LFN is out of 8.3 format, generate a numbered name */
-		dp->fn[NSFLAG] = NS_NOLFN;		/* Find only SFN */
-		for (n = 1; n < 100; n++) {
-			gen_numname(dp->fn, sn, fs->lfnbuf, n);	/* Generate a numbered name */
-			res = dir_find(dp);				/* Check if the name collides with existing SFN */
-			if (res != FR_OK) break;
-		}
-		if (n == 100) return FR_DENIED;		/* Abort if too many collisions */
-		if (res != FR_NO_FILE) return res;	/* Abort if the result is other than 'not collided' */
-		dp->fn[NSFLAG] = sn[NSFLAG];
-	}
-
-	/* Create an SFN with/without LFNs. */
-	n_ent = (sn[NSFLAG] & NS_LFN) ? (len + 12) / 13 + 1 : 1;	/* Number of entries to allocate */
-	res = dir_alloc(dp, n_ent);		/* Allocate entries */
-	if (res == FR_OK && --n_ent) {	/* Set LFN entry if needed */
-		res = dir_sdi(dp, dp->dptr - n_ent * SZDIRE);
-		if (res == FR_OK) {
-			sum = sum_sfn(dp->fn);	/* Checksum value of the SFN tied to the LFN */
-			do {					/* Store LFN entries in bottom first */
-				res = move_window(fs, dp->sect);
-				if (res != FR_OK) break;
-				put_lfn(fs->lfnbuf, dp->dir, (BYTE)n_ent, sum);
-				fs->wflag = 1;
-				res = dir_next(dp, 0);	/* Next entry */
-			} while (res == FR_OK && --n_ent);
-		}
-	}
-
-#else	/* Non LFN configuration */
-	res = dir_alloc(dp, 1);		/* Allocate an entry for SFN */
-
-#endif
-
-	/* Set SFN entry */
-	if (res == FR_OK) {
-		res = move_window(fs, dp->sect);
-		if (res == FR_OK) {
-			memset(dp->dir, 0, SZDIRE);	/* Clean the entry */
-			memcpy(dp->dir + DIR_Name, dp->fn, 11);	/* Put SFN */
-#if FF_USE_LFN
-			dp->dir[DIR_NTres] = dp->fn[NSFLAG] & (NS_BODY | NS_EXT);	/* Put NT flag */
-#endif
-			fs->wflag = 1;
-		}
-	}
-
-	return res;
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-#if !FF_FS_READONLY && FF_FS_MINIMIZE == 0
-/*-----------------------------------------------------------------------*/
-/* Remove an object from the directory                                   */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_remove (	/* FR_OK:Succeeded, FR_DISK_ERR:A disk error */
-	DIR* dp					/* Directory object pointing the entry to be removed */
-)
-{
-	FRESULT res;
-	FATFS *fs = dp->obj.fs;
-#if FF_USE_LFN		/* LFN configuration */
-	DWORD last = dp->dptr;
-
-	res = (dp->blk_ofs == 0xFFFFFFFF) ? FR_OK : dir_sdi(dp, dp->blk_ofs);	/* Goto top of the entry block if LFN is exist */
-	if (res == FR_OK) {
-		do {
-			res = move_window(fs, dp->sect);
-			if (res != FR_OK) break;
-			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-				dp->dir[XDIR_Type] &= 0x7F;	/* Clear the entry InUse flag. */
-			} else {										/* On the FAT/FAT32 volume */
-				dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'. */
-			}
-			fs->wflag = 1;
-			if (dp->dptr >= last) break;	/* If reached last entry then all entries of the object has been deleted. */
-			res = dir_next(dp, 0);	/* Next entry */
-		} while (res == FR_OK);
-		if (res == FR_NO_FILE) res = FR_INT_ERR;
-	}
-#else			/* Non LFN configuration */
-
-	res = move_window(fs, dp->sect);
-	if (res == FR_OK) {
-		dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'.*/
-		fs->wflag = 1;
-	}
-#endif
-
-	return res;
-}
-
-#endif /* !FF_FS_READONLY && FF_FS_MINIMIZE == 0 */
-
-
-
-#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2
-/*-----------------------------------------------------------------------*/
-/* Get file information from directory entry                             */
-/*-----------------------------------------------------------------------*/
-
-static void get_fileinfo (
-	DIR* dp,			/* Pointer to the directory object */
-	FILINFO* fno		/* Pointer to the file information to be filled */
-)
-{
-	UINT si, di;
-#if FF_USE_LFN
-	BYTE lcf;
-	WCHAR wc, hs;
-	FATFS *fs = dp->obj.fs;
-	UINT nw;
-#else
-	TCHAR c;
-#endif
-
-
-	fno->fname[0] = 0;			/* Invaidate file info */
-	if (dp->sect == 0) return;	/* Exit if read pointer has reached end of directory */
-
-#if FF_USE_LFN		/* LFN configuration */
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* exFAT volume */
-		UINT nc = 0;
-
-		si = SZDIRE * 2; di = 0;	/* 1st C1 entry in the entry block */
-		hs = 0;
-		while (nc < fs->dirbuf[XDIR_NumName]) {
-			if (si >= MAXDIRB(FF_MAX_LFN)) { di = 0; break; }	/* Truncated directory block? */
-			if ((si % SZDIRE) == 0) si += 2;		/* Skip entry type field */
-			wc = ld_word(fs->dirbuf + si); si += 2; nc++;	/* Get a character */
-			if (hs == 0 && IsSurrogate(wc)) {		/* Is it a surrogate? */
-				hs = wc; continue;					/* Get low surrogate */
-			}
-			nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
-			if (nw == 0) { di = 0; break; }			/* Buffer overflow or wrong char? */
-			di += nw;
-			hs = 0;
-		}
-		if (hs != 0) di = 0;					/* Broken surrogate pair? */
-		if (di == 0) fno->fname[di++] = '?';	/* Inaccessible object name? */
-		fno->fname[di] = 0;						/* Terminate the name */
-		fno->altname[0] = 0;					/* exFAT does not support SFN */
-
-		fno->fattrib = fs->dirbuf[XDIR_Attr] & AM_MASKX;		/* Attribute */
-		fno->fsize = (fno->fattrib & AM_DIR) ? 0 : ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
-		fno->ftime = ld_word(fs->dirbuf + XDIR_ModTime + 0);	/* Time */
-		fno->fdate = ld_word(fs->dirbuf + XDIR_ModTime + 2);	/* Date */
-		return;
-	} else
-#endif
-	{	/* FAT/FAT32 volume */
-		if (dp->blk_ofs != 0xFFFFFFFF) {	/* Get LFN if available */
-			si = di = 0;
-			hs = 0;
-			while (fs->lfnbuf[si] != 0) {
-				wc = fs->lfnbuf[si++];		/* Get an LFN character (UTF-16) */
-				if (hs == 0 && IsSurrogate(wc)) {	/* Is it a surrogate? */
-					hs = wc; continue;		/* Get low surrogate */
-				}
-				nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
-				if (nw == 0) { di = 0; break; }	/* Buffer overflow or wrong char? */
-				di += nw;
-				hs = 0;
-			}
-			if (hs != 0) di = 0;	/* Broken surrogate pair? */
-			fno->fname[di] = 0;		/* Terminate the LFN (null string means LFN is invalid) */
-		}
-	}
-
-	si = di = 0;
-	while (si < 11) {		/* Get SFN from SFN entry */
-		wc = dp->dir[si++];			/* Get a char */
-		if (wc == ' ') continue;	/* Skip padding spaces */
-		if (wc == RDDEM) wc = DDEM;	/* Restore replaced DDEM character */
-		if (si == 9 && di < FF_SFN_BUF) fno->altname[di++] = '.';	/* Insert a . if extension is exist */
-#if FF_LFN_UNICODE >= 1	/* Unicode output */
-		if (dbc_1st((BYTE)wc) && si != 8 && si != 11 && dbc_2nd(dp->dir[si])) {	/* Make a DBC if needed */
-			wc = wc << 8 | dp->dir[si++];
-		}
-		wc = ff_oem2uni(wc, CODEPAGE);		/* ANSI/OEM -> Unicode */
-		if (wc == 0) { di = 0; break; }		/* Wrong char in the current code page? */
-		nw = put_utf(wc, &fno->altname[di], FF_SFN_BUF - di);	/* Store it in API encoding */
-		if (nw == 0) { di = 0; break; }		/* Buffer overflow? */
-		di += nw;
-#else					/* ANSI/OEM output */
-		fno->altname[di++] = (TCHAR)wc;	/* Store it without any conversion */
-#endif
-	}
-	fno->altname[di] = 0;	/* Terminate the SFN  (null string means SFN is invalid) */
-
-	if (fno->fname[0] == 0) {	/* If LFN is invalid, altname[] needs to be copied to fname[] */
-		if (di == 0) {	/* If LFN and SFN both are invalid, this object is inaccesible */
-			fno->fname[di++] = '?';
-		} else {
-			for (si = di = 0, lcf = NS_BODY; fno->altname[si]; si++, di++) {	/* Copy altname[] to fname[] with case information */
-				wc = (WCHAR)fno->altname[si];
-				if (wc == '.') lcf = NS_EXT;
-				if (IsUpper(wc) && (dp->dir[DIR_NTres] & lcf)) wc += 0x20;
-				fno->fname[di] = (TCHAR)wc;
-			}
-		}
-		fno->fname[di] = 0;	/* Terminate the LFN */
-		if (!dp->dir[DIR_NTres]) fno->altname[0] = 0;	/* Altname is not needed if neither LFN nor case info is exist. */
-	}
-
-#else	/* Non-LFN configuration */
-	si = di = 0;
-	while (si < 11) {		/* Copy name body and extension */
-		c = (TCHAR)dp->dir[si++];
-		if (c == ' ') continue;		/* Skip padding spaces */
-		if (c == RDDEM) c = DDEM;	/* Restore replaced DDEM character */
-		if (si == 9) fno->fname[di++] = '.';/* Insert a . if extension is exist */
-		fno->fname[di++] = c;
-	}
-	fno->fname[di] = 0;		/* Terminate the SFN */
-#endif
-
-	fno->fattrib = dp->dir[DIR_Attr] & AM_MASK;			/* Attribute */
-	fno->fsize = ld_dword(dp->dir + DIR_FileSize);		/* Size */
-	fno->ftime = ld_word(dp->dir + DIR_ModTime + 0);	/* Time */
-	fno->fdate = ld_word(dp->dir + DIR_ModTime + 2);	/* Date */
-}
-
-#endif /* FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 */
-
-
-
-#if FF_USE_FIND && FF_FS_MINIMIZE <= 1
-/*-----------------------------------------------------------------------*/
-/* Pattern matching                                                      */
-/*-----------------------------------------------------------------------*/
-
-#define FIND_RECURS	4	/* Maximum number of wildcard terms in the pattern to limit recursion */
-
-
-static DWORD get_achar (	/* Get a character and advance ptr */
-	const TCHAR** ptr		/* Pointer to pointer to the ANSI/OEM or Unicode string */
-)
-{
-	DWORD chr;
-
-
-#if FF_USE_LFN && FF_LFN_UNICODE >= 1	/* Unicode input */
-	chr = tchar2uni(ptr);
-	if (chr == 0xFFFFFFFF) chr = 0;		/* Wrong UTF encoding is recognized as end of the string */
-	chr = ff_wtoupper(chr);
-
-#else									/* ANSI/OEM input */
-	chr = (BYTE)*(*ptr)++;				/* Get a byte */
-	if (IsLower(chr)) chr -= 0x20;		/* To upper ASCII char */
-#if FF_CODE_PAGE == 0
-	if (ExCvt && chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
-#elif FF_CODE_PAGE < 900
-	if (chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
-#endif
-#if FF_CODE_PAGE == 0 || FF_CODE_PAGE >= 900
-	if (dbc_1st((BYTE)chr)) {	/* Get DBC 2nd byte if needed */
-		chr = dbc_2nd((BYTE)**ptr) ? chr << 8 | (BYTE)*(*ptr)++ : 0;
-	}
-#endif
-
-#endif
-	return chr;
-}
-
-
-static int pattern_match (	/* 0:mismatched, 1:matched */
-	const TCHAR* pat,	/* Matching pattern */
-	const TCHAR* nam,	/* String to be tested */
-	UINT skip,			/* Number of pre-skip chars (number of ?s, b8:infinite (* specified)) */
-	UINT recur			/* Recursion count */
-)
-{
-	const TCHAR *pptr, *nptr;
-	DWORD pchr, nchr;
-	UINT sk;
-
-
-	while ((skip & 0xFF) != 0) {		/* Pre-skip name chars */
-		if (!get_achar(&nam)) return 0;	/* Branch mismatched if less name chars */
-		skip--;
-	}
-	if (*pat == 0 && skip) return 1;	/* Matched? (short circuit) */
-
-	do {
-		pptr = pat; nptr = nam;			/* Top of pattern and name to match */
-		for (;;) {
-			if (*pptr == '?' || *pptr == '*') {	/* Wildcard term? */
-				if (recur == 0) return 0;	/* Too many wildcard terms? */
-				sk = 0;
-				do {	/* Analyze the wildcard term */
-					if (*pptr++ == '?') sk++; else sk |= 0x100;
-				} while (*pptr == '?' || *pptr == '*');
-				if (pattern_match(pptr, nptr, sk, recur - 1)) return 1;	/* Test new branch (recursive call) */
-				nchr = *nptr; break;	/* Branch mismatched */
-			}
-			pchr = get_achar(&pptr);	/* Get a pattern char */
-			nchr = get_achar(&nptr);	/* Get a name char */
-			if (pchr != nchr) break;	/* Branch mismatched? */
-			if (pchr == 0) return 1;	/* Branch matched? (matched at end of both strings) */
-		}
-		get_achar(&nam);			/* nam++ */
-	} while (skip && nchr);		/* Retry until end of name if infinite search is specified */
-
-	return 0;
-}
-
-#endif /* FF_USE_FIND && FF_FS_MINIMIZE <= 1 */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Pick a top segment and create the object name in directory form       */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT create_name (	/* FR_OK: successful, FR_INVALID_NAME: could not create */
-	DIR* dp,					/* Pointer to the directory object */
-	const TCHAR** path			/* Pointer to pointer to the segment in the path string */
-)
-{
-#if FF_USE_LFN		/* LFN configuration */
-	BYTE b, cf;
-	WCHAR wc, *lfn;
-	DWORD uc;
-	UINT i, ni, si, di;
-	const TCHAR *p;
-
-
-	/* Create LFN into LFN working buffer */
-	p = *path; lfn = dp->obj.fs->lfnbuf; di = 0;
-	for (;;) {
-		uc = tchar2uni(&p);			/* Get a character */
-		if (uc == 0xFFFFFFFF) return FR_INVALID_NAME;		/* Invalid code or UTF decode error */
-		if (uc >= 0x10000) lfn[di++] = (WCHAR)(uc >> 16);	/* Store high surrogate if needed */
-		wc = (WCHAR)uc;
-		if (wc < ' ' || IsSeparator(wc)) break;	/* Break if end of the path or a separator is found */
-		if (wc < 0x80 && strchr("*:<>|\"\?\x7F", (int)wc)) return FR_INVALID_NAME;	/* Reject illegal characters for LFN */
-		if (di >= FF_MAX_LFN) return FR_INVALID_NAME;	/* Reject too long name */
-		lfn[di++] = wc;				/* Store the Unicode character */
-	}
-	if (wc < ' ') {				/* Stopped at end of the path? */
-		cf = NS_LAST;			/* Last segment */
-	} else {					/* Stopped at a separator */
-		while (IsSeparator(*p)) p++;	/* Skip duplicated separators if exist */
-		cf = 0;					/* Next segment may follow */
-		if (IsTerminator(*p)) cf = NS_LAST;	/* Ignore terminating separator */
-	}
-	*path = p;					/* Return pointer to the next segment */
-
-#if FF_FS_RPATH != 0
-	if ((di == 1 && lfn[di - 1] == '.') ||
-		(di == 2 && lfn[di - 1] == '.' && lfn[di - 2] == '.')) {	/* Is this segment a dot name? */
-		lfn[di] = 0;
-		for (i = 0; i < 11; i++) {	/* Create dot name for SFN entry */
-			dp->fn[i] = (i < di) ? '.' : ' ';
-		}
-		dp->fn[i] = cf | NS_DOT;	/* This is a dot entry */
-		return FR_OK;
-	}
-#endif
-	while (di) {					/* Snip off trailing spaces and dots if exist */
-		wc = lfn[di - 1];
-		if (wc != ' ' && wc != '.') break;
-		di--;
-	}
-	lfn[di] = 0;							/* LFN is created into the working buffer */
-	if (di == 0) return FR_INVALID_NAME;	/* Reject null name */
-
-	/* Create SFN in directory form */
-	for (si = 0; lfn[si] == ' '; si++) ;	/* Remove leading spaces */
-	if (si > 0 || lfn[si] == '.') cf |= NS_LOSS | NS_LFN;	/* Is there any leading space or dot? */
-	while (di > 0 && lfn[di - 1] != '.') di--;	/* Find last dot (di<=si: no extension) */
-
-	memset(dp->fn, ' ', 11);
-	i = b = 0; ni = 8;
-	for (;;) {
-		wc = lfn[si++];					/* Get an LFN character */
-		if (wc == 0) break;				/* Break on end of the LFN */
-		if (wc == ' ' || (wc == '.' && si != di)) {	/* Remove embedded spaces and dots */
-			cf |= NS_LOSS | NS_LFN;
-			continue;
-		}
-
-		if (i >= ni || si == di) {		/* End of field? */
-			if (ni == 11) {				/* Name extension overflow? */
-				cf |= NS_LOSS | NS_LFN;
-				break;
-			}
-			if (si != di) cf |= NS_LOSS | NS_LFN;	/* Name body overflow? */
-			if (si > di) break;						/* No name extension? */
-			si = di; i = 8; ni = 11; b <<= 2;		/* Enter name extension */
-			continue;
-		}
-
-		if (wc >= 0x80) {	/* Is this an extended character? */
-			cf |= NS_LFN;	/* LFN entry needs to be created */
-#if FF_CODE_PAGE == 0
-			if (ExCvt) {	/* In SBCS cfg */
-				wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
-				if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
-			} else {		/* In DBCS cfg */
-				wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
-			}
-#elif FF_CODE_PAGE < 900	/* In SBCS cfg */
-			wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
-			if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
-#else						/* In DBCS cfg */
-			wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
-#endif
-		}
-
-		if (wc >= 0x100) {				/* Is this a DBC? */
-			if (i >= ni - 1) {			/* Field overflow? */
-				cf |= NS_LOSS | NS_LFN;
-				i = ni; continue;		/* Next field */
-			}
-			dp->fn[i++] = (BYTE)(wc >> 8);	/* Put 1st byte */
-		} else {						/* SBC */
-			if (wc == 0 || strchr("+,;=[]", (int)wc)) {	/* Replace illegal characters for SFN */
-				wc = '_'; cf |= NS_LOSS | NS_LFN;/* Lossy conversion */
-			} else {
-				if (IsUpper(wc)) {		/* ASCII upper case? */
-					b |= 2;
-				}
-				if (IsLower(wc)) {		/* ASCII lower case? */
-					b |= 1; wc -= 0x20;
-				}
-			}
-		}
-		dp->fn[i++] = (BYTE)wc;
-	}
-
-	if (dp->fn[0] == DDEM) dp->fn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
-
-	if (ni == 8) b <<= 2;				/* Shift capital flags if no extension */
-	if ((b & 0x0C) == 0x0C || (b & 0x03) == 0x03) cf |= NS_LFN;	/* LFN entry needs to be created if composite capitals */
-	if (!(cf & NS_LFN)) {				/* When LFN is in 8.3 format without extended character, NT flags are created */
-		if (b & 0x01) cf |= NS_EXT;		/* NT flag (Extension has small capital letters only) */
-		if (b & 0x04) cf |= NS_BODY;	/* NT flag (Body has small capital letters only) */
-	}
-
-	dp->fn[NSFLAG] = cf;	/* SFN is created into dp->fn[] */
-
-	return FR_OK;
-
-
-#else	/* FF_USE_LFN : Non-LFN configuration */
-	BYTE c, d, *sfn;
-	UINT ni, si, i;
-	const char *p;
-
-	/* Create file name in directory form */
-	p = *path; sfn = dp->fn;
-	memset(sfn, ' ', 11);
-	si = i = 0; ni = 8;
-#if FF_FS_RPATH != 0
-	if (p[si] == '.') { /* Is this a dot entry? */
-		for (;;) {
-			c = (BYTE)p[si++];
-			if (c != '.' || si >= 3) break;
-			sfn[i++] = c;
-		}
-		if (!IsSeparator(c) && c > ' ') return FR_INVALID_NAME;
-		*path = p + si;					/* Return pointer to the next segment */
-		sfn[NSFLAG] = (c <= ' ') ? NS_LAST | NS_DOT : NS_DOT;	/* Set last segment flag if end of the path */
-		return FR_OK;
-	}
-#endif
-	for (;;) {
-		c = (BYTE)p[si++];				/* Get a byte */
-		if (c <= ' ') break; 			/* Break if end of the path name */
-		if (IsSeparator(c)) {			/* Break if a separator is found */
-			while (IsSeparator(p[si])) si++;	/* Skip duplicated separator if exist */
-			break;
-		}
-		if (c == '.' || i >= ni) {		/* End of body or field overflow? */
-			if (ni == 11 || c != '.') return FR_INVALID_NAME;	/* Field overflow or invalid dot? */
-			i = 8; ni = 11;				/* Enter file extension field */
-			continue;
-		}
-#if FF_CODE_PAGE == 0
-		if (ExCvt && c >= 0x80) {		/* Is SBC extended character? */
-			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
-		}
-#elif FF_CODE_PAGE < 900
-		if (c >= 0x80) {				/* Is SBC extended character? */
-			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
-		}
-#endif
-		if (dbc_1st(c)) {				/* Check if it is a DBC 1st byte */
-			d = (BYTE)p[si++];			/* Get 2nd byte */
-			if (!dbc_2nd(d) || i >= ni - 1) return FR_INVALID_NAME;	/* Reject invalid DBC */
-			sfn[i++] = c;
-			sfn[i++] = d;
-		} else {						/* SBC */
-			if (strchr("*+,:;<=>[]|\"\?\x7F", (int)c)) return FR_INVALID_NAME;	/* Reject illegal chrs for SFN */
-			if (IsLower(c)) c -= 0x20;	/* To upper */
-			sfn[i++] = c;
-		}
-	}
-	*path = &p[si];						/* Return pointer to the next segment */
-	if (i == 0) return FR_INVALID_NAME;	/* Reject nul string */
-
-	if (sfn[0] == DDEM) sfn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
-	sfn[NSFLAG] = (c <= ' ' || p[si] <= ' ') ? NS_LAST : 0;	/* Set last segment flag if end of the path */
-
-	return FR_OK;
-#endif /* FF_USE_LFN */
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Follow a file path                                                    */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT follow_path (	/* FR_OK(0): successful, !=0: error code */
-	DIR* dp,					/* Directory object to return last directory and found object */
-	const TCHAR* path			/* Full-path string to find a file or directory */
-)
-{
-	FRESULT res;
-	BYTE ns;
-	FATFS *fs = dp->obj.fs;
-
-
-#if FF_FS_RPATH != 0
-	if (!IsSeparator(*path) && (FF_STR_VOLUME_ID != 2 || !IsTerminator(*path))) {	/* Without heading separator */
-		dp->obj.sclust = fs->cdir;			/* Start at the current directory */
-	} else
-#endif
-	{										/* With heading separator */
-		while (IsSeparator(*path)) path++;	/* Strip separators */
-		dp->obj.sclust = 0;					/* Start from the root directory */
-	}
-#if FF_FS_EXFAT
-	dp->obj.n_frag = 0;	/* Invalidate last fragment counter of the object */
-#if FF_FS_RPATH != 0
-	if (fs->fs_type == FS_EXFAT && dp->obj.sclust) {	/* exFAT: Retrieve the sub-directory's status */
-		DIR dj;
-
-		dp->obj.c_scl = fs->cdc_scl;
-		dp->obj.c_size = fs->cdc_size;
-		dp->obj.c_ofs = fs->cdc_ofs;
-		res = load_obj_xdir(&dj, &dp->obj);
-		if (res != FR_OK) return res;
-		dp->obj.objsize = ld_dword(fs->dirbuf + XDIR_FileSize);
-		dp->obj.stat = fs->dirbuf[XDIR_GenFlags] & 2;
-	}
-#endif
-#endif
-
-	if ((UINT)*path < ' ') {				/* Null path name is the origin directory itself */
-		dp->fn[NSFLAG] = NS_NONAME;
-		res = dir_sdi(dp, 0);
-
-	} else {								/* Follow path */
-		for (;;) {
-			res = create_name(dp, &path);	/* Get a segment name of the path */
-			if (res != FR_OK) break;
-			res = dir_find(dp);				/* Find an object with the segment name */
-			ns = dp->fn[NSFLAG];
-			if (res != FR_OK) {				/* Failed to find the object */
-				if (res == FR_NO_FILE) {	/* Object is not found */
-					if (FF_FS_RPATH && (ns & NS_DOT)) {	/* If dot entry is not exist, stay there */
-						if (!(ns & NS_LAST)) continue;	/* Continue to follow if not last segment */
-						dp->fn[NSFLAG] = NS_NONAME;
-						res = FR_OK;
-					} else {							/* Could not find the object */
-						if (!(ns & NS_LAST)) res = FR_NO_PATH;	/* Adjust error code if not last segment */
-					}
-				}
-				break;
-			}
-			if (ns & NS_LAST) break;		/* Last segment matched. Function completed. */
-			/* Get into the sub-directory */
-			if (!(dp->obj.attr & AM_DIR)) {	/* It is not a sub-directory and cannot follow */
-				res = FR_NO_PATH; break;
-			}
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {	/* Save containing directory information for next dir */
-				dp->obj.c_scl = dp->obj.sclust;
-				dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
-				dp->obj.c_ofs = dp->blk_ofs;
-				init_alloc_info(fs, &dp->obj);	/* Open next directory */
-			} else
-#endif
-			{
-				dp->obj.sclust = ld_clust(fs, fs->win + dp->dptr % SS(fs));	/* Open next directory */
-			}
-		}
-	}
-
-	return res;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Get logical drive number from path name                               */
-/*-----------------------------------------------------------------------*/
-
-static int get_ldnumber (	/* Returns logical drive number (-1:invalid drive number or null pointer) */
-	const TCHAR** path		/* Pointer to pointer to the path name */
-)
-{
-	const TCHAR *tp, *tt;
-	TCHAR tc;
-	int i;
-	int vol = -1;
-#if FF_STR_VOLUME_ID		/* Find string volume ID */
-	const char *sp;
-	char c;
-#endif
-
-	tt = tp = *path;
-	if (!tp) return vol;	/* Invalid path name? */
-	do tc = *tt++; while (!IsTerminator(tc) && tc != ':');	/* Find a colon in the path */
-
-	if (tc == ':') {	/* DOS/Windows style volume ID? */
-		i = FF_VOLUMES;
-		if (IsDigit(*tp) && tp + 2 == tt) {	/* Is there a numeric volume ID + colon? */
-			i = (int)*tp - '0';	/* Get the LD number */
-		}
-#if FF_STR_VOLUME_ID == 1	/* Arbitrary string is enabled */
-		else {
-			i = 0;
-			do {
-				sp = VolumeStr[i]; tp = *path;	/* This string volume ID and path name */
-				do {	/* Compare the volume ID with path name */
-					c = *sp++; tc = *tp++;
-					if (IsLower(c)) c -= 0x20;
-					if (IsLower(tc)) tc -= 0x20;
-				} while (c && (TCHAR)c == tc);
-			} while ((c || tp != tt) && ++i < FF_VOLUMES);	/* Repeat for each id until pattern match */
-		}
-#endif
-		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
-			vol = i;		/* Drive number */
-			*path = tt;		/* Snip the drive prefix off */
-		}
-		return vol;
-	}
-#if FF_STR_VOLUME_ID == 2		/* Unix style volume ID is enabled */
-	if (*tp == '/') {			/* Is there a volume ID? */
-		while (*(tp + 1) == '/') tp++;	/* Skip duplicated separator */
-		i = 0;
-		do {
-			tt = tp; sp = VolumeStr[i]; /* Path name and this string volume ID */
-			do {	/* Compare the volume ID with path name */
-				c = *sp++; tc = *(++tt);
-				if (IsLower(c)) c -= 0x20;
-				if (IsLower(tc)) tc -= 0x20;
-			} while (c && (TCHAR)c == tc);
-		} while ((c || (tc != '/' && !IsTerminator(tc))) && ++i < FF_VOLUMES);	/* Repeat for each ID until pattern match */
-		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
-			vol = i;		/* Drive number */
-			*path = tt;		/* Snip the drive prefix off */
-		}
-		return vol;
-	}
-#endif
-	/* No drive prefix is found */
-#if FF_FS_RPATH != 0
-	vol = CurrVol;	/* Default drive is current drive */
-#else
-	vol = 0;		/* Default drive is 0 */
-#endif
-	return vol;		/* Return the default drive */
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* GPT support functions                                                 */
-/*-----------------------------------------------------------------------*/
-
-#if FF_LBA64
-
-/* Calculate CRC32 in byte-by-byte */
-
-static DWORD crc32 (	/* Returns next CRC value */
-	DWORD crc,			/* Current CRC value */
-	BYTE d				/* A byte to be processed */
-)
-{
-	BYTE b;
-
-
-	for (b = 1; b; b <<= 1) {
-		crc ^= (d & b) ? 1 : 0;
-		crc = (crc & 1) ? crc >> 1 ^ 0xEDB88320 : crc >> 1;
-	}
-	return crc;
-}
-
-
-/* Check validity of GPT header */
-
-static int test_gpt_header (	/* 0:Invalid, 1:Valid */
-	const BYTE* gpth			/* Pointer to the GPT header */
-)
-{
-	UINT i;
-	DWORD bcc;
-
-
-	if (memcmp(gpth + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16)) return 0;	/* Check sign, version (1.0) and length (92) */
-	for (i = 0, bcc = 0xFFFFFFFF; i < 92; i++) {		/* Check header BCC */
-		bcc = crc32(bcc, i - GPTH_Bcc < 4 ? 0 : gpth[i]);
-	}
-	if (~bcc != ld_dword(gpth + GPTH_Bcc)) return 0;
-	if (ld_dword(gpth + GPTH_PteSize) != SZ_GPTE) return 0;	/* Table entry size (must be SZ_GPTE bytes) */
-	if (ld_dword(gpth + GPTH_PtNum) > 128) return 0;	/* Table size (must be 128 entries or less) */
-
-	return 1;
-}
-
-#if !FF_FS_READONLY && FF_USE_MKFS
-
-/* Generate random value */
-static DWORD make_rand (
-	DWORD seed,		/* Seed value */
-	BYTE* buff,		/* Output buffer */
-	UINT n			/* Data length */
-)
-{
-	UINT r;
-
-
-	if (seed == 0) seed = 1;
-	do {
-		for (r = 0; r < 8; r++) seed = seed & 1 ? seed >> 1 ^ 0xA3000000 : seed >> 1;	/* Shift 8 bits the 32-bit LFSR */
-		*buff++ = (BYTE)seed;
-	} while (--n);
-	return seed;
-}
-
-#endif
-#endif
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Load a sector and check if it is an FAT VBR                           */
-/*-----------------------------------------------------------------------*/
-
-/* Check what the sector is */
-
-static UINT check_fs (	/* 0:FAT/FAT32 VBR, 1:exFAT VBR, 2:Not FAT and valid BS, 3:Not FAT and invalid BS, 4:Disk error */
-	FATFS* fs,			/* Filesystem object */
-	LBA_t sect			/* Sector to load and check if it is an FAT-VBR or not */
-)
-{
-	WORD w, sign;
-	BYTE b;
-
-
-	fs->wflag = 0; fs->winsect = (LBA_t)0 - 1;		/* Invaidate window */
-	if (move_window(fs, sect) != FR_OK) return 4;	/* Load the boot sector */
-	sign = ld_word(fs->win + BS_55AA);
-#if FF_FS_EXFAT
-	if (sign == 0xAA55 && !memcmp(fs->win + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11)) return 1;	/* It is an exFAT VBR */
-#endif
-	b = fs->win[BS_JmpBoot];
-	if (b == 0xEB || b == 0xE9 || b == 0xE8) {	/* Valid JumpBoot code? (short jump, near jump or near call) */
-		if (sign == 0xAA55 && !memcmp(fs->win + BS_FilSysType32, "FAT32   ", 8)) {
-			return 0;	/* It is an FAT32 VBR */
-		}
-		/* FAT volumes formatted with early MS-DOS lack BS_55AA and BS_FilSysType, so FAT VBR needs to be identified without them. */
-		w = ld_word(fs->win + BPB_BytsPerSec);
-		b = fs->win[BPB_SecPerClus];
-		if ((w & (w - 1)) == 0 && w >= FF_MIN_SS && w <= FF_MAX_SS	/* Properness of sector size (512-4096 and 2^n) */
-			&& b != 0 && (b & (b - 1)) == 0				/* Properness of cluster size (2^n) */
-			&& ld_word(fs->win + BPB_RsvdSecCnt) != 0	/* Properness of reserved sectors (MNBZ) */
-			&& (UINT)fs->win[BPB_NumFATs] - 1 <= 1		/* Properness of FATs (1 or 2) */
-			&& ld_word(fs->win + BPB_RootEntCnt) != 0	/* Properness of root dir entries (MNBZ) */
-			&& (ld_word(fs->win + BPB_TotSec16) >= 128 || ld_dword(fs->win + BPB_TotSec32) >= 0x10000)	/* Properness of volume sectors (>=128) */
-			&& ld_word(fs->win + BPB_FATSz16) != 0) {	/* Properness of FAT size (MNBZ) */
-				return 0;	/* It can be presumed an FAT VBR */
-		}
-	}
-	return sign == 0xAA55 ? 2 : 3;	/* Not an FAT VBR (valid or invalid BS) */
-}
-
-
-/* Find an FAT volume */
-/* (It supports only generic partitioning rules, MBR, GPT and SFD) */
-
-static UINT find_volume (	/* Returns BS status found in the hosting drive */
-	FATFS* fs,		/* Filesystem object */
-	UINT part		/* Partition to fined = 0:auto, 1..:forced */
-)
-{
-	UINT fmt, i;
-	DWORD mbr_pt[4];
-
-
-	fmt = check_fs(fs, 0);				/* Load sector 0 and check if it is an FAT VBR as SFD format */
-	if (fmt != 2 && (fmt >= 3 || part == 0)) return fmt;	/* Returns if it is an FAT VBR as auto scan, not a BS or disk error */
-
-	/* Sector 0 is not an FAT VBR or forced partition number wants a partition */
-
-#if FF_LBA64
-	if (fs->win[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
-		DWORD n_ent, v_ent, ofs;
-		QWORD pt_lba;
-
-		if (move_window(fs, 1) != FR_OK) return 4;	/* Load GPT header sector (next to MBR) */
-		if (!test_gpt_header(fs->win)) return 3;	/* Check if GPT header is valid */
-		n_ent = ld_dword(fs->win + GPTH_PtNum);		/* Number of entries */
-		pt_lba = ld_qword(fs->win + GPTH_PtOfs);	/* Table location */
-		for (v_ent = i = 0; i < n_ent; i++) {		/* Find FAT partition */
-			if (move_window(fs, pt_lba + i * SZ_GPTE / SS(fs)) != FR_OK) return 4;	/* PT sector */
-			ofs = i * SZ_GPTE % SS(fs);												/* Offset in the sector */
-			if (!memcmp(fs->win + ofs + GPTE_PtGuid, GUID_MS_Basic, 16)) {	/* MS basic data partition? */
-				v_ent++;
-				fmt = check_fs(fs, ld_qword(fs->win + ofs + GPTE_FstLba));	/* Load VBR and check status */
-				if (part == 0 && fmt <= 1) return fmt;			/* Auto search (valid FAT volume found first) */
-				if (part != 0 && v_ent == part) return fmt;		/* Forced partition order (regardless of it is valid or not) */
-			}
-		}
-		return 3;	/* Not found */
-	}
-#endif
-	if (FF_MULTI_PARTITION && part > 4) return 3;	/* MBR has 4 partitions max */
-	for (i = 0; i < 4; i++) {		/* Load partition offset in the MBR */
-		mbr_pt[i] = ld_dword(fs->win + MBR_Table + i * SZ_PTE + PTE_StLba);
-	}
-	i = part ? part - 1 : 0;		/* Table index to find first */
-	do {							/* Find an FAT volume */
-		fmt = mbr_pt[i] ? check_fs(fs, mbr_pt[i]) : 3;	/* Check if the partition is FAT */
-	} while (part == 0 && fmt >= 2 && ++i < 4);
-	return fmt;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Determine logical drive number and mount the volume if needed         */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT mount_volume (	/* FR_OK(0): successful, !=0: an error occurred */
-	const TCHAR** path,			/* Pointer to pointer to the path name (drive number) */
-	FATFS** rfs,				/* Pointer to pointer to the found filesystem object */
-	BYTE mode					/* !=0: Check write protection for write access */
-)
-{
-	int vol;
-	DSTATUS stat;
-	LBA_t bsect;
-	DWORD tsect, sysect, fasize, nclst, szbfat;
-	WORD nrsv;
-	FATFS *fs;
-	UINT fmt;
-
-
-	/* Get logical drive number */
-	*rfs = 0;
-	vol = get_ldnumber(path);
-	if (vol < 0) return FR_INVALID_DRIVE;
-
-	/* Check if the filesystem object is valid or not */
-	fs = FatFs[vol];					/* Get pointer to the filesystem object */
-	if (!fs) return FR_NOT_ENABLED;		/* Is the filesystem object available? */
-#if FF_FS_REENTRANT
-	if (!lock_fs(fs)) return FR_TIMEOUT;	/* Lock the volume */
-#endif
-	*rfs = fs;							/* Return pointer to the filesystem object */
-
-	mode &= (BYTE)~FA_READ;				/* Desired access mode, write access or not */
-	if (fs->fs_type != 0) {				/* If the volume has been mounted */
-		stat = disk_status(fs->pdrv);
-		if (!(stat & STA_NOINIT)) {		/* and the physical drive is kept initialized */
-			if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) {	/* Check write protection if needed */
-				return FR_WRITE_PROTECTED;
-			}
-			return FR_OK;				/* The filesystem object is already valid */
-		}
-	}
-
-	/* The filesystem object is not valid. */
-	/* Following code attempts to mount the volume. (find an FAT volume, analyze the BPB and initialize the filesystem object) */
-
-	fs->fs_type = 0;					/* Clear the filesystem object */
-	fs->pdrv = LD2PD(vol);				/* Volume hosting physical drive */
-	stat = disk_initialize(fs->pdrv);	/* Initialize the physical drive */
-	if (stat & STA_NOINIT) { 			/* Check if the initialization succeeded */
-		return FR_NOT_READY;			/* Failed to initialize due to no medium or hard error */
-	}
-	if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) { /* Check disk write protection if needed */
-		return FR_WRITE_PROTECTED;
-	}
-#if FF_MAX_SS != FF_MIN_SS				/* Get sector size (multiple sector size cfg only) */
-	if (disk_ioctl(fs->pdrv, GET_SECTOR_SIZE, &SS(fs)) != RES_OK) return FR_DISK_ERR;
-	if (SS(fs) > FF_MAX_SS || SS(fs) < FF_MIN_SS || (SS(fs) & (SS(fs) - 1))) return FR_DISK_ERR;
-#endif
-
-	/* Find an FAT volume on the drive */
-	fmt = find_volume(fs, LD2PT(vol));
-	if (fmt == 4) return FR_DISK_ERR;		/* An error occured in the disk I/O layer */
-	if (fmt >= 2) return FR_NO_FILESYSTEM;	/* No FAT volume is found */
-	bsect = fs->winsect;					/* Volume offset */
-
-	/* An FAT volume is found (bsect). Following code initializes the filesystem object */
-
-#if FF_FS_EXFAT
-	if (fmt == 1) {
-		QWORD maxlba;
-		DWORD so, cv, bcl, i;
-
-		for (i = BPB_ZeroedEx; i < BPB_ZeroedEx + 53 && fs->win[i] == 0; i++) ;	/* Check zero filler */
-		if (i < BPB_ZeroedEx + 53) return FR_NO_FILESYSTEM;
-
-		if (ld_word(fs->win + BPB_FSVerEx) != 0x100) return FR_NO_FILESYSTEM;	/* Check exFAT version (must be version 1.0) */
-
-		if (1 << fs->win[BPB_BytsPerSecEx] != SS(fs)) {	/* (BPB_BytsPerSecEx must be equal to the physical sector size) */
-			return FR_NO_FILESYSTEM;
-		}
-
-		maxlba = ld_qword(fs->win + BPB_TotSecEx) + bsect;	/* Last LBA of the volume + 1 */
-		if (!FF_LBA64 && maxlba >= 0x100000000) return FR_NO_FILESYSTEM;	/* (It cannot be accessed in 32-bit LBA) */
-
-		fs->fsize = ld_dword(fs->win + BPB_FatSzEx);	/* Number of sectors per FAT */
-
-		fs->n_fats = fs->win[BPB_NumFATsEx];			/* Number of FATs */
-		if (fs->n_fats != 1) return FR_NO_FILESYSTEM;	/* (Supports only 1 FAT) */
-
-		fs->csize = 1 << fs->win[BPB_SecPerClusEx];		/* Cluster size */
-		if (fs->csize == 0)	return FR_NO_FILESYSTEM;	/* (Must be 1..32768 sectors) */
-
-		nclst = ld_dword(fs->win + BPB_NumClusEx);		/* Number of clusters */
-		if (nclst > MAX_EXFAT) return FR_NO_FILESYSTEM;	/* (Too many clusters) */
-		fs->n_fatent = nclst + 2;
-
-		/* Boundaries and Limits */
-		fs->volbase = bsect;
-		fs->database = bsect + ld_dword(fs->win + BPB_DataOfsEx);
-		fs->fatbase = bsect + ld_dword(fs->win + BPB_FatOfsEx);
-		if (maxlba < (QWORD)fs->database + nclst * fs->csize) return FR_NO_FILESYSTEM;	/* (Volume size must not be smaller than the size requiered) */
-		fs->dirbase = ld_dword(fs->win + BPB_RootClusEx);
-
-		/* Get bitmap location and check if it is contiguous (implementation assumption) */
-		so = i = 0;
-		for (;;) {	/* Find the bitmap entry in the root directory (in only first cluster) */
-			if (i == 0) {
-				if (so >= fs->csize) return FR_NO_FILESYSTEM;	/* Not found? */
-				if (move_window(fs, clst2sect(fs, (DWORD)fs->dirbase) + so) != FR_OK) return FR_DISK_ERR;
-				so++;
-			}
-			if (fs->win[i] == ET_BITMAP) break;			/* Is it a bitmap entry? */
-			i = (i + SZDIRE) % SS(fs);	/* Next entry */
-		}
-		bcl = ld_dword(fs->win + i + 20);				/* Bitmap cluster */
-		if (bcl < 2 || bcl >= fs->n_fatent) return FR_NO_FILESYSTEM;	/* (Wrong cluster#) */
-		fs->bitbase = fs->database + fs->csize * (bcl - 2);	/* Bitmap sector */
-		for (;;) {	/* Check if bitmap is contiguous */
-			if (move_window(fs, fs->fatbase + bcl / (SS(fs) / 4)) != FR_OK) return FR_DISK_ERR;
-			cv = ld_dword(fs->win + bcl % (SS(fs) / 4) * 4);
-			if (cv == 0xFFFFFFFF) break;				/* Last link? */
-			if (cv != ++bcl) return FR_NO_FILESYSTEM;	/* Fragmented? */
-		}
-
-#if !FF_FS_READONLY
-		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
-#endif
-		fmt = FS_EXFAT;			/* FAT sub-type */
-	} else
-#endif	/* FF_FS_EXFAT */
-	{
-		if (ld_word(fs->win + BPB_BytsPerSec) != SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_BytsPerSec must be equal to the physical sector size) */
-
-		fasize = ld_word(fs->win + BPB_FATSz16);		/* Number of sectors per FAT */
-		if (fasize == 0) fasize = ld_dword(fs->win + BPB_FATSz32);
-		fs->fsize = fasize;
-
-		fs->n_fats = fs->win[BPB_NumFATs];				/* Number of FATs */
-		if (fs->n_fats != 1 && fs->n_fats != 2) return FR_NO_FILESYSTEM;	/* (Must be 1 or 2) */
-		fasize *= fs->n_fats;							/* Number of sectors for FAT area */
-
-		fs->csize = fs->win[BPB_SecPerClus];			/* Cluster size */
-		if (fs->csize == 0 || (fs->csize & (fs->csize - 1))) return FR_NO_FILESYSTEM;	/* (Must be power of 2) */
-
-		fs->n_rootdir = ld_word(fs->win + BPB_RootEntCnt);	/* Number of root directory entries */
-		if (fs->n_rootdir % (SS(fs) / SZDIRE)) return FR_NO_FILESYSTEM;	/* (Must be sector aligned) */
-
-		tsect = ld_word(fs->win + BPB_TotSec16);		/* Number of sectors on the volume */
-		if (tsect == 0) tsect = ld_dword(fs->win + BPB_TotSec32);
-
-		nrsv = ld_word(fs->win + BPB_RsvdSecCnt);		/* Number of reserved sectors */
-		if (nrsv == 0) return FR_NO_FILESYSTEM;			/* (Must not be 0) */
-
-		/* Determine the FAT sub type */
-		sysect = nrsv + fasize + fs->n_rootdir / (SS(fs) / SZDIRE);	/* RSV + FAT + DIR */
-		if (tsect < sysect) return FR_NO_FILESYSTEM;	/* (Invalid volume size) */
-		nclst = (tsect - sysect) / fs->csize;			/* Number of clusters */
-		if (nclst == 0) return FR_NO_FILESYSTEM;		/* (Invalid volume size) */
-		fmt = 0;
-		if (nclst <= MAX_FAT32) fmt = FS_FAT32;
-		if (nclst <= MAX_FAT16) fmt = FS_FAT16;
-		if (nclst <= MAX_FAT12) fmt = FS_FAT12;
-		if (fmt == 0) return FR_NO_FILESYSTEM;
-
-		/* Boundaries and Limits */
-		fs->n_fatent = nclst + 2;						/* Number of FAT entries */
-		fs->volbase = bsect;							/* Volume start sector */
-		fs->fatbase = bsect + nrsv; 					/* FAT start sector */
-		fs->database = bsect + sysect;					/* Data start sector */
-		if (fmt == FS_FAT32) {
-			if (ld_word(fs->win + BPB_FSVer32) != 0) return FR_NO_FILESYSTEM;	/* (Must be FAT32 revision 0.0) */
-			if (fs->n_rootdir != 0) return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must be 0) */
-			fs->dirbase = ld_dword(fs->win + BPB_RootClus32);	/* Root directory start cluster */
-			szbfat = fs->n_fatent * 4;					/* (Needed FAT size) */
-		} else {
-			if (fs->n_rootdir == 0)	return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must not be 0) */
-			fs->dirbase = fs->fatbase + fasize;			/* Root directory start sector */
-			szbfat = (fmt == FS_FAT16) ?				/* (Needed FAT size) */
-				fs->n_fatent * 2 : fs->n_fatent * 3 / 2 + (fs->n_fatent & 1);
-		}
-		if (fs->fsize < (szbfat + (SS(fs) - 1)) / SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_FATSz must not be less than the size needed) */
-
-#if !FF_FS_READONLY
-		/* Get FSInfo if available */
-		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
-		fs->fsi_flag = 0x80;
-#if (FF_FS_NOFSINFO & 3) != 3
-		if (fmt == FS_FAT32				/* Allow to update FSInfo only if BPB_FSInfo32 == 1 */
-			&& ld_word(fs->win + BPB_FSInfo32) == 1
-			&& move_window(fs, bsect + 1) == FR_OK)
-		{
-			fs->fsi_flag = 0;
-			if (ld_word(fs->win + BS_55AA) == 0xAA55	/* Load FSInfo data if available */
-				&& ld_dword(fs->win + FSI_LeadSig) == 0x41615252
-				&& ld_dword(fs->win + FSI_StrucSig) == 0x61417272)
-			{
-#if (FF_FS_NOFSINFO & 1) == 0
-				fs->free_clst = ld_dword(fs->win + FSI_Free_Count);
-#endif
-#if (FF_FS_NOFSINFO & 2) == 0
-				fs->last_clst = ld_dword(fs->win + FSI_Nxt_Free);
-#endif
-			}
-		}
-#endif	/* (FF_FS_NOFSINFO & 3) != 3 */
-#endif	/* !FF_FS_READONLY */
-	}
-
-	fs->fs_type = (BYTE)fmt;/* FAT sub-type */
-	fs->id = ++Fsid;		/* Volume mount ID */
-#if FF_USE_LFN == 1
-	fs->lfnbuf = LfnBuf;	/* Static LFN working buffer */
-#if FF_FS_EXFAT
-	fs->dirbuf = DirBuf;	/* Static directory block scratchpad buuffer */
-#endif
-#endif
-#if FF_FS_RPATH != 0
-	fs->cdir = 0;			/* Initialize current directory */
-#endif
-#if FF_FS_LOCK != 0			/* Clear file lock semaphores */
-	clear_lock(fs);
-#endif
-	return FR_OK;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Check if the file/directory object is valid or not                    */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT validate (	/* Returns FR_OK or FR_INVALID_OBJECT */
-	FFOBJID* obj,			/* Pointer to the FFOBJID, the 1st member in the FIL/DIR object, to check validity */
-	FATFS** rfs				/* Pointer to pointer to the owner filesystem object to return */
-)
-{
-	FRESULT res = FR_INVALID_OBJECT;
-
-
-	if (obj && obj->fs && obj->fs->fs_type && obj->id == obj->fs->id) {	/* Test if the object is valid */
-#if FF_FS_REENTRANT
-		if (lock_fs(obj->fs)) {	/* Obtain the filesystem object */
-			if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
-				res = FR_OK;
-			} else {
-				unlock_fs(obj->fs, FR_OK);
-			}
-		} else {
-			res = FR_TIMEOUT;
-		}
-#else
-		if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
-			res = FR_OK;
-		}
-#endif
-	}
-	*rfs = (res == FR_OK) ? obj->fs : 0;	/* Corresponding filesystem object */
-	return res;
-}
-
-
-
-
-/*---------------------------------------------------------------------------
-
-   Public Functions (FatFs API)
-
-----------------------------------------------------------------------------*/
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Mount/Unmount a Logical Drive                                         */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_mount (
-	FATFS* fs,			/* Pointer to the filesystem object to be registered (NULL:unmount)*/
-	const TCHAR* path,	/* Logical drive number to be mounted/unmounted */
-	BYTE opt			/* Mount option: 0=Do not mount (delayed mount), 1=Mount immediately */
-)
-{
-	FATFS *cfs;
-	int vol;
-	FRESULT res;
-	const TCHAR *rp = path;
-
-
-	/* Get logical drive number */
-	vol = get_ldnumber(&rp);
-	if (vol < 0) return FR_INVALID_DRIVE;
-	cfs = FatFs[vol];					/* Pointer to fs object */
-
-	if (cfs) {
-#if FF_FS_LOCK != 0
-		clear_lock(cfs);
-#endif
-#if FF_FS_REENTRANT						/* Discard sync object of the current volume */
-		if (!ff_del_syncobj(cfs->sobj)) return FR_INT_ERR;
-#endif
-		cfs->fs_type = 0;				/* Clear old fs object */
-	}
-
-	if (fs) {
-		fs->fs_type = 0;				/* Clear new fs object */
-#if FF_FS_REENTRANT						/* Create sync object for the new volume */
-		if (!ff_cre_syncobj((BYTE)vol, &fs->sobj)) return FR_INT_ERR;
-#endif
-	}
-	FatFs[vol] = fs;					/* Register new fs object */
-
-	if (opt == 0) return FR_OK;			/* Do not mount now, it will be mounted later */
-
-	res = mount_volume(&path, &fs, 0);	/* Force mounted the volume */
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Open or Create a File                                                 */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_open (
-	FIL* fp,			/* Pointer to the blank file object */
-	const TCHAR* path,	/* Pointer to the file name */
-	BYTE mode			/* Access mode and open mode flags */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-#if !FF_FS_READONLY
-	DWORD cl, bcs, clst, tm;
-	LBA_t sc;
-	FSIZE_t ofs;
-#endif
-	DEF_NAMBUF
-
-
-	if (!fp) return FR_INVALID_OBJECT;
-
-	/* Get logical drive number */
-	mode &= FF_FS_READONLY ? FA_READ : FA_READ | FA_WRITE | FA_CREATE_ALWAYS | FA_CREATE_NEW | FA_OPEN_ALWAYS | FA_OPEN_APPEND;
-	res = mount_volume(&path, &fs, mode);
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-#if !FF_FS_READONLY	/* Read/Write configuration */
-		if (res == FR_OK) {
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Origin directory itself? */
-				res = FR_INVALID_NAME;
-			}
-#if FF_FS_LOCK != 0
-			else {
-				res = chk_lock(&dj, (mode & ~FA_READ) ? 1 : 0);		/* Check if the file can be used */
-			}
-#endif
-		}
-		/* Create or Open a file */
-		if (mode & (FA_CREATE_ALWAYS | FA_OPEN_ALWAYS | FA_CREATE_NEW)) {
-			if (res != FR_OK) {					/* No file, create new */
-				if (res == FR_NO_FILE) {		/* There is no file to open, create a new entry */
-#if FF_FS_LOCK != 0
-					res = enq_lock() ? dir_register(&dj) : FR_TOO_MANY_OPEN_FILES;
-#else
-					res = dir_register(&dj);
-#endif
-				}
-				mode |= FA_CREATE_ALWAYS;		/* File is created */
-			}
-			else {								/* Any object with the same name is already existing */
-				if (dj.obj.attr & (AM_RDO | AM_DIR)) {	/* Cannot overwrite it (R/O or DIR) */
-					res = FR_DENIED;
-				} else {
-					if (mode & FA_CREATE_NEW) res = FR_EXIST;	/* Cannot create as new file */
-				}
-			}
-			if (res == FR_OK && (mode & FA_CREATE_ALWAYS)) {	/* Truncate the file if overwrite mode */
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {
-					/* Get current allocation info */
-					fp->obj.fs = fs;
-					init_alloc_info(fs, &fp->obj);
-					/* Set directory entry block initial state */
-					memset(fs->dirbuf + 2, 0, 30);	/* Clear 85 entry except for NumSec */
-					memset(fs->dirbuf + 38, 0, 26);	/* Clear C0 entry except for NumName and NameHash */
-					fs->dirbuf[XDIR_Attr] = AM_ARC;
-					st_dword(fs->dirbuf + XDIR_CrtTime, GET_FATTIME());
-					fs->dirbuf[XDIR_GenFlags] = 1;
-					res = store_xdir(&dj);
-					if (res == FR_OK && fp->obj.sclust != 0) {	/* Remove the cluster chain if exist */
-						res = remove_chain(&fp->obj, fp->obj.sclust, 0);
-						fs->last_clst = fp->obj.sclust - 1;		/* Reuse the cluster hole */
-					}
-				} else
-#endif
-				{
-					/* Set directory entry initial state */
-					tm = GET_FATTIME();					/* Set created time */
-					st_dword(dj.dir + DIR_CrtTime, tm);
-					st_dword(dj.dir + DIR_ModTime, tm);
-					cl = ld_clust(fs, dj.dir);			/* Get current cluster chain */
-					dj.dir[DIR_Attr] = AM_ARC;			/* Reset attribute */
-					st_clust(fs, dj.dir, 0);			/* Reset file allocation info */
-					st_dword(dj.dir + DIR_FileSize, 0);
-					fs->wflag = 1;
-					if (cl != 0) {						/* Remove the cluster chain if exist */
-						sc = fs->winsect;
-						res = remove_chain(&dj.obj, cl, 0);
-						if (res == FR_OK) {
-							res = move_window(fs, sc);
-							fs->last_clst = cl - 1;		/* Reuse the cluster hole */
-						}
-					}
-				}
-			}
-		}
-		else {	/* Open an existing file */
-			if (res == FR_OK) {					/* Is the object exsiting? */
-				if (dj.obj.attr & AM_DIR) {		/* File open against a directory */
-					res = FR_NO_FILE;
-				} else {
-					if ((mode & FA_WRITE) && (dj.obj.attr & AM_RDO)) { /* Write mode open against R/O file */
-						res = FR_DENIED;
-					}
-				}
-			}
-		}
-		if (res == FR_OK) {
-			if (mode & FA_CREATE_ALWAYS) mode |= FA_MODIFIED;	/* Set file change flag if created or overwritten */
-			fp->dir_sect = fs->winsect;			/* Pointer to the directory entry */
-			fp->dir_ptr = dj.dir;
-#if FF_FS_LOCK != 0
-			fp->obj.lockid = inc_lock(&dj, (mode & ~FA_READ) ? 1 : 0);	/* Lock the file for this session */
-			if (fp->obj.lockid == 0) res = FR_INT_ERR;
-#endif
-		}
-#else		/* R/O configuration */
-		if (res == FR_OK) {
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it origin directory itself? */
-				res = FR_INVALID_NAME;
-			} else {
-				if (dj.obj.attr & AM_DIR) {		/* Is it a directory? */
-					res = FR_NO_FILE;
-				}
-			}
-		}
-#endif
-
-		if (res == FR_OK) {
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				fp->obj.c_scl = dj.obj.sclust;							/* Get containing directory info */
-				fp->obj.c_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
-				fp->obj.c_ofs = dj.blk_ofs;
-				init_alloc_info(fs, &fp->obj);
-			} else
-#endif
-			{
-				fp->obj.sclust = ld_clust(fs, dj.dir);					/* Get object allocation info */
-				fp->obj.objsize = ld_dword(dj.dir + DIR_FileSize);
-			}
-#if FF_USE_FASTSEEK
-			fp->cltbl = 0;		/* Disable fast seek mode */
-#endif
-			fp->obj.fs = fs;	/* Validate the file object */
-			fp->obj.id = fs->id;
-			fp->flag = mode;	/* Set file access mode */
-			fp->err = 0;		/* Clear error flag */
-			fp->sect = 0;		/* Invalidate current data sector */
-			fp->fptr = 0;		/* Set file pointer top of the file */
-#if !FF_FS_READONLY
-#if !FF_FS_TINY
-			memset(fp->buf, 0, sizeof fp->buf);	/* Clear sector buffer */
-#endif
-			if ((mode & FA_SEEKEND) && fp->obj.objsize > 0) {	/* Seek to end of file if FA_OPEN_APPEND is specified */
-				fp->fptr = fp->obj.objsize;			/* Offset to seek */
-				bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size in byte */
-				clst = fp->obj.sclust;				/* Follow the cluster chain */
-				for (ofs = fp->obj.objsize; res == FR_OK && ofs > bcs; ofs -= bcs) {
-					clst = get_fat(&fp->obj, clst);
-					if (clst <= 1) res = FR_INT_ERR;
-					if (clst == 0xFFFFFFFF) res = FR_DISK_ERR;
-				}
-				fp->clust = clst;
-				if (res == FR_OK && ofs % SS(fs)) {	/* Fill sector buffer if not on the sector boundary */
-					sc = clst2sect(fs, clst);
-					if (sc == 0) {
-						res = FR_INT_ERR;
-					} else {
-						fp->sect = sc + (DWORD)(ofs / SS(fs));
-#if !FF_FS_TINY
-						if (disk_read(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) res = FR_DISK_ERR;
-#endif
-					}
-				}
-#if FF_FS_LOCK != 0
-				if (res != FR_OK) dec_lock(fp->obj.lockid); /* Decrement file open counter if seek failed */
-#endif
-			}
-#endif
-		}
-
-		FREE_NAMBUF();
-	}
-
-	if (res != FR_OK) fp->obj.fs = 0;	/* Invalidate file object on error */
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Read File                                                             */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_read (
-	FIL* fp, 	/* Open file to be read */
-	void* buff,	/* Data buffer to store the read data */
-	UINT btr,	/* Number of bytes to read */
-	UINT* br	/* Number of bytes read */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst;
-	LBA_t sect;
-	FSIZE_t remain;
-	UINT rcnt, cc, csect;
-	BYTE *rbuff = (BYTE*)buff;
-
-
-	*br = 0;	/* Clear read byte counter */
-	res = validate(&fp->obj, &fs);				/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
-	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED); /* Check access mode */
-	remain = fp->obj.objsize - fp->fptr;
-	if (btr > remain) btr = (UINT)remain;		/* Truncate btr by remaining bytes */
-
-	for ( ; btr > 0; btr -= rcnt, *br += rcnt, rbuff += rcnt, fp->fptr += rcnt) {	/* Repeat until btr bytes read */
-		if (fp->fptr % SS(fs) == 0) {			/* On the sector boundary? */
-			csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
-			if (csect == 0) {					/* On the cluster boundary? */
-				if (fp->fptr == 0) {			/* On the top of the file? */
-					clst = fp->obj.sclust;		/* Follow cluster chain from the origin */
-				} else {						/* Middle or end of the file */
-#if FF_USE_FASTSEEK
-					if (fp->cltbl) {
-						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
-					} else
-#endif
-					{
-						clst = get_fat(&fp->obj, fp->clust);	/* Follow cluster chain on the FAT */
-					}
-				}
-				if (clst < 2) ABORT(fs, FR_INT_ERR);
-				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-				fp->clust = clst;				/* Update current cluster */
-			}
-			sect = clst2sect(fs, fp->clust);	/* Get current sector */
-			if (sect == 0) ABORT(fs, FR_INT_ERR);
-			sect += csect;
-			cc = btr / SS(fs);					/* When remaining bytes >= sector size, */
-			if (cc > 0) {						/* Read maximum contiguous sectors directly */
-				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
-					cc = fs->csize - csect;
-				}
-				if (disk_read(fs->pdrv, rbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
-#if !FF_FS_READONLY && FF_FS_MINIMIZE <= 2		/* Replace one of the read sectors with cached data if it contains a dirty sector */
-#if FF_FS_TINY
-				if (fs->wflag && fs->winsect - sect < cc) {
-					memcpy(rbuff + ((fs->winsect - sect) * SS(fs)), fs->win, SS(fs));
-				}
-#else
-				if ((fp->flag & FA_DIRTY) && fp->sect - sect < cc) {
-					memcpy(rbuff + ((fp->sect - sect) * SS(fs)), fp->buf, SS(fs));
-				}
-#endif
-#endif
-				rcnt = SS(fs) * cc;				/* Number of bytes transferred */
-				continue;
-			}
-#if !FF_FS_TINY
-			if (fp->sect != sect) {			/* Load data sector if not in cache */
-#if !FF_FS_READONLY
-				if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
-					if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-					fp->flag &= (BYTE)~FA_DIRTY;
-				}
-#endif
-				if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK)	ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
-			}
-#endif
-			fp->sect = sect;
-		}
-		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
-		if (rcnt > btr) rcnt = btr;					/* Clip it by btr if needed */
-#if FF_FS_TINY
-		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
-		memcpy(rbuff, fs->win + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
-#else
-		memcpy(rbuff, fp->buf + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
-#endif
-	}
-
-	LEAVE_FF(fs, FR_OK);
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Write File                                                            */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_write (
-	FIL* fp,			/* Open file to be written */
-	const void* buff,	/* Data to be written */
-	UINT btw,			/* Number of bytes to write */
-	UINT* bw			/* Number of bytes written */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst;
-	LBA_t sect;
-	UINT wcnt, cc, csect;
-	const BYTE *wbuff = (const BYTE*)buff;
-
-
-	*bw = 0;	/* Clear write byte counter */
-	res = validate(&fp->obj, &fs);			/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
-	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
-
-	/* Check fptr wrap-around (file size cannot reach 4 GiB at FAT volume) */
-	if ((!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) && (DWORD)(fp->fptr + btw) < (DWORD)fp->fptr) {
-		btw = (UINT)(0xFFFFFFFF - (DWORD)fp->fptr);
-	}
-
-	for ( ; btw > 0; btw -= wcnt, *bw += wcnt, wbuff += wcnt, fp->fptr += wcnt, fp->obj.objsize = (fp->fptr > fp->obj.objsize) ? fp->fptr : fp->obj.objsize) {	/* Repeat until all data written */
-		if (fp->fptr % SS(fs) == 0) {		/* On the sector boundary? */
-			csect = (UINT)(fp->fptr / SS(fs)) & (fs->csize - 1);	/* Sector offset in the cluster */
-			if (csect == 0) {				/* On the cluster boundary? */
-				if (fp->fptr == 0) {		/* On the top of the file? */
-					clst = fp->obj.sclust;	/* Follow from the origin */
-					if (clst == 0) {		/* If no cluster is allocated, */
-						clst = create_chain(&fp->obj, 0);	/* create a new cluster chain */
-					}
-				} else {					/* On the middle or end of the file */
-#if FF_USE_FASTSEEK
-					if (fp->cltbl) {
-						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
-					} else
-#endif
-					{
-						clst = create_chain(&fp->obj, fp->clust);	/* Follow or stretch cluster chain on the FAT */
-					}
-				}
-				if (clst == 0) break;		/* Could not allocate a new cluster (disk full) */
-				if (clst == 1) ABORT(fs, FR_INT_ERR);
-				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-				fp->clust = clst;			/* Update current cluster */
-				if (fp->obj.sclust == 0) fp->obj.sclust = clst;	/* Set start cluster if the first write */
-			}
-#if FF_FS_TINY
-			if (fs->winsect == fp->sect && sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Write-back sector cache */
-#else
-			if (fp->flag & FA_DIRTY) {		/* Write-back sector cache */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			sect = clst2sect(fs, fp->clust);	/* Get current sector */
-			if (sect == 0) ABORT(fs, FR_INT_ERR);
-			sect += csect;
-			cc = btw / SS(fs);				/* When remaining bytes >= sector size, */
-			if (cc > 0) {					/* Write maximum contiguous sectors directly */
-				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
-					cc = fs->csize - csect;
-				}
-				if (disk_write(fs->pdrv, wbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
-#if FF_FS_MINIMIZE <= 2
-#if FF_FS_TINY
-				if (fs->winsect - sect < cc) {	/* Refill sector cache if it gets invalidated by the direct write */
-					memcpy(fs->win, wbuff + ((fs->winsect - sect) * SS(fs)), SS(fs));
-					fs->wflag = 0;
-				}
-#else
-				if (fp->sect - sect < cc) { /* Refill sector cache if it gets invalidated by the direct write */
-					memcpy(fp->buf, wbuff + ((fp->sect - sect) * SS(fs)), SS(fs));
-					fp->flag &= (BYTE)~FA_DIRTY;
-				}
-#endif
-#endif
-				wcnt = SS(fs) * cc;		/* Number of bytes transferred */
-				continue;
-			}
-#if FF_FS_TINY
-			if (fp->fptr >= fp->obj.objsize) {	/* Avoid silly cache filling on the growing edge */
-				if (sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);
-				fs->winsect = sect;
-			}
-#else
-			if (fp->sect != sect && 		/* Fill sector cache with file data */
-				fp->fptr < fp->obj.objsize &&
-				disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) {
-					ABORT(fs, FR_DISK_ERR);
-			}
-#endif
-			fp->sect = sect;
-		}
-		wcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
-		if (wcnt > btw) wcnt = btw;					/* Clip it by btw if needed */
-#if FF_FS_TINY
-		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
-		memcpy(fs->win + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
-		fs->wflag = 1;
-#else
-		memcpy(fp->buf + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
-		fp->flag |= FA_DIRTY;
-#endif
-	}
-
-	fp->flag |= FA_MODIFIED;				/* Set file change flag */
-
-	LEAVE_FF(fs, FR_OK);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Synchronize the File                                                  */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_sync (
-	FIL* fp		/* Open file to be synced */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD tm;
-	BYTE *dir;
-
-
-	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
-	if (res == FR_OK) {
-		if (fp->flag & FA_MODIFIED) {	/* Is there any change to the file? */
-#if !FF_FS_TINY
-			if (fp->flag & FA_DIRTY) {	/* Write-back cached data if needed */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) LEAVE_FF(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			/* Update the directory entry */
-			tm = GET_FATTIME();				/* Modified time */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				res = fill_first_frag(&fp->obj);	/* Fill first fragment on the FAT if needed */
-				if (res == FR_OK) {
-					res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
-				}
-				if (res == FR_OK) {
-					DIR dj;
-					DEF_NAMBUF
-
-					INIT_NAMBUF(fs);
-					res = load_obj_xdir(&dj, &fp->obj);	/* Load directory entry block */
-					if (res == FR_OK) {
-						fs->dirbuf[XDIR_Attr] |= AM_ARC;				/* Set archive attribute to indicate that the file has been changed */
-						fs->dirbuf[XDIR_GenFlags] = fp->obj.stat | 1;	/* Update file allocation information */
-						st_dword(fs->dirbuf + XDIR_FstClus, fp->obj.sclust);		/* Update start cluster */
-						st_qword(fs->dirbuf + XDIR_FileSize, fp->obj.objsize);		/* Update file size */
-						st_qword(fs->dirbuf + XDIR_ValidFileSize, fp->obj.objsize);	/* (FatFs does not support Valid File Size feature) */
-						st_dword(fs->dirbuf + XDIR_ModTime, tm);		/* Update modified time */
-						fs->dirbuf[XDIR_ModTime10] = 0;
-						st_dword(fs->dirbuf + XDIR_AccTime, 0);
-						res = store_xdir(&dj);	/* Restore it to the directory */
-						if (res == FR_OK) {
-							res = sync_fs(fs);
-							fp->flag &= (BYTE)~FA_MODIFIED;
-						}
-					}
-					FREE_NAMBUF();
-				}
-			} else
-#endif
-			{
-				res = move_window(fs, fp->dir_sect);
-				if (res == FR_OK) {
-					dir = fp->dir_ptr;
-					dir[DIR_Attr] |= AM_ARC;						/* Set archive attribute to indicate that the file has been changed */
-					st_clust(fp->obj.fs, dir, fp->obj.sclust);		/* Update file allocation information  */
-					st_dword(dir + DIR_FileSize, (DWORD)fp->obj.objsize);	/* Update file size */
-					st_dword(dir + DIR_ModTime, tm);				/* Update modified time */
-					st_word(dir + DIR_LstAccDate, 0);
-					fs->wflag = 1;
-					res = sync_fs(fs);					/* Restore it to the directory */
-					fp->flag &= (BYTE)~FA_MODIFIED;
-				}
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Close File                                                            */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_close (
-	FIL* fp		/* Open file to be closed */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-
-#if !FF_FS_READONLY
-	res = f_sync(fp);					/* Flush cached data */
-	if (res == FR_OK)
-#endif
-	{
-		res = validate(&fp->obj, &fs);	/* Lock volume */
-		if (res == FR_OK) {
-#if FF_FS_LOCK != 0
-			res = dec_lock(fp->obj.lockid);		/* Decrement file open counter */
-			if (res == FR_OK) fp->obj.fs = 0;	/* Invalidate file object */
-#else
-			fp->obj.fs = 0;	/* Invalidate file object */
-#endif
-#if FF_FS_REENTRANT
-			unlock_fs(fs, FR_OK);		/* Unlock volume */
-#endif
-		}
-	}
-	return res;
-}
-
-
-
-
-#if FF_FS_RPATH >= 1
-/*-----------------------------------------------------------------------*/
-/* Change Current Directory or Current Drive, Get Current Directory      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_chdrive (
-	const TCHAR* path		/* Drive number to set */
-)
-{
-	int vol;
-
-
-	/* Get logical drive number */
-	vol = get_ldnumber(&path);
-	if (vol < 0) return FR_INVALID_DRIVE;
-	CurrVol = (BYTE)vol;	/* Set it as current volume */
-
-	return FR_OK;
-}
-
-
-
-FRESULT f_chdir (
-	const TCHAR* path	/* Pointer to the directory path */
-)
-{
-#if FF_STR_VOLUME_ID == 2
-	UINT i;
-#endif
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);		/* Follow the path */
-		if (res == FR_OK) {					/* Follow completed */
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it the start directory itself? */
-				fs->cdir = dj.obj.sclust;
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {
-					fs->cdc_scl = dj.obj.c_scl;
-					fs->cdc_size = dj.obj.c_size;
-					fs->cdc_ofs = dj.obj.c_ofs;
-				}
-#endif
-			} else {
-				if (dj.obj.attr & AM_DIR) {	/* It is a sub-directory */
-#if FF_FS_EXFAT
-					if (fs->fs_type == FS_EXFAT) {
-						fs->cdir = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Sub-directory cluster */
-						fs->cdc_scl = dj.obj.sclust;						/* Save containing directory information */
-						fs->cdc_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
-						fs->cdc_ofs = dj.blk_ofs;
-					} else
-#endif
-					{
-						fs->cdir = ld_clust(fs, dj.dir);					/* Sub-directory cluster */
-					}
-				} else {
-					res = FR_NO_PATH;		/* Reached but a file */
-				}
-			}
-		}
-		FREE_NAMBUF();
-		if (res == FR_NO_FILE) res = FR_NO_PATH;
-#if FF_STR_VOLUME_ID == 2	/* Also current drive is changed if in Unix style volume ID */
-		if (res == FR_OK) {
-			for (i = FF_VOLUMES - 1; i && fs != FatFs[i]; i--) ;	/* Set current drive */
-			CurrVol = (BYTE)i;
-		}
-#endif
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-#if FF_FS_RPATH >= 2
-FRESULT f_getcwd (
-	TCHAR* buff,	/* Pointer to the directory path */
-	UINT len		/* Size of buff in unit of TCHAR */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	UINT i, n;
-	DWORD ccl;
-	TCHAR *tp = buff;
-#if FF_VOLUMES >= 2
-	UINT vl;
-#if FF_STR_VOLUME_ID
-	const char *vp;
-#endif
-#endif
-	FILINFO fno;
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	buff[0] = 0;	/* Set null string to get current volume */
-	res = mount_volume((const TCHAR**)&buff, &fs, 0);	/* Get current volume */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-
-		/* Follow parent directories and create the path */
-		i = len;			/* Bottom of buffer (directory stack base) */
-		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* (Cannot do getcwd on exFAT and returns root path) */
-			dj.obj.sclust = fs->cdir;				/* Start to follow upper directory from current directory */
-			while ((ccl = dj.obj.sclust) != 0) {	/* Repeat while current directory is a sub-directory */
-				res = dir_sdi(&dj, 1 * SZDIRE);	/* Get parent directory */
-				if (res != FR_OK) break;
-				res = move_window(fs, dj.sect);
-				if (res != FR_OK) break;
-				dj.obj.sclust = ld_clust(fs, dj.dir);	/* Goto parent directory */
-				res = dir_sdi(&dj, 0);
-				if (res != FR_OK) break;
-				do {							/* Find the entry links to the child directory */
-					res = DIR_READ_FILE(&dj);
-					if (res != FR_OK) break;
-					if (ccl == ld_clust(fs, dj.dir)) break;	/* Found the entry */
-					res = dir_next(&dj, 0);
-				} while (res == FR_OK);
-				if (res == FR_NO_FILE) res = FR_INT_ERR;/* It cannot be 'not found'. */
-				if (res != FR_OK) break;
-				get_fileinfo(&dj, &fno);		/* Get the directory name and push it to the buffer */
-				for (n = 0; fno.fname[n]; n++) ;	/* Name length */
-				if (i < n + 1) {	/* Insufficient space to store the path name? */
-					res = FR_NOT_ENOUGH_CORE; break;
-				}
-				while (n) buff[--i] = fno.fname[--n];	/* Stack the name */
-				buff[--i] = '/';
-			}
-		}
-		if (res == FR_OK) {
-			if (i == len) buff[--i] = '/';	/* Is it the root-directory? */
-#if FF_VOLUMES >= 2			/* Put drive prefix */
-			vl = 0;
-#if FF_STR_VOLUME_ID >= 1	/* String volume ID */
-			for (n = 0, vp = (const char*)VolumeStr[CurrVol]; vp[n]; n++) ;
-			if (i >= n + 2) {
-				if (FF_STR_VOLUME_ID == 2) *tp++ = (TCHAR)'/';
-				for (vl = 0; vl < n; *tp++ = (TCHAR)vp[vl], vl++) ;
-				if (FF_STR_VOLUME_ID == 1) *tp++ = (TCHAR)':';
-				vl++;
-			}
-#else						/* Numeric volume ID */
-			if (i >= 3) {
-				*tp++ = (TCHAR)'0' + CurrVol;
-				*tp++ = (TCHAR)':';
-				vl = 2;
-			}
-#endif
-			if (vl == 0) res = FR_NOT_ENOUGH_CORE;
-#endif
-			/* Add current directory path */
-			if (res == FR_OK) {
-				do *tp++ = buff[i++]; while (i < len);	/* Copy stacked path string */
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	*tp = 0;
-	LEAVE_FF(fs, res);
-}
-
-#endif /* FF_FS_RPATH >= 2 */
-#endif /* FF_FS_RPATH >= 1 */
-
-
-
-#if FF_FS_MINIMIZE <= 2
-/*-----------------------------------------------------------------------*/
-/* Seek File Read/Write Pointer                                          */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_lseek (
-	FIL* fp,		/* Pointer to the file object */
-	FSIZE_t ofs		/* File pointer from top of file */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst, bcs;
-	LBA_t nsect;
-	FSIZE_t ifptr;
-#if FF_USE_FASTSEEK
-	DWORD cl, pcl, ncl, tcl, tlen, ulen;
-	DWORD *tbl;
-	LBA_t dsc;
-#endif
-
-	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
-	if (res == FR_OK) res = (FRESULT)fp->err;
-#if FF_FS_EXFAT && !FF_FS_READONLY
-	if (res == FR_OK && fs->fs_type == FS_EXFAT) {
-		res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
-	}
-#endif
-	if (res != FR_OK) LEAVE_FF(fs, res);
-
-#if FF_USE_FASTSEEK
-	if (fp->cltbl) {	/* Fast seek */
-		if (ofs == CREATE_LINKMAP) {	/* Create CLMT */
-			tbl = fp->cltbl;
-			tlen = *tbl++; ulen = 2;	/* Given table size and required table size */
-			cl = fp->obj.sclust;		/* Origin of the chain */
-			if (cl != 0) {
-				do {
-					/* Get a fragment */
-					tcl = cl; ncl = 0; ulen += 2;	/* Top, length and used items */
-					do {
-						pcl = cl; ncl++;
-						cl = get_fat(&fp->obj, cl);
-						if (cl <= 1) ABORT(fs, FR_INT_ERR);
-						if (cl == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-					} while (cl == pcl + 1);
-					if (ulen <= tlen) {		/* Store the length and top of the fragment */
-						*tbl++ = ncl; *tbl++ = tcl;
-					}
-				} while (cl < fs->n_fatent);	/* Repeat until end of chain */
-			}
-			*fp->cltbl = ulen;	/* Number of items used */
-			if (ulen <= tlen) {
-				*tbl = 0;		/* Terminate table */
-			} else {
-				res = FR_NOT_ENOUGH_CORE;	/* Given table size is smaller than required */
-			}
-		} else {						/* Fast seek */
-			if (ofs > fp->obj.objsize) ofs = fp->obj.objsize;	/* Clip offset at the file size */
-			fp->fptr = ofs;				/* Set file pointer */
-			if (ofs > 0) {
-				fp->clust = clmt_clust(fp, ofs - 1);
-				dsc = clst2sect(fs, fp->clust);
-				if (dsc == 0) ABORT(fs, FR_INT_ERR);
-				dsc += (DWORD)((ofs - 1) / SS(fs)) & (fs->csize - 1);
-				if (fp->fptr % SS(fs) && dsc != fp->sect) {	/* Refill sector cache if needed */
-#if !FF_FS_TINY
-#if !FF_FS_READONLY
-					if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
-						if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-						fp->flag &= (BYTE)~FA_DIRTY;
-					}
-#endif
-					if (disk_read(fs->pdrv, fp->buf, dsc, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Load current sector */
-#endif
-					fp->sect = dsc;
-				}
-			}
-		}
-	} else
-#endif
-
-	/* Normal Seek */
-	{
-#if FF_FS_EXFAT
-		if (fs->fs_type != FS_EXFAT && ofs >= 0x100000000) ofs = 0xFFFFFFFF;	/* Clip at 4 GiB - 1 if at FATxx */
-#endif
-		if (ofs > fp->obj.objsize && (FF_FS_READONLY || !(fp->flag & FA_WRITE))) {	/* In read-only mode, clip offset with the file size */
-			ofs = fp->obj.objsize;
-		}
-		ifptr = fp->fptr;
-		fp->fptr = nsect = 0;
-		if (ofs > 0) {
-			bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size (byte) */
-			if (ifptr > 0 &&
-				(ofs - 1) / bcs >= (ifptr - 1) / bcs) {	/* When seek to same or following cluster, */
-				fp->fptr = (ifptr - 1) & ~(FSIZE_t)(bcs - 1);	/* start from the current cluster */
-				ofs -= fp->fptr;
-				clst = fp->clust;
-			} else {									/* When seek to back cluster, */
-				clst = fp->obj.sclust;					/* start from the first cluster */
-#if !FF_FS_READONLY
-				if (clst == 0) {						/* If no cluster chain, create a new chain */
-					clst = create_chain(&fp->obj, 0);
-					if (clst == 1) ABORT(fs, FR_INT_ERR);
-					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-					fp->obj.sclust = clst;
-				}
-#endif
-				fp->clust = clst;
-			}
-			if (clst != 0) {
-				while (ofs > bcs) {						/* Cluster following loop */
-					ofs -= bcs; fp->fptr += bcs;
-#if !FF_FS_READONLY
-					if (fp->flag & FA_WRITE) {			/* Check if in write mode or not */
-						if (FF_FS_EXFAT && fp->fptr > fp->obj.objsize) {	/* No FAT chain object needs correct objsize to generate FAT value */
-							fp->obj.objsize = fp->fptr;
-							fp->flag |= FA_MODIFIED;
-						}
-						clst = create_chain(&fp->obj, clst);	/* Follow chain with forceed stretch */
-						if (clst == 0) {				/* Clip file size in case of disk full */
-							ofs = 0; break;
-						}
-					} else
-#endif
-					{
-						clst = get_fat(&fp->obj, clst);	/* Follow cluster chain if not in write mode */
-					}
-					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-					if (clst <= 1 || clst >= fs->n_fatent) ABORT(fs, FR_INT_ERR);
-					fp->clust = clst;
-				}
-				fp->fptr += ofs;
-				if (ofs % SS(fs)) {
-					nsect = clst2sect(fs, clst);	/* Current sector */
-					if (nsect == 0) ABORT(fs, FR_INT_ERR);
-					nsect += (DWORD)(ofs / SS(fs));
-				}
-			}
-		}
-		if (!FF_FS_READONLY && fp->fptr > fp->obj.objsize) {	/* Set file change flag if the file size is extended */
-			fp->obj.objsize = fp->fptr;
-			fp->flag |= FA_MODIFIED;
-		}
-		if (fp->fptr % SS(fs) && nsect != fp->sect) {	/* Fill sector cache if needed */
-#if !FF_FS_TINY
-#if !FF_FS_READONLY
-			if (fp->flag & FA_DIRTY) {			/* Write-back dirty sector cache */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			if (disk_read(fs->pdrv, fp->buf, nsect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
-#endif
-			fp->sect = nsect;
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-#if FF_FS_MINIMIZE <= 1
-/*-----------------------------------------------------------------------*/
-/* Create a Directory Object                                             */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_opendir (
-	DIR* dp,			/* Pointer to directory object to create */
-	const TCHAR* path	/* Pointer to the directory path */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	if (!dp) return FR_INVALID_OBJECT;
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-	if (res == FR_OK) {
-		dp->obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(dp, path);			/* Follow the path to the directory */
-		if (res == FR_OK) {						/* Follow completed */
-			if (!(dp->fn[NSFLAG] & NS_NONAME)) {	/* It is not the origin directory itself */
-				if (dp->obj.attr & AM_DIR) {		/* This object is a sub-directory */
-#if FF_FS_EXFAT
-					if (fs->fs_type == FS_EXFAT) {
-						dp->obj.c_scl = dp->obj.sclust;							/* Get containing directory inforamation */
-						dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
-						dp->obj.c_ofs = dp->blk_ofs;
-						init_alloc_info(fs, &dp->obj);	/* Get object allocation info */
-					} else
-#endif
-					{
-						dp->obj.sclust = ld_clust(fs, dp->dir);	/* Get object allocation info */
-					}
-				} else {						/* This object is a file */
-					res = FR_NO_PATH;
-				}
-			}
-			if (res == FR_OK) {
-				dp->obj.id = fs->id;
-				res = dir_sdi(dp, 0);			/* Rewind directory */
-#if FF_FS_LOCK != 0
-				if (res == FR_OK) {
-					if (dp->obj.sclust != 0) {
-						dp->obj.lockid = inc_lock(dp, 0);	/* Lock the sub directory */
-						if (!dp->obj.lockid) res = FR_TOO_MANY_OPEN_FILES;
-					} else {
-						dp->obj.lockid = 0;	/* Root directory need not to be locked */
-					}
-				}
-#endif
-			}
-		}
-		FREE_NAMBUF();
-		if (res == FR_NO_FILE) res = FR_NO_PATH;
-	}
-	if (res != FR_OK) dp->obj.fs = 0;		/* Invalidate the directory object if function faild */
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Close Directory                                                       */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_closedir (
-	DIR *dp		/* Pointer to the directory object to be closed */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-
-
-	res = validate(&dp->obj, &fs);	/* Check validity of the file object */
-	if (res == FR_OK) {
-#if FF_FS_LOCK != 0
-		if (dp->obj.lockid) res = dec_lock(dp->obj.lockid);	/* Decrement sub-directory open counter */
-		if (res == FR_OK) dp->obj.fs = 0;	/* Invalidate directory object */
-#else
-		dp->obj.fs = 0;	/* Invalidate directory object */
-#endif
-#if FF_FS_REENTRANT
-		unlock_fs(fs, FR_OK);		/* Unlock volume */
-#endif
-	}
-	return res;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Read Directory Entries in Sequence                                    */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_readdir (
-	DIR* dp,			/* Pointer to the open directory object */
-	FILINFO* fno		/* Pointer to file information to return */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	res = validate(&dp->obj, &fs);	/* Check validity of the directory object */
-	if (res == FR_OK) {
-		if (!fno) {
-			res = dir_sdi(dp, 0);			/* Rewind the directory object */
-		} else {
-			INIT_NAMBUF(fs);
-			res = DIR_READ_FILE(dp);		/* Read an item */
-			if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory */
-			if (res == FR_OK) {				/* A valid entry is found */
-				get_fileinfo(dp, fno);		/* Get the object information */
-				res = dir_next(dp, 0);		/* Increment index for next */
-				if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory now */
-			}
-			FREE_NAMBUF();
-		}
-	}
-	LEAVE_FF(fs, res);
-}
-
-
-
-#if FF_USE_FIND
-/*-----------------------------------------------------------------------*/
-/* Find Next File                                                        */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_findnext (
-	DIR* dp,		/* Pointer to the open directory object */
-	FILINFO* fno	/* Pointer to the file information structure */
-)
-{
-	FRESULT res;
-
-
-	for (;;) {
-		res = f_readdir(dp, fno);		/* Get a directory item */
-		if (res != FR_OK || !fno || !fno->fname[0]) break;	/* Terminate if any error or end of directory */
-		if (pattern_match(dp->pat, fno->fname, 0, FIND_RECURS)) break;		/* Test for the file name */
-#if FF_USE_LFN && FF_USE_FIND == 2
-		if (pattern_match(dp->pat, fno->altname, 0, FIND_RECURS)) break;	/* Test for alternative name if exist */
-#endif
-	}
-	return res;
-}
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Find First File                                                       */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_findfirst (
-	DIR* dp,				/* Pointer to the blank directory object */
-	FILINFO* fno,			/* Pointer to the file information structure */
-	const TCHAR* path,		/* Pointer to the directory to open */
-	const TCHAR* pattern	/* Pointer to the matching pattern */
-)
-{
-	FRESULT res;
-
-
-	dp->pat = pattern;		/* Save pointer to pattern string */
-	res = f_opendir(dp, path);		/* Open the target directory */
-	if (res == FR_OK) {
-		res = f_findnext(dp, fno);	/* Find the first item */
-	}
-	return res;
-}
-
-#endif	/* FF_USE_FIND */
-
-
-
-#if FF_FS_MINIMIZE == 0
-/*-----------------------------------------------------------------------*/
-/* Get File Status                                                       */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_stat (
-	const TCHAR* path,	/* Pointer to the file path */
-	FILINFO* fno		/* Pointer to file information to return */
-)
-{
-	FRESULT res;
-	DIR dj;
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &dj.obj.fs, 0);
-	if (res == FR_OK) {
-		INIT_NAMBUF(dj.obj.fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-		if (res == FR_OK) {				/* Follow completed */
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* It is origin directory */
-				res = FR_INVALID_NAME;
-			} else {							/* Found an object */
-				if (fno) get_fileinfo(&dj, fno);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(dj.obj.fs, res);
-}
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Get Number of Free Clusters                                           */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_getfree (
-	const TCHAR* path,	/* Logical drive number */
-	DWORD* nclst,		/* Pointer to a variable to return number of free clusters */
-	FATFS** fatfs		/* Pointer to return pointer to corresponding filesystem object */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD nfree, clst, stat;
-	LBA_t sect;
-	UINT i;
-	FFOBJID obj;
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-	if (res == FR_OK) {
-		*fatfs = fs;				/* Return ptr to the fs object */
-		/* If free_clst is valid, return it without full FAT scan */
-		if (fs->free_clst <= fs->n_fatent - 2) {
-			*nclst = fs->free_clst;
-		} else {
-			/* Scan FAT to obtain number of free clusters */
-			nfree = 0;
-			if (fs->fs_type == FS_FAT12) {	/* FAT12: Scan bit field FAT entries */
-				clst = 2; obj.fs = fs;
-				do {
-					stat = get_fat(&obj, clst);
-					if (stat == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
-					if (stat == 1) { res = FR_INT_ERR; break; }
-					if (stat == 0) nfree++;
-				} while (++clst < fs->n_fatent);
-			} else {
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {	/* exFAT: Scan allocation bitmap */
-					BYTE bm;
-					UINT b;
-
-					clst = fs->n_fatent - 2;	/* Number of clusters */
-					sect = fs->bitbase;			/* Bitmap sector */
-					i = 0;						/* Offset in the sector */
-					do {	/* Counts numbuer of bits with zero in the bitmap */
-						if (i == 0) {
-							res = move_window(fs, sect++);
-							if (res != FR_OK) break;
-						}
-						for (b = 8, bm = fs->win[i]; b && clst; b--, clst--) {
-							if (!(bm & 1)) nfree++;
-							bm >>= 1;
-						}
-						i = (i + 1) % SS(fs);
-					} while (clst);
-				} else
-#endif
-				{	/* FAT16/32: Scan WORD/DWORD FAT entries */
-					clst = fs->n_fatent;	/* Number of entries */
-					sect = fs->fatbase;		/* Top of the FAT */
-					i = 0;					/* Offset in the sector */
-					do {	/* Counts numbuer of entries with zero in the FAT */
-						if (i == 0) {
-							res = move_window(fs, sect++);
-							if (res != FR_OK) break;
-						}
-						if (fs->fs_type == FS_FAT16) {
-							if (ld_word(fs->win + i) == 0) nfree++;
-							i += 2;
-						} else {
-							if ((ld_dword(fs->win + i) & 0x0FFFFFFF) == 0) nfree++;
-							i += 4;
-						}
-						i %= SS(fs);
-					} while (--clst);
-				}
-			}
-			if (res == FR_OK) {		/* Update parameters if succeeded */
-				*nclst = nfree;			/* Return the free clusters */
-				fs->free_clst = nfree;	/* Now free_clst is valid */
-				fs->fsi_flag |= 1;		/* FAT32: FSInfo is to be updated */
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Truncate File                                                         */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_truncate (
-	FIL* fp		/* Pointer to the file object */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD ncl;
-
-
-	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
-	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
-
-	if (fp->fptr < fp->obj.objsize) {	/* Process when fptr is not on the eof */
-		if (fp->fptr == 0) {	/* When set file size to zero, remove entire cluster chain */
-			res = remove_chain(&fp->obj, fp->obj.sclust, 0);
-			fp->obj.sclust = 0;
-		} else {				/* When truncate a part of the file, remove remaining clusters */
-			ncl = get_fat(&fp->obj, fp->clust);
-			res = FR_OK;
-			if (ncl == 0xFFFFFFFF) res = FR_DISK_ERR;
-			if (ncl == 1) res = FR_INT_ERR;
-			if (res == FR_OK && ncl < fs->n_fatent) {
-				res = remove_chain(&fp->obj, ncl, fp->clust);
-			}
-		}
-		fp->obj.objsize = fp->fptr;	/* Set file size to current read/write point */
-		fp->flag |= FA_MODIFIED;
-#if !FF_FS_TINY
-		if (res == FR_OK && (fp->flag & FA_DIRTY)) {
-			if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) {
-				res = FR_DISK_ERR;
-			} else {
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-		}
-#endif
-		if (res != FR_OK) ABORT(fs, res);
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Delete a File/Directory                                               */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_unlink (
-	const TCHAR* path		/* Pointer to the file or directory path */
-)
-{
-	FRESULT res;
-	DIR dj, sdj;
-	DWORD dclst = 0;
-	FATFS *fs;
-#if FF_FS_EXFAT
-	FFOBJID obj;
-#endif
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, FA_WRITE);
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);		/* Follow the file path */
-		if (FF_FS_RPATH && res == FR_OK && (dj.fn[NSFLAG] & NS_DOT)) {
-			res = FR_INVALID_NAME;			/* Cannot remove dot entry */
-		}
-#if FF_FS_LOCK != 0
-		if (res == FR_OK) res = chk_lock(&dj, 2);	/* Check if it is an open object */
-#endif
-		if (res == FR_OK) {					/* The object is accessible */
-			if (dj.fn[NSFLAG] & NS_NONAME) {
-				res = FR_INVALID_NAME;		/* Cannot remove the origin directory */
-			} else {
-				if (dj.obj.attr & AM_RDO) {
-					res = FR_DENIED;		/* Cannot remove R/O object */
-				}
-			}
-			if (res == FR_OK) {
-#if FF_FS_EXFAT
-				obj.fs = fs;
-				if (fs->fs_type == FS_EXFAT) {
-					init_alloc_info(fs, &obj);
-					dclst = obj.sclust;
-				} else
-#endif
-				{
-					dclst = ld_clust(fs, dj.dir);
-				}
-				if (dj.obj.attr & AM_DIR) {			/* Is it a sub-directory? */
-#if FF_FS_RPATH != 0
-					if (dclst == fs->cdir) {	 	/* Is it the current directory? */
-						res = FR_DENIED;
-					} else
-#endif
-					{
-						sdj.obj.fs = fs;			/* Open the sub-directory */
-						sdj.obj.sclust = dclst;
-#if FF_FS_EXFAT
-						if (fs->fs_type == FS_EXFAT) {
-							sdj.obj.objsize = obj.objsize;
-							sdj.obj.stat = obj.stat;
-						}
-#endif
-						res = dir_sdi(&sdj, 0);
-						if (res == FR_OK) {
-							res = DIR_READ_FILE(&sdj);			/* Test if the directory is empty */
-							if (res == FR_OK) res = FR_DENIED;	/* Not empty? */
-							if (res == FR_NO_FILE) res = FR_OK;	/* Empty? */
-						}
-					}
-				}
-			}
-			if (res == FR_OK) {
-				res = dir_remove(&dj);			/* Remove the directory entry */
-				if (res == FR_OK && dclst != 0) {	/* Remove the cluster chain if exist */
-#if FF_FS_EXFAT
-					res = remove_chain(&obj, dclst, 0);
-#else
-					res = remove_chain(&dj.obj, dclst, 0);
-#endif
-				}
-				if (res == FR_OK) res = sync_fs(fs);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Create a Directory                                                    */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_mkdir (
-	const TCHAR* path		/* Pointer to the directory path */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FFOBJID sobj;
-	FATFS *fs;
-	DWORD dcl, pcl, tm;
-	DEF_NAMBUF
-
-
-	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);			/* Follow the file path */
-		if (res == FR_OK) res = FR_EXIST;		/* Name collision? */
-		if (FF_FS_RPATH && res == FR_NO_FILE && (dj.fn[NSFLAG] & NS_DOT)) {	/* Invalid name? */
-			res = FR_INVALID_NAME;
-		}
-		if (res == FR_NO_FILE) {				/* It is clear to create a new directory */
-			sobj.fs = fs;						/* New object id to create a new chain */
-			dcl = create_chain(&sobj, 0);		/* Allocate a cluster for the new directory */
-			res = FR_OK;
-			if (dcl == 0) res = FR_DENIED;		/* No space to allocate a new cluster? */
-			if (dcl == 1) res = FR_INT_ERR;		/* Any insanity? */
-			if (dcl == 0xFFFFFFFF) res = FR_DISK_ERR;	/* Disk error? */
-			tm = GET_FATTIME();
-			if (res == FR_OK) {
-				res = dir_clear(fs, dcl);		/* Clean up the new table */
-				if (res == FR_OK) {
-					if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* Create dot entries (FAT only) */
-						memset(fs->win + DIR_Name, ' ', 11);	/* Create "." entry */
-						fs->win[DIR_Name] = '.';
-						fs->win[DIR_Attr] = AM_DIR;
-						st_dword(fs->win + DIR_ModTime, tm);
-						st_clust(fs, fs->win, dcl);
-						memcpy(fs->win + SZDIRE, fs->win, SZDIRE);	/* Create ".." entry */
-						fs->win[SZDIRE + 1] = '.'; pcl = dj.obj.sclust;
-						st_clust(fs, fs->win + SZDIRE, pcl);
-						fs->wflag = 1;
-					}
-					res = dir_register(&dj);	/* Register the object to the parent directoy */
-				}
-			}
-			if (res == FR_OK) {
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {	/* Initialize directory entry block */
-					st_dword(fs->dirbuf + XDIR_ModTime, tm);	/* Created time */
-					st_dword(fs->dirbuf + XDIR_FstClus, dcl);	/* Table start cluster */
-					st_dword(fs->dirbuf + XDIR_FileSize, (DWORD)fs->csize * SS(fs));	/* Directory size needs to be valid */
-					st_dword(fs->dirbuf + XDIR_ValidFileSize, (DWORD)fs->csize * SS(fs));
-					fs->dirbuf[XDIR_GenFlags] = 3;				/* Initialize the object flag */
-					fs->dirbuf[XDIR_Attr] = AM_DIR;				/* Attribute */
-					res = store_xdir(&dj);
-				} else
-#endif
-				{
-					st_dword(dj.dir + DIR_ModTime, tm);	/* Created time */
-					st_clust(fs, dj.dir, dcl);			/* Table start cluster */
-					dj.dir[DIR_Attr] = AM_DIR;			/* Attribute */
-					fs->wflag = 1;
-				}
-				if (res == FR_OK) {
-					res = sync_fs(fs);
-				}
-			} else {
-				remove_chain(&sobj, dcl, 0);		/* Could not register, remove the allocated cluster */
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Rename a File/Directory                                               */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_rename (
-	const TCHAR* path_old,	/* Pointer to the object name to be renamed */
-	const TCHAR* path_new	/* Pointer to the new name */
-)
-{
-	FRESULT res;
-	DIR djo, djn;
-	FATFS *fs;
-	BYTE buf[FF_FS_EXFAT ? SZDIRE * 2 : SZDIRE], *dir;
-	LBA_t sect;
-	DEF_NAMBUF
-
-
-	get_ldnumber(&path_new);						/* Snip the drive number of new name off */
-	res = mount_volume(&path_old, &fs, FA_WRITE);	/* Get logical drive of the old object */
-	if (res == FR_OK) {
-		djo.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&djo, path_old);			/* Check old object */
-		if (res == FR_OK && (djo.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check validity of name */
-#if FF_FS_LOCK != 0
-		if (res == FR_OK) {
-			res = chk_lock(&djo, 2);
-		}
-#endif
-		if (res == FR_OK) {					/* Object to be renamed is found */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {	/* At exFAT volume */
-				BYTE nf, nn;
-				WORD nh;
-
-				memcpy(buf, fs->dirbuf, SZDIRE * 2);	/* Save 85+C0 entry of old object */
-				memcpy(&djn, &djo, sizeof djo);
-				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
-				if (res == FR_OK) {						/* Is new name already in use by any other object? */
-					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) ? FR_NO_FILE : FR_EXIST;
-				}
-				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
-					res = dir_register(&djn);			/* Register the new entry */
-					if (res == FR_OK) {
-						nf = fs->dirbuf[XDIR_NumSec]; nn = fs->dirbuf[XDIR_NumName];
-						nh = ld_word(fs->dirbuf + XDIR_NameHash);
-						memcpy(fs->dirbuf, buf, SZDIRE * 2);	/* Restore 85+C0 entry */
-						fs->dirbuf[XDIR_NumSec] = nf; fs->dirbuf[XDIR_NumName] = nn;
-						st_word(fs->dirbuf + XDIR_NameHash, nh);
-						if (!(fs->dirbuf[XDIR_Attr] & AM_DIR)) fs->dirbuf[XDIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
-/* Start of critical section where an interruption can cause a cross-link */
-						res = store_xdir(&djn);
-					}
-				}
-			} else
-#endif
-			{	/* At FAT/FAT32 volume */
-				memcpy(buf, djo.dir, SZDIRE);			/* Save directory entry of the object */
-				memcpy(&djn, &djo, sizeof (DIR));		/* Duplicate the directory object */
-				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
-				if (res == FR_OK) {						/* Is new name already in use by any other object? */
-					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) ? FR_NO_FILE : FR_EXIST;
-				}
-				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
-					res = dir_register(&djn);			/* Register the new entry */
-					if (res == FR_OK) {
-						dir = djn.dir;					/* Copy directory entry of the object except name */
-						memcpy(dir + 13, buf + 13, SZDIRE - 13);
-						dir[DIR_Attr] = buf[DIR_Attr];
-						if (!(dir[DIR_Attr] & AM_DIR)) dir[DIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
-						fs->wflag = 1;
-						if ((dir[DIR_Attr] & AM_DIR) && djo.obj.sclust != djn.obj.sclust) {	/* Update .. entry in the sub-directory if needed */
-							sect = clst2sect(fs, ld_clust(fs, dir));
-							if (sect == 0) {
-								res = FR_INT_ERR;
-							} else {
-/* Start of critical section where an interruption can cause a cross-link */
-								res = move_window(fs, sect);
-								dir = fs->win + SZDIRE * 1;	/* Ptr to .. entry */
-								if (res == FR_OK && dir[1] == '.') {
-									st_clust(fs, dir, djn.obj.sclust);
-									fs->wflag = 1;
-								}
-							}
-						}
-					}
-				}
-			}
-			if (res == FR_OK) {
-				res = dir_remove(&djo);		/* Remove old entry */
-				if (res == FR_OK) {
-					res = sync_fs(fs);
-				}
-			}
-/* End of the critical section */
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* !FF_FS_READONLY */
-#endif /* FF_FS_MINIMIZE == 0 */
-#endif /* FF_FS_MINIMIZE <= 1 */
-#endif /* FF_FS_MINIMIZE <= 2 */
-
-
-
-#if FF_USE_CHMOD && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Change Attribute                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_chmod (
-	const TCHAR* path,	/* Pointer to the file path */
-	BYTE attr,			/* Attribute bits */
-	BYTE mask			/* Attribute mask to change */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
-		if (res == FR_OK) {
-			mask &= AM_RDO|AM_HID|AM_SYS|AM_ARC;	/* Valid attribute mask */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				fs->dirbuf[XDIR_Attr] = (attr & mask) | (fs->dirbuf[XDIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
-				res = store_xdir(&dj);
-			} else
-#endif
-			{
-				dj.dir[DIR_Attr] = (attr & mask) | (dj.dir[DIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
-				fs->wflag = 1;
-			}
-			if (res == FR_OK) {
-				res = sync_fs(fs);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Change Timestamp                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_utime (
-	const TCHAR* path,	/* Pointer to the file/directory name */
-	const FILINFO* fno	/* Pointer to the timestamp to be set */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
-		if (res == FR_OK) {
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				st_dword(fs->dirbuf + XDIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
-				res = store_xdir(&dj);
-			} else
-#endif
-			{
-				st_dword(dj.dir + DIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
-				fs->wflag = 1;
-			}
-			if (res == FR_OK) {
-				res = sync_fs(fs);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif	/* FF_USE_CHMOD && !FF_FS_READONLY */
-
-
-
-#if FF_USE_LABEL
-/*-----------------------------------------------------------------------*/
-/* Get Volume Label                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_getlabel (
-	const TCHAR* path,	/* Logical drive number */
-	TCHAR* label,		/* Buffer to store the volume label */
-	DWORD* vsn			/* Variable to store the volume serial number */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	UINT si, di;
-	WCHAR wc;
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-
-	/* Get volume label */
-	if (res == FR_OK && label) {
-		dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
-		res = dir_sdi(&dj, 0);
-		if (res == FR_OK) {
-		 	res = DIR_READ_LABEL(&dj);		/* Find a volume label entry */
-		 	if (res == FR_OK) {
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {
-					WCHAR hs;
-					UINT nw;
-
-					for (si = di = hs = 0; si < dj.dir[XDIR_NumLabel]; si++) {	/* Extract volume label from 83 entry */
-						wc = ld_word(dj.dir + XDIR_Label + si * 2);
-						if (hs == 0 && IsSurrogate(wc)) {	/* Is the code a surrogate? */
-							hs = wc; continue;
-						}
-						nw = put_utf((DWORD)hs << 16 | wc, &label[di], 4);	/* Store it in API encoding */
-						if (nw == 0) { di = 0; break; }		/* Encode error? */
-						di += nw;
-						hs = 0;
-					}
-					if (hs != 0) di = 0;	/* Broken surrogate pair? */
-					label[di] = 0;
-				} else
-#endif
-				{
-					si = di = 0;		/* Extract volume label from AM_VOL entry */
-					while (si < 11) {
-						wc = dj.dir[si++];
-#if FF_USE_LFN && FF_LFN_UNICODE >= 1 	/* Unicode output */
-						if (dbc_1st((BYTE)wc) && si < 11) wc = wc << 8 | dj.dir[si++];	/* Is it a DBC? */
-						wc = ff_oem2uni(wc, CODEPAGE);		/* Convert it into Unicode */
-						if (wc == 0) { di = 0; break; }		/* Invalid char in current code page? */
-						di += put_utf(wc, &label[di], 4);	/* Store it in Unicode */
-#else									/* ANSI/OEM output */
-						label[di++] = (TCHAR)wc;
-#endif
-					}
-					do {				/* Truncate trailing spaces */
-						label[di] = 0;
-						if (di == 0) break;
-					} while (label[--di] == ' ');
-				}
-			}
-		}
-		if (res == FR_NO_FILE) {	/* No label entry and return nul string */
-			label[0] = 0;
-			res = FR_OK;
-		}
-	}
-
-	/* Get volume serial number */
-	if (res == FR_OK && vsn) {
-		res = move_window(fs, fs->volbase);
-		if (res == FR_OK) {
-			switch (fs->fs_type) {
-			case FS_EXFAT:
-				di = BPB_VolIDEx;
-				break;
-
-			case FS_FAT32:
-				di = BS_VolID32;
-				break;
-
-			default:
-				di = BS_VolID;
-			}
-			*vsn = ld_dword(fs->win + di);
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Set Volume Label                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_setlabel (
-	const TCHAR* label	/* Volume label to set with heading logical drive number */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	BYTE dirvn[22];
-	UINT di;
-	WCHAR wc;
-	static const char badchr[18] = "+.,;=[]" "/*:<>|\\\"\?\x7F";	/* [0..16] for FAT, [7..16] for exFAT */
-#if FF_USE_LFN
-	DWORD dc;
-#endif
-
-	/* Get logical drive */
-	res = mount_volume(&label, &fs, FA_WRITE);
-	if (res != FR_OK) LEAVE_FF(fs, res);
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		memset(dirvn, 0, 22);
-		di = 0;
-		while ((UINT)*label >= ' ') {	/* Create volume label */
-			dc = tchar2uni(&label);	/* Get a Unicode character */
-			if (dc >= 0x10000) {
-				if (dc == 0xFFFFFFFF || di >= 10) {	/* Wrong surrogate or buffer overflow */
-					dc = 0;
-				} else {
-					st_word(dirvn + di * 2, (WCHAR)(dc >> 16)); di++;
-				}
-			}
-			if (dc == 0 || strchr(&badchr[7], (int)dc) || di >= 11) {	/* Check validity of the volume label */
-				LEAVE_FF(fs, FR_INVALID_NAME);
-			}
-			st_word(dirvn + di * 2, (WCHAR)dc); di++;
-		}
-	} else
-#endif
-	{	/* On the FAT/FAT32 volume */
-		memset(dirvn, ' ', 11);
-		di = 0;
-		while ((UINT)*label >= ' ') {	/* Create volume label */
-#if FF_USE_LFN
-			dc = tchar2uni(&label);
-			wc = (dc < 0x10000) ? ff_uni2oem(ff_wtoupper(dc), CODEPAGE) : 0;
-#else									/* ANSI/OEM input */
-			wc = (BYTE)*label++;
-			if (dbc_1st((BYTE)wc)) wc = dbc_2nd((BYTE)*label) ? wc << 8 | (BYTE)*label++ : 0;
-			if (IsLower(wc)) wc -= 0x20;		/* To upper ASCII characters */
-#if FF_CODE_PAGE == 0
-			if (ExCvt && wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
-#elif FF_CODE_PAGE < 900
-			if (wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
-#endif
-#endif
-			if (wc == 0 || strchr(&badchr[0], (int)wc) || di >= (UINT)((wc >= 0x100) ? 10 : 11)) {	/* Reject invalid characters for volume label */
-				LEAVE_FF(fs, FR_INVALID_NAME);
-			}
-			if (wc >= 0x100) dirvn[di++] = (BYTE)(wc >> 8);
-			dirvn[di++] = (BYTE)wc;
-		}
-		if (dirvn[0] == DDEM) LEAVE_FF(fs, FR_INVALID_NAME);	/* Reject illegal name (heading DDEM) */
-		while (di && dirvn[di - 1] == ' ') di--;				/* Snip trailing spaces */
-	}
-
-	/* Set volume label */
-	dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
-	res = dir_sdi(&dj, 0);
-	if (res == FR_OK) {
-		res = DIR_READ_LABEL(&dj);	/* Get volume label entry */
-		if (res == FR_OK) {
-			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
-				dj.dir[XDIR_NumLabel] = (BYTE)di;	/* Change the volume label */
-				memcpy(dj.dir + XDIR_Label, dirvn, 22);
-			} else {
-				if (di != 0) {
-					memcpy(dj.dir, dirvn, 11);	/* Change the volume label */
-				} else {
-					dj.dir[DIR_Name] = DDEM;	/* Remove the volume label */
-				}
-			}
-			fs->wflag = 1;
-			res = sync_fs(fs);
-		} else {			/* No volume label entry or an error */
-			if (res == FR_NO_FILE) {
-				res = FR_OK;
-				if (di != 0) {	/* Create a volume label entry */
-					res = dir_alloc(&dj, 1);	/* Allocate an entry */
-					if (res == FR_OK) {
-						memset(dj.dir, 0, SZDIRE);	/* Clean the entry */
-						if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
-							dj.dir[XDIR_Type] = ET_VLABEL;	/* Create volume label entry */
-							dj.dir[XDIR_NumLabel] = (BYTE)di;
-							memcpy(dj.dir + XDIR_Label, dirvn, 22);
-						} else {
-							dj.dir[DIR_Attr] = AM_VOL;		/* Create volume label entry */
-							memcpy(dj.dir, dirvn, 11);
-						}
-						fs->wflag = 1;
-						res = sync_fs(fs);
-					}
-				}
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* !FF_FS_READONLY */
-#endif /* FF_USE_LABEL */
-
-
-
-#if FF_USE_EXPAND && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Allocate a Contiguous Blocks to the File                              */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_expand (
-	FIL* fp,		/* Pointer to the file object */
-	FSIZE_t fsz,	/* File size to be expanded to */
-	BYTE opt		/* Operation mode 0:Find and prepare or 1:Find and allocate */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD n, clst, stcl, scl, ncl, tcl, lclst;
-
-
-	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
-	if (fsz == 0 || fp->obj.objsize != 0 || !(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);
-#if FF_FS_EXFAT
-	if (fs->fs_type != FS_EXFAT && fsz >= 0x100000000) LEAVE_FF(fs, FR_DENIED);	/* Check if in size limit */
-#endif
-	n = (DWORD)fs->csize * SS(fs);	/* Cluster size */
-	tcl = (DWORD)(fsz / n) + ((fsz & (n - 1)) ? 1 : 0);	/* Number of clusters required */
-	stcl = fs->last_clst; lclst = 0;
-	if (stcl < 2 || stcl >= fs->n_fatent) stcl = 2;
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {
-		scl = find_bitmap(fs, stcl, tcl);			/* Find a contiguous cluster block */
-		if (scl == 0) res = FR_DENIED;				/* No contiguous cluster block was found */
-		if (scl == 0xFFFFFFFF) res = FR_DISK_ERR;
-		if (res == FR_OK) {	/* A contiguous free area is found */
-			if (opt) {		/* Allocate it now */
-				res = change_bitmap(fs, scl, tcl, 1);	/* Mark the cluster block 'in use' */
-				lclst = scl + tcl - 1;
-			} else {		/* Set it as suggested point for next allocation */
-				lclst = scl - 1;
-			}
-		}
-	} else
-#endif
-	{
-		scl = clst = stcl; ncl = 0;
-		for (;;) {	/* Find a contiguous cluster block */
-			n = get_fat(&fp->obj, clst);
-			if (++clst >= fs->n_fatent) clst = 2;
-			if (n == 1) { res = FR_INT_ERR; break; }
-			if (n == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
-			if (n == 0) {	/* Is it a free cluster? */
-				if (++ncl == tcl) break;	/* Break if a contiguous cluster block is found */
-			} else {
-				scl = clst; ncl = 0;		/* Not a free cluster */
-			}
-			if (clst == stcl) { res = FR_DENIED; break; }	/* No contiguous cluster? */
-		}
-		if (res == FR_OK) {	/* A contiguous free area is found */
-			if (opt) {		/* Allocate it now */
-				for (clst = scl, n = tcl; n; clst++, n--) {	/* Create a cluster chain on the FAT */
-					res = put_fat(fs, clst, (n == 1) ? 0xFFFFFFFF : clst + 1);
-					if (res != FR_OK) break;
-					lclst = clst;
-				}
-			} else {		/* Set it as suggested point for next allocation */
-				lclst = scl - 1;
-			}
-		}
-	}
-
-	if (res == FR_OK) {
-		fs->last_clst = lclst;		/* Set suggested start cluster to start next */
-		if (opt) {	/* Is it allocated now? */
-			fp->obj.sclust = scl;		/* Update object allocation information */
-			fp->obj.objsize = fsz;
-			if (FF_FS_EXFAT) fp->obj.stat = 2;	/* Set status 'contiguous chain' */
-			fp->flag |= FA_MODIFIED;
-			if (fs->free_clst <= fs->n_fatent - 2) {	/* Update FSINFO */
-				fs->free_clst -= tcl;
-				fs->fsi_flag |= 1;
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* FF_USE_EXPAND && !FF_FS_READONLY */
-
-
-
-#if FF_USE_FORWARD
-/*-----------------------------------------------------------------------*/
-/* Forward Data to the Stream Directly                                   */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_forward (
-	FIL* fp, 						/* Pointer to the file object */
-	UINT (*func)(const BYTE*,UINT),	/* Pointer to the streaming function */
-	UINT btf,						/* Number of bytes to forward */
-	UINT* bf						/* Pointer to number of bytes forwarded */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst;
-	LBA_t sect;
-	FSIZE_t remain;
-	UINT rcnt, csect;
-	BYTE *dbuf;
-
-
-	*bf = 0;	/* Clear transfer byte counter */
-	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
-	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
-
-	remain = fp->obj.objsize - fp->fptr;
-	if (btf > remain) btf = (UINT)remain;			/* Truncate btf by remaining bytes */
-
-	for ( ; btf > 0 && (*func)(0, 0); fp->fptr += rcnt, *bf += rcnt, btf -= rcnt) {	/* Repeat until all data transferred or stream goes busy */
-		csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
-		if (fp->fptr % SS(fs) == 0) {				/* On the sector boundary? */
-			if (csect == 0) {						/* On the cluster boundary? */
-				clst = (fp->fptr == 0) ?			/* On the top of the file? */
-					fp->obj.sclust : get_fat(&fp->obj, fp->clust);
-				if (clst <= 1) ABORT(fs, FR_INT_ERR);
-				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-				fp->clust = clst;					/* Update current cluster */
-			}
-		}
-		sect = clst2sect(fs, fp->clust);			/* Get current data sector */
-		if (sect == 0) ABORT(fs, FR_INT_ERR);
-		sect += csect;
-#if FF_FS_TINY
-		if (move_window(fs, sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window to the file data */
-		dbuf = fs->win;
-#else
-		if (fp->sect != sect) {		/* Fill sector cache with file data */
-#if !FF_FS_READONLY
-			if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-		}
-		dbuf = fp->buf;
-#endif
-		fp->sect = sect;
-		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
-		if (rcnt > btf) rcnt = btf;					/* Clip it by btr if needed */
-		rcnt = (*func)(dbuf + ((UINT)fp->fptr % SS(fs)), rcnt);	/* Forward the file data */
-		if (rcnt == 0) ABORT(fs, FR_INT_ERR);
-	}
-
-	LEAVE_FF(fs, FR_OK);
-}
-#endif /* FF_USE_FORWARD */
-
-
-
-#if !FF_FS_READONLY && FF_USE_MKFS
-/*-----------------------------------------------------------------------*/
-/* Create FAT/exFAT volume (with sub-functions)                          */
-/*-----------------------------------------------------------------------*/
-
-#define N_SEC_TRACK 63			/* Sectors per track for determination of drive CHS */
-#define	GPT_ALIGN	0x100000	/* Alignment of partitions in GPT [byte] (>=128KB) */
-#define GPT_ITEMS	128			/* Number of GPT table size (>=128, sector aligned) */
-
-
-/* Create partitions on the physical drive in format of MBR or GPT */
-
-static FRESULT create_partition (
-	BYTE drv,			/* Physical drive number */
-	const LBA_t plst[],	/* Partition list */
-	BYTE sys,			/* System ID (for only MBR, temp setting) */
-	BYTE* buf			/* Working buffer for a sector */
-)
-{
-	UINT i, cy;
-	LBA_t sz_drv;
-	DWORD sz_drv32, nxt_alloc32, sz_part32;
-	BYTE *pte;
-	BYTE hd, n_hd, sc, n_sc;
-
-	/* Get physical drive size */
-	if (disk_ioctl(drv, GET_SECTOR_COUNT, &sz_drv) != RES_OK) return FR_DISK_ERR;
-
-#if FF_LBA64
-	if (sz_drv >= FF_MIN_GPT) {	/* Create partitions in GPT format */
-		WORD ss;
-		UINT sz_ptbl, pi, si, ofs;
-		DWORD bcc, rnd, align;
-		QWORD nxt_alloc, sz_part, sz_pool, top_bpt;
-		static const BYTE gpt_mbr[16] = {0x00, 0x00, 0x02, 0x00, 0xEE, 0xFE, 0xFF, 0x00, 0x01, 0x00, 0x00, 0x00, 0xFF, 0xFF, 0xFF, 0xFF};
-
-#if FF_MAX_SS != FF_MIN_SS
-		if (disk_ioctl(drv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;	/* Get sector size */
-		if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
-#else
-		ss = FF_MAX_SS;
-#endif
-		rnd = (DWORD)sz_drv + GET_FATTIME();	/* Random seed */
-		align = GPT_ALIGN / ss;				/* Partition alignment for GPT [sector] */
-		sz_ptbl = GPT_ITEMS * SZ_GPTE / ss;	/* Size of partition table [sector] */
-		top_bpt = sz_drv - sz_ptbl - 1;		/* Backup partiiton table start sector */
-		nxt_alloc = 2 + sz_ptbl;			/* First allocatable sector */
-		sz_pool = top_bpt - nxt_alloc;		/* Size of allocatable area */
-		bcc = 0xFFFFFFFF; sz_part = 1;
-		pi = si = 0;	/* partition table index, size table index */
-		do {
-			if (pi * SZ_GPTE % ss == 0) memset(buf, 0, ss);	/* Clean the buffer if needed */
-			if (sz_part != 0) {				/* Is the size table not termintated? */
-				nxt_alloc = (nxt_alloc + align - 1) & ((QWORD)0 - align);	/* Align partition start */
-				sz_part = plst[si++];		/* Get a partition size */
-				if (sz_part <= 100) {		/* Is the size in percentage? */
-					sz_part = sz_pool * sz_part / 100;
-					sz_part = (sz_part + align - 1) & ((QWORD)0 - align);	/* Align partition end (only if in percentage) */
-				}
-				if (nxt_alloc + sz_part > top_bpt) {	/* Clip the size at end of the pool */
-					sz_part = (nxt_alloc < top_bpt) ? top_bpt - nxt_alloc : 0;
-				}
-			}
-			if (sz_part != 0) {				/* Add a partition? */
-				ofs = pi * SZ_GPTE % ss;
-				memcpy(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16);	/* Set partition GUID (Microsoft Basic Data) */
-				rnd = make_rand(rnd, buf + ofs + GPTE_UpGuid, 16);	/* Set unique partition GUID */
-				st_qword(buf + ofs + GPTE_FstLba, nxt_alloc);		/* Set partition start sector */
-				st_qword(buf + ofs + GPTE_LstLba, nxt_alloc + sz_part - 1);	/* Set partition end sector */
-				nxt_alloc += sz_part;								/* Next allocatable sector */
-			}
-			if ((pi + 1) * SZ_GPTE % ss == 0) {		/* Write the buffer if it is filled up */
-				for (i = 0; i < ss; bcc = crc32(bcc, buf[i++])) ;	/* Calculate table check sum */
-				if (disk_write(drv, buf, 2 + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;		/* Write to primary table */
-				if (disk_write(drv, buf, top_bpt + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;	/* Write to secondary table */
-			}
-		} while (++pi < GPT_ITEMS);
-
-		/* Create primary GPT header */
-		memset(buf, 0, ss);
-		memcpy(buf + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16);	/* Signature, version (1.0) and size (92) */
-		st_dword(buf + GPTH_PtBcc, ~bcc);			/* Table check sum */
-		st_qword(buf + GPTH_CurLba, 1);				/* LBA of this header */
-		st_qword(buf + GPTH_BakLba, sz_drv - 1);	/* LBA of secondary header */
-		st_qword(buf + GPTH_FstLba, 2 + sz_ptbl);	/* LBA of first allocatable sector */
-		st_qword(buf + GPTH_LstLba, top_bpt - 1);	/* LBA of last allocatable sector */
-		st_dword(buf + GPTH_PteSize, SZ_GPTE);		/* Size of a table entry */
-		st_dword(buf + GPTH_PtNum, GPT_ITEMS);		/* Number of table entries */
-		st_dword(buf + GPTH_PtOfs, 2);				/* LBA of this table */
-		rnd = make_rand(rnd, buf + GPTH_DskGuid, 16);	/* Disk GUID */
-		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
-		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
-		if (disk_write(drv, buf, 1, 1) != RES_OK) return FR_DISK_ERR;
-
-		/* Create secondary GPT header */
-		st_qword(buf + GPTH_CurLba, sz_drv - 1);	/* LBA of this header */
-		st_qword(buf + GPTH_BakLba, 1);				/* LBA of primary header */
-		st_qword(buf + GPTH_PtOfs, top_bpt);		/* LBA of this table */
-		st_dword(buf + GPTH_Bcc, 0);
-		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
-		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
-		if (disk_write(drv, buf, sz_drv - 1, 1) != RES_OK) return FR_DISK_ERR;
-
-		/* Create protective MBR */
-		memset(buf, 0, ss);
-		memcpy(buf + MBR_Table, gpt_mbr, 16);		/* Create a GPT partition */
-		st_word(buf + BS_55AA, 0xAA55);
-		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;
-
-	} else
-#endif
-	{	/* Create partitions in MBR format */
-		sz_drv32 = (DWORD)sz_drv;
-		n_sc = N_SEC_TRACK;				/* Determine drive CHS without any consideration of the drive geometry */
-		for (n_hd = 8; n_hd != 0 && sz_drv32 / n_hd / n_sc > 1024; n_hd *= 2) ;
-		if (n_hd == 0) n_hd = 255;		/* Number of heads needs to be <256 */
-
-		memset(buf, 0, FF_MAX_SS);		/* Clear MBR */
-		pte = buf + MBR_Table;	/* Partition table in the MBR */
-		for (i = 0, nxt_alloc32 = n_sc; i < 4 && nxt_alloc32 != 0 && nxt_alloc32 < sz_drv32; i++, nxt_alloc32 += sz_part32) {
-			sz_part32 = (DWORD)plst[i];	/* Get partition size */
-			if (sz_part32 <= 100) sz_part32 = (sz_part32 == 100) ? sz_drv32 : sz_drv32 / 100 * sz_part32;	/* Size in percentage? */
-			if (nxt_alloc32 + sz_part32 > sz_drv32 || nxt_alloc32 + sz_part32 < nxt_alloc32) sz_part32 = sz_drv32 - nxt_alloc32;	/* Clip at drive size */
-			if (sz_part32 == 0) break;	/* End of table or no sector to allocate? */
-
-			st_dword(pte + PTE_StLba, nxt_alloc32);	/* Start LBA */
-			st_dword(pte + PTE_SizLba, sz_part32);	/* Number of sectors */
-			pte[PTE_System] = sys;					/* System type */
-
-			cy = (UINT)(nxt_alloc32 / n_sc / n_hd);	/* Start cylinder */
-			hd = (BYTE)(nxt_alloc32 / n_sc % n_hd);	/* Start head */
-			sc = (BYTE)(nxt_alloc32 % n_sc + 1);	/* Start sector */
-			pte[PTE_StHead] = hd;
-			pte[PTE_StSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
-			pte[PTE_StCyl] = (BYTE)cy;
-
-			cy = (UINT)((nxt_alloc32 + sz_part32 - 1) / n_sc / n_hd);	/* End cylinder */
-			hd = (BYTE)((nxt_alloc32 + sz_part32 - 1) / n_sc % n_hd);	/* End head */
-			sc = (BYTE)((nxt_alloc32 + sz_part32 - 1) % n_sc + 1);		/* End sector */
-			pte[PTE_EdHead] = hd;
-			pte[PTE_EdSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
-			pte[PTE_EdCyl] = (BYTE)cy;
-
-			pte += SZ_PTE;		/* Next entry */
-		}
-
-		st_word(buf + BS_55AA, 0xAA55);		/* MBR signature */
-		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;	/* Write it to the MBR */
-	}
-
-	return FR_OK;
-}
-
-
-
-FRESULT f_mkfs (
-	const TCHAR* path,		/* Logical drive number */
-	const MKFS_PARM* opt,	/* Format options */
-	void* work,				/* Pointer to working buffer (null: use heap memory) */
-	UINT len				/* Size of working buffer [byte] */
-)
-{
-	static const WORD cst[] = {1, 4, 16, 64, 256, 512, 0};	/* Cluster size boundary for FAT volume (4Ks unit) */
-	static const WORD cst32[] = {1, 2, 4, 8, 16, 32, 0};	/* Cluster size boundary for FAT32 volume (128Ks unit) */
-	static const MKFS_PARM defopt = {FM_ANY, 0, 0, 0, 0};	/* Default parameter */
-	BYTE fsopt, fsty, sys, *buf, *pte, pdrv, ipart;
-	WORD ss;	/* Sector size */
-	DWORD sz_buf, sz_blk, n_clst, pau, nsect, n, vsn;
-	LBA_t sz_vol, b_vol, b_fat, b_data;		/* Size of volume, Base LBA of volume, fat, data */
-	LBA_t sect, lba[2];
-	DWORD sz_rsv, sz_fat, sz_dir, sz_au;	/* Size of reserved, fat, dir, data, cluster */
-	UINT n_fat, n_root, i;					/* Index, Number of FATs and Number of roor dir entries */
-	int vol;
-	DSTATUS ds;
-	FRESULT fr;
-
-
-	/* Check mounted drive and clear work area */
-	vol = get_ldnumber(&path);					/* Get target logical drive */
-	if (vol < 0) return FR_INVALID_DRIVE;
-	if (FatFs[vol]) FatFs[vol]->fs_type = 0;	/* Clear the fs object if mounted */
-	pdrv = LD2PD(vol);			/* Physical drive */
-	ipart = LD2PT(vol);			/* Partition (0:create as new, 1..:get from partition table) */
-	if (!opt) opt = &defopt;	/* Use default parameter if it is not given */
-
-	/* Get physical drive status (sz_drv, sz_blk, ss) */
-	ds = disk_initialize(pdrv);
-	if (ds & STA_NOINIT) return FR_NOT_READY;
-	if (ds & STA_PROTECT) return FR_WRITE_PROTECTED;
-	sz_blk = opt->align;
-	if (sz_blk == 0 && disk_ioctl(pdrv, GET_BLOCK_SIZE, &sz_blk) != RES_OK) sz_blk = 1;
- 	if (sz_blk == 0 || sz_blk > 0x8000 || (sz_blk & (sz_blk - 1))) sz_blk = 1;
-#if FF_MAX_SS != FF_MIN_SS
-	if (disk_ioctl(pdrv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;
-	if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
-#else
-	ss = FF_MAX_SS;
-#endif
-	/* Options for FAT sub-type and FAT parameters */
-	fsopt = opt->fmt & (FM_ANY | FM_SFD);
-	n_fat = (opt->n_fat >= 1 && opt->n_fat <= 2) ? opt->n_fat : 1;
-	n_root = (opt->n_root >= 1 && opt->n_root <= 32768 && (opt->n_root % (ss / SZDIRE)) == 0) ? opt->n_root : 512;
-	sz_au = (opt->au_size <= 0x1000000 && (opt->au_size & (opt->au_size - 1)) == 0) ? opt->au_size : 0;
-	sz_au /= ss;	/* Byte --> Sector */
-
-	/* Get working buffer */
-	sz_buf = len / ss;		/* Size of working buffer [sector] */
-	if (sz_buf == 0) return FR_NOT_ENOUGH_CORE;
-	buf = (BYTE*)work;		/* Working buffer */
-#if FF_USE_LFN == 3
-	if (!buf) buf = ff_memalloc(sz_buf * ss);	/* Use heap memory for working buffer */
-#endif
-	if (!buf) return FR_NOT_ENOUGH_CORE;
-
-	/* Determine where the volume to be located (b_vol, sz_vol) */
-	b_vol = sz_vol = 0;
-	if (FF_MULTI_PARTITION && ipart != 0) {	/* Is the volume associated with any specific partition? */
-		/* Get partition location from the existing partition table */
-		if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load MBR */
-		if (ld_word(buf + BS_55AA) != 0xAA55) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if MBR is valid */
-#if FF_LBA64
-		if (buf[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
-			DWORD n_ent, ofs;
-			QWORD pt_lba;
-
-			/* Get the partition location from GPT */
-			if (disk_read(pdrv, buf, 1, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load GPT header sector (next to MBR) */
-			if (!test_gpt_header(buf)) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if GPT header is valid */
-			n_ent = ld_dword(buf + GPTH_PtNum);		/* Number of entries */
-			pt_lba = ld_qword(buf + GPTH_PtOfs);	/* Table start sector */
-			ofs = i = 0;
-			while (n_ent) {		/* Find MS Basic partition with order of ipart */
-				if (ofs == 0 && disk_read(pdrv, buf, pt_lba++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Get PT sector */
-				if (!memcmp(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16) && ++i == ipart) {	/* MS basic data partition? */
-					b_vol = ld_qword(buf + ofs + GPTE_FstLba);
-					sz_vol = ld_qword(buf + ofs + GPTE_LstLba) - b_vol + 1;
-					break;
-				}
-				n_ent--; ofs = (ofs + SZ_GPTE) % ss;	/* Next entry */
-			}
-			if (n_ent == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Partition not found */
-			fsopt |= 0x80;	/* Partitioning is in GPT */
-		} else
-#endif
-		{	/* Get the partition location from MBR partition table */
-			pte = buf + (MBR_Table + (ipart - 1) * SZ_PTE);
-			if (ipart > 4 || pte[PTE_System] == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* No partition? */
-			b_vol = ld_dword(pte + PTE_StLba);		/* Get volume start sector */
-			sz_vol = ld_dword(pte + PTE_SizLba);	/* Get volume size */
-		}
-	} else {	/* The volume is associated with a physical drive */
-		if (disk_ioctl(pdrv, GET_SECTOR_COUNT, &sz_vol) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-		if (!(fsopt & FM_SFD)) {	/* To be partitioned? */
-			/* Create a single-partition on the drive in this function */
-#if FF_LBA64
-			if (sz_vol >= FF_MIN_GPT) {	/* Which partition type to create, MBR or GPT? */
-				fsopt |= 0x80;		/* Partitioning is in GPT */
-				b_vol = GPT_ALIGN / ss; sz_vol -= b_vol + GPT_ITEMS * SZ_GPTE / ss + 1;	/* Estimated partition offset and size */
-			} else
-#endif
-			{	/* Partitioning is in MBR */
-				if (sz_vol > N_SEC_TRACK) {
-					b_vol = N_SEC_TRACK; sz_vol -= b_vol;	/* Estimated partition offset and size */
-				}
-			}
-		}
-	}
-	if (sz_vol < 128) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if volume size is >=128s */
-
-	/* Now start to create an FAT volume at b_vol and sz_vol */
-
-	do {	/* Pre-determine the FAT type */
-		if (FF_FS_EXFAT && (fsopt & FM_EXFAT)) {	/* exFAT possible? */
-			if ((fsopt & FM_ANY) == FM_EXFAT || sz_vol >= 0x4000000 || sz_au > 128) {	/* exFAT only, vol >= 64MS or sz_au > 128S ? */
-				fsty = FS_EXFAT; break;
-			}
-		}
-#if FF_LBA64
-		if (sz_vol >= 0x100000000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too large volume for FAT/FAT32 */
-#endif
-		if (sz_au > 128) sz_au = 128;	/* Invalid AU for FAT/FAT32? */
-		if (fsopt & FM_FAT32) {	/* FAT32 possible? */
-			if (!(fsopt & FM_FAT)) {	/* no-FAT? */
-				fsty = FS_FAT32; break;
-			}
-		}
-		if (!(fsopt & FM_FAT)) LEAVE_MKFS(FR_INVALID_PARAMETER);	/* no-FAT? */
-		fsty = FS_FAT16;
-	} while (0);
-
-	vsn = (DWORD)sz_vol + GET_FATTIME();	/* VSN generated from current time and partitiion size */
-
-#if FF_FS_EXFAT
-	if (fsty == FS_EXFAT) {	/* Create an exFAT volume */
-		DWORD szb_bit, szb_case, sum, nbit, clu, clen[3];
-		WCHAR ch, si;
-		UINT j, st;
-
-		if (sz_vol < 0x1000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume for exFAT? */
-#if FF_USE_TRIM
-		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
-		disk_ioctl(pdrv, CTRL_TRIM, lba);
-#endif
-		/* Determine FAT location, data location and number of clusters */
-		if (sz_au == 0) {	/* AU auto-selection */
-			sz_au = 8;
-			if (sz_vol >= 0x80000) sz_au = 64;		/* >= 512Ks */
-			if (sz_vol >= 0x4000000) sz_au = 256;	/* >= 64Ms */
-		}
-		b_fat = b_vol + 32;										/* FAT start at offset 32 */
-		sz_fat = (DWORD)((sz_vol / sz_au + 2) * 4 + ss - 1) / ss;	/* Number of FAT sectors */
-		b_data = (b_fat + sz_fat + sz_blk - 1) & ~((LBA_t)sz_blk - 1);	/* Align data area to the erase block boundary */
-		if (b_data - b_vol >= sz_vol / 2) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
-		n_clst = (DWORD)(sz_vol - (b_data - b_vol)) / sz_au;	/* Number of clusters */
-		if (n_clst <16) LEAVE_MKFS(FR_MKFS_ABORTED);			/* Too few clusters? */
-		if (n_clst > MAX_EXFAT) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters? */
-
-		szb_bit = (n_clst + 7) / 8;								/* Size of allocation bitmap */
-		clen[0] = (szb_bit + sz_au * ss - 1) / (sz_au * ss);	/* Number of allocation bitmap clusters */
-
-		/* Create a compressed up-case table */
-		sect = b_data + sz_au * clen[0];	/* Table start sector */
-		sum = 0;							/* Table checksum to be stored in the 82 entry */
-		st = 0; si = 0; i = 0; j = 0; szb_case = 0;
-		do {
-			switch (st) {
-			case 0:
-				ch = (WCHAR)ff_wtoupper(si);	/* Get an up-case char */
-				if (ch != si) {
-					si++; break;		/* Store the up-case char if exist */
-				}
-				for (j = 1; (WCHAR)(si + j) && (WCHAR)(si + j) == ff_wtoupper((WCHAR)(si + j)); j++) ;	/* Get run length of no-case block */
-				if (j >= 128) {
-					ch = 0xFFFF; st = 2; break;	/* Compress the no-case block if run is >= 128 chars */
-				}
-				st = 1;			/* Do not compress short run */
-				/* FALLTHROUGH */
-			case 1:
-				ch = si++;		/* Fill the short run */
-				if (--j == 0) st = 0;
-				break;
-
-			default:
-				ch = (WCHAR)j; si += (WCHAR)j;	/* Number of chars to skip */
-				st = 0;
-			}
-			sum = xsum32(buf[i + 0] = (BYTE)ch, sum);	/* Put it into the write buffer */
-			sum = xsum32(buf[i + 1] = (BYTE)(ch >> 8), sum);
-			i += 2; szb_case += 2;
-			if (si == 0 || i == sz_buf * ss) {		/* Write buffered data when buffer full or end of process */
-				n = (i + ss - 1) / ss;
-				if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-				sect += n; i = 0;
-			}
-		} while (si);
-		clen[1] = (szb_case + sz_au * ss - 1) / (sz_au * ss);	/* Number of up-case table clusters */
-		clen[2] = 1;	/* Number of root dir clusters */
-
-		/* Initialize the allocation bitmap */
-		sect = b_data; nsect = (szb_bit + ss - 1) / ss;	/* Start of bitmap and number of bitmap sectors */
-		nbit = clen[0] + clen[1] + clen[2];				/* Number of clusters in-use by system (bitmap, up-case and root-dir) */
-		do {
-			memset(buf, 0, sz_buf * ss);				/* Initialize bitmap buffer */
-			for (i = 0; nbit != 0 && i / 8 < sz_buf * ss; buf[i / 8] |= 1 << (i % 8), i++, nbit--) ;	/* Mark used clusters */
-			n = (nsect > sz_buf) ? sz_buf : nsect;		/* Write the buffered data */
-			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			sect += n; nsect -= n;
-		} while (nsect);
-
-		/* Initialize the FAT */
-		sect = b_fat; nsect = sz_fat;	/* Start of FAT and number of FAT sectors */
-		j = nbit = clu = 0;
-		do {
-			memset(buf, 0, sz_buf * ss); i = 0;	/* Clear work area and reset write offset */
-			if (clu == 0) {	/* Initialize FAT [0] and FAT[1] */
-				st_dword(buf + i, 0xFFFFFFF8); i += 4; clu++;
-				st_dword(buf + i, 0xFFFFFFFF); i += 4; clu++;
-			}
-			do {			/* Create chains of bitmap, up-case and root dir */
-				while (nbit != 0 && i < sz_buf * ss) {	/* Create a chain */
-					st_dword(buf + i, (nbit > 1) ? clu + 1 : 0xFFFFFFFF);
-					i += 4; clu++; nbit--;
-				}
-				if (nbit == 0 && j < 3) nbit = clen[j++];	/* Get next chain length */
-			} while (nbit != 0 && i < sz_buf * ss);
-			n = (nsect > sz_buf) ? sz_buf : nsect;	/* Write the buffered data */
-			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			sect += n; nsect -= n;
-		} while (nsect);
-
-		/* Initialize the root directory */
-		memset(buf, 0, sz_buf * ss);
-		buf[SZDIRE * 0 + 0] = ET_VLABEL;				/* Volume label entry (no label) */
-		buf[SZDIRE * 1 + 0] = ET_BITMAP;				/* Bitmap entry */
-		st_dword(buf + SZDIRE * 1 + 20, 2);				/*  cluster */
-		st_dword(buf + SZDIRE * 1 + 24, szb_bit);		/*  size */
-		buf[SZDIRE * 2 + 0] = ET_UPCASE;				/* Up-case table entry */
-		st_dword(buf + SZDIRE * 2 + 4, sum);			/*  sum */
-		st_dword(buf + SZDIRE * 2 + 20, 2 + clen[0]);	/*  cluster */
-		st_dword(buf + SZDIRE * 2 + 24, szb_case);		/*  size */
-		sect = b_data + sz_au * (clen[0] + clen[1]); nsect = sz_au;	/* Start of the root directory and number of sectors */
-		do {	/* Fill root directory sectors */
-			n = (nsect > sz_buf) ? sz_buf : nsect;
-			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			memset(buf, 0, ss);	/* Rest of entries are filled with zero */
-			sect += n; nsect -= n;
-		} while (nsect);
-
-		/* Create two set of the exFAT VBR blocks */
-		sect = b_vol;
-		for (n = 0; n < 2; n++) {
-			/* Main record (+0) */
-			memset(buf, 0, ss);
-			memcpy(buf + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11);	/* Boot jump code (x86), OEM name */
-			st_qword(buf + BPB_VolOfsEx, b_vol);					/* Volume offset in the physical drive [sector] */
-			st_qword(buf + BPB_TotSecEx, sz_vol);					/* Volume size [sector] */
-			st_dword(buf + BPB_FatOfsEx, (DWORD)(b_fat - b_vol));	/* FAT offset [sector] */
-			st_dword(buf + BPB_FatSzEx, sz_fat);					/* FAT size [sector] */
-			st_dword(buf + BPB_DataOfsEx, (DWORD)(b_data - b_vol));	/* Data offset [sector] */
-			st_dword(buf + BPB_NumClusEx, n_clst);					/* Number of clusters */
-			st_dword(buf + BPB_RootClusEx, 2 + clen[0] + clen[1]);	/* Root dir cluster # */
-			st_dword(buf + BPB_VolIDEx, vsn);						/* VSN */
-			st_word(buf + BPB_FSVerEx, 0x100);						/* Filesystem version (1.00) */
-			for (buf[BPB_BytsPerSecEx] = 0, i = ss; i >>= 1; buf[BPB_BytsPerSecEx]++) ;	/* Log2 of sector size [byte] */
-			for (buf[BPB_SecPerClusEx] = 0, i = sz_au; i >>= 1; buf[BPB_SecPerClusEx]++) ;	/* Log2 of cluster size [sector] */
-			buf[BPB_NumFATsEx] = 1;					/* Number of FATs */
-			buf[BPB_DrvNumEx] = 0x80;				/* Drive number (for int13) */
-			st_word(buf + BS_BootCodeEx, 0xFEEB);	/* Boot code (x86) */
-			st_word(buf + BS_55AA, 0xAA55);			/* Signature (placed here regardless of sector size) */
-			for (i = sum = 0; i < ss; i++) {		/* VBR checksum */
-				if (i != BPB_VolFlagEx && i != BPB_VolFlagEx + 1 && i != BPB_PercInUseEx) sum = xsum32(buf[i], sum);
-			}
-			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			/* Extended bootstrap record (+1..+8) */
-			memset(buf, 0, ss);
-			st_word(buf + ss - 2, 0xAA55);	/* Signature (placed at end of sector) */
-			for (j = 1; j < 9; j++) {
-				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
-				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			}
-			/* OEM/Reserved record (+9..+10) */
-			memset(buf, 0, ss);
-			for ( ; j < 11; j++) {
-				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
-				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			}
-			/* Sum record (+11) */
-			for (i = 0; i < ss; i += 4) st_dword(buf + i, sum);		/* Fill with checksum value */
-			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-		}
-
-	} else
-#endif	/* FF_FS_EXFAT */
-	{	/* Create an FAT/FAT32 volume */
-		do {
-			pau = sz_au;
-			/* Pre-determine number of clusters and FAT sub-type */
-			if (fsty == FS_FAT32) {	/* FAT32 volume */
-				if (pau == 0) {	/* AU auto-selection */
-					n = (DWORD)sz_vol / 0x20000;	/* Volume size in unit of 128KS */
-					for (i = 0, pau = 1; cst32[i] && cst32[i] <= n; i++, pau <<= 1) ;	/* Get from table */
-				}
-				n_clst = (DWORD)sz_vol / pau;	/* Number of clusters */
-				sz_fat = (n_clst * 4 + 8 + ss - 1) / ss;	/* FAT size [sector] */
-				sz_rsv = 32;	/* Number of reserved sectors */
-				sz_dir = 0;		/* No static directory */
-				if (n_clst <= MAX_FAT16 || n_clst > MAX_FAT32) LEAVE_MKFS(FR_MKFS_ABORTED);
-			} else {				/* FAT volume */
-				if (pau == 0) {	/* au auto-selection */
-					n = (DWORD)sz_vol / 0x1000;	/* Volume size in unit of 4KS */
-					for (i = 0, pau = 1; cst[i] && cst[i] <= n; i++, pau <<= 1) ;	/* Get from table */
-				}
-				n_clst = (DWORD)sz_vol / pau;
-				if (n_clst > MAX_FAT12) {
-					n = n_clst * 2 + 4;		/* FAT size [byte] */
-				} else {
-					fsty = FS_FAT12;
-					n = (n_clst * 3 + 1) / 2 + 3;	/* FAT size [byte] */
-				}
-				sz_fat = (n + ss - 1) / ss;		/* FAT size [sector] */
-				sz_rsv = 1;						/* Number of reserved sectors */
-				sz_dir = (DWORD)n_root * SZDIRE / ss;	/* Root dir size [sector] */
-			}
-			b_fat = b_vol + sz_rsv;						/* FAT base */
-			b_data = b_fat + sz_fat * n_fat + sz_dir;	/* Data base */
-
-			/* Align data area to erase block boundary (for flash memory media) */
-			n = (DWORD)(((b_data + sz_blk - 1) & ~(sz_blk - 1)) - b_data);	/* Sectors to next nearest from current data base */
-			if (fsty == FS_FAT32) {		/* FAT32: Move FAT */
-				sz_rsv += n; b_fat += n;
-			} else {					/* FAT: Expand FAT */
-				if (n % n_fat) {	/* Adjust fractional error if needed */
-					n--; sz_rsv++; b_fat++;
-				}
-				sz_fat += n / n_fat;
-			}
-
-			/* Determine number of clusters and final check of validity of the FAT sub-type */
-			if (sz_vol < b_data + pau * 16 - b_vol) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
-			n_clst = ((DWORD)sz_vol - sz_rsv - sz_fat * n_fat - sz_dir) / pau;
-			if (fsty == FS_FAT32) {
-				if (n_clst <= MAX_FAT16) {	/* Too few clusters for FAT32? */
-					if (sz_au == 0 && (sz_au = pau / 2) != 0) continue;	/* Adjust cluster size and retry */
-					LEAVE_MKFS(FR_MKFS_ABORTED);
-				}
-			}
-			if (fsty == FS_FAT16) {
-				if (n_clst > MAX_FAT16) {	/* Too many clusters for FAT16 */
-					if (sz_au == 0 && (pau * 2) <= 64) {
-						sz_au = pau * 2; continue;	/* Adjust cluster size and retry */
-					}
-					if ((fsopt & FM_FAT32)) {
-						fsty = FS_FAT32; continue;	/* Switch type to FAT32 and retry */
-					}
-					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
-					LEAVE_MKFS(FR_MKFS_ABORTED);
-				}
-				if  (n_clst <= MAX_FAT12) {	/* Too few clusters for FAT16 */
-					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
-					LEAVE_MKFS(FR_MKFS_ABORTED);
-				}
-			}
-			if (fsty == FS_FAT12 && n_clst > MAX_FAT12) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters for FAT12 */
-
-			/* Ok, it is the valid cluster configuration */
-			break;
-		} while (1);
-
-#if FF_USE_TRIM
-		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
-		disk_ioctl(pdrv, CTRL_TRIM, lba);
-#endif
-		/* Create FAT VBR */
-		memset(buf, 0, ss);
-		memcpy(buf + BS_JmpBoot, "\xEB\xFE\x90" "MSDOS5.0", 11);	/* Boot jump code (x86), OEM name */
-		st_word(buf + BPB_BytsPerSec, ss);				/* Sector size [byte] */
-		buf[BPB_SecPerClus] = (BYTE)pau;				/* Cluster size [sector] */
-		st_word(buf + BPB_RsvdSecCnt, (WORD)sz_rsv);	/* Size of reserved area */
-		buf[BPB_NumFATs] = (BYTE)n_fat;					/* Number of FATs */
-		st_word(buf + BPB_RootEntCnt, (WORD)((fsty == FS_FAT32) ? 0 : n_root));	/* Number of root directory entries */
-		if (sz_vol < 0x10000) {
-			st_word(buf + BPB_TotSec16, (WORD)sz_vol);	/* Volume size in 16-bit LBA */
-		} else {
-			st_dword(buf + BPB_TotSec32, (DWORD)sz_vol);	/* Volume size in 32-bit LBA */
-		}
-		buf[BPB_Media] = 0xF8;							/* Media descriptor byte */
-		st_word(buf + BPB_SecPerTrk, 63);				/* Number of sectors per track (for int13) */
-		st_word(buf + BPB_NumHeads, 255);				/* Number of heads (for int13) */
-		st_dword(buf + BPB_HiddSec, (DWORD)b_vol);		/* Volume offset in the physical drive [sector] */
-		if (fsty == FS_FAT32) {
-			st_dword(buf + BS_VolID32, vsn);			/* VSN */
-			st_dword(buf + BPB_FATSz32, sz_fat);		/* FAT size [sector] */
-			st_dword(buf + BPB_RootClus32, 2);			/* Root directory cluster # (2) */
-			st_word(buf + BPB_FSInfo32, 1);				/* Offset of FSINFO sector (VBR + 1) */
-			st_word(buf + BPB_BkBootSec32, 6);			/* Offset of backup VBR (VBR + 6) */
-			buf[BS_DrvNum32] = 0x80;					/* Drive number (for int13) */
-			buf[BS_BootSig32] = 0x29;					/* Extended boot signature */
-			memcpy(buf + BS_VolLab32, "NO NAME    " "FAT32   ", 19);	/* Volume label, FAT signature */
-		} else {
-			st_dword(buf + BS_VolID, vsn);				/* VSN */
-			st_word(buf + BPB_FATSz16, (WORD)sz_fat);	/* FAT size [sector] */
-			buf[BS_DrvNum] = 0x80;						/* Drive number (for int13) */
-			buf[BS_BootSig] = 0x29;						/* Extended boot signature */
-			memcpy(buf + BS_VolLab, "NO NAME    " "FAT     ", 19);	/* Volume label, FAT signature */
-		}
-		st_word(buf + BS_55AA, 0xAA55);					/* Signature (offset is fixed here regardless of sector size) */
-		if (disk_write(pdrv, buf, b_vol, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it to the VBR sector */
-
-		/* Create FSINFO record if needed */
-		if (fsty == FS_FAT32) {
-			disk_write(pdrv, buf, b_vol + 6, 1);		/* Write backup VBR (VBR + 6) */
-			memset(buf, 0, ss);
-			st_dword(buf + FSI_LeadSig, 0x41615252);
-			st_dword(buf + FSI_StrucSig, 0x61417272);
-			st_dword(buf + FSI_Free_Count, n_clst - 1);	/* Number of free clusters */
-			st_dword(buf + FSI_Nxt_Free, 2);			/* Last allocated cluster# */
-			st_word(buf + BS_55AA, 0xAA55);
-			disk_write(pdrv, buf, b_vol + 7, 1);		/* Write backup FSINFO (VBR + 7) */
-			disk_write(pdrv, buf, b_vol + 1, 1);		/* Write original FSINFO (VBR + 1) */
-		}
-
-		/* Initialize FAT area */
-		memset(buf, 0, sz_buf * ss);
-		sect = b_fat;		/* FAT start sector */
-		for (i = 0; i < n_fat; i++) {			/* Initialize FATs each */
-			if (fsty == FS_FAT32) {
-				st_dword(buf + 0, 0xFFFFFFF8);	/* FAT[0] */
-				st_dword(buf + 4, 0xFFFFFFFF);	/* FAT[1] */
-				st_dword(buf + 8, 0x0FFFFFFF);	/* FAT[2] (root directory) */
-			} else {
-				st_dword(buf + 0, (fsty == FS_FAT12) ? 0xFFFFF8 : 0xFFFFFFF8);	/* FAT[0] and FAT[1] */
-			}
-			nsect = sz_fat;		/* Number of FAT sectors */
-			do {	/* Fill FAT sectors */
-				n = (nsect > sz_buf) ? sz_buf : nsect;
-				if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-				memset(buf, 0, ss);	/* Rest of FAT all are cleared */
-				sect += n; nsect -= n;
-			} while (nsect);
-		}
-
-		/* Initialize root directory (fill with zero) */
-		nsect = (fsty == FS_FAT32) ? pau : sz_dir;	/* Number of root directory sectors */
-		do {
-			n = (nsect > sz_buf) ? sz_buf : nsect;
-			if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			sect += n; nsect -= n;
-		} while (nsect);
-	}
-
-	/* A FAT volume has been created here */
-
-	/* Determine system ID in the MBR partition table */
-	if (FF_FS_EXFAT && fsty == FS_EXFAT) {
-		sys = 0x07;			/* exFAT */
-	} else {
-		if (fsty == FS_FAT32) {
-			sys = 0x0C;		/* FAT32X */
-		} else {
-			if (sz_vol >= 0x10000) {
-				sys = 0x06;	/* FAT12/16 (large) */
-			} else {
-				sys = (fsty == FS_FAT16) ? 0x04 : 0x01;	/* FAT16 : FAT12 */
-			}
-		}
-	}
-
-	/* Update partition information */
-	if (FF_MULTI_PARTITION && ipart != 0) {	/* Volume is in the existing partition */
-		if (!FF_LBA64 || !(fsopt & 0x80)) {
-			/* Update system ID in the partition table */
-			if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Read the MBR */
-			buf[MBR_Table + (ipart - 1) * SZ_PTE + PTE_System] = sys;			/* Set system ID */
-			if (disk_write(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it back to the MBR */
-		}
-	} else {								/* Volume as a new single partition */
-		if (!(fsopt & FM_SFD)) {			/* Create partition table if not in SFD */
-			lba[0] = sz_vol; lba[1] = 0;
-			fr = create_partition(pdrv, lba, sys, buf);
-			if (fr != FR_OK) LEAVE_MKFS(fr);
-		}
-	}
-
-	if (disk_ioctl(pdrv, CTRL_SYNC, 0) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-
-	LEAVE_MKFS(FR_OK);
-}
-
-
-
-
-#if FF_MULTI_PARTITION
-/*-----------------------------------------------------------------------*/
-/* Create Partition Table on the Physical Drive                          */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_fdisk (
-	BYTE pdrv,			/* Physical drive number */
-	const LBA_t ptbl[],	/* Pointer to the size table for each partitions */
-	void* work			/* Pointer to the working buffer (null: use heap memory) */
-)
-{
-	BYTE *buf = (BYTE*)work;
-	DSTATUS stat;
-
-
-	stat = disk_initialize(pdrv);
-	if (stat & STA_NOINIT) return FR_NOT_READY;
-	if (stat & STA_PROTECT) return FR_WRITE_PROTECTED;
-#if FF_USE_LFN == 3
-	if (!buf) buf = ff_memalloc(FF_MAX_SS);	/* Use heap memory for working buffer */
-#endif
-	if (!buf) return FR_NOT_ENOUGH_CORE;
-
-	LEAVE_MKFS(create_partition(pdrv, ptbl, 0x07, buf));
-}
-
-#endif /* FF_MULTI_PARTITION */
-#endif /* !FF_FS_READONLY && FF_USE_MKFS */
-
-
-
-
-#if FF_USE_STRFUNC
-#if FF_USE_LFN && FF_LFN_UNICODE && (FF_STRF_ENCODE < 0 || FF_STRF_ENCODE > 3)
-#error Wrong FF_STRF_ENCODE setting
-#endif
-/*-----------------------------------------------------------------------*/
-/* Get a String from the File                                            */
-/*-----------------------------------------------------------------------*/
-
-TCHAR* f_gets (
-	TCHAR* buff,	/* Pointer to the buffer to store read string */
-	int len,		/* Size of string buffer (items) */
-	FIL* fp			/* Pointer to the file object */
-)
-{
-	int nc = 0;
-	TCHAR *p = buff;
-	BYTE s[4];
-	UINT rc;
-	DWORD dc;
-#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE <= 2
-	WCHAR wc;
-#endif
-#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE == 3
-	UINT ct;
-#endif
-
-#if FF_USE_LFN && FF_LFN_UNICODE			/* With code conversion (Unicode API) */
-	/* Make a room for the character and terminator  */
-	if (FF_LFN_UNICODE == 1) len -= (FF_STRF_ENCODE == 0) ? 1 : 2;
-	if (FF_LFN_UNICODE == 2) len -= (FF_STRF_ENCODE == 0) ? 3 : 4;
-	if (FF_LFN_UNICODE == 3) len -= 1;
-	while (nc < len) {
-#if FF_STRF_ENCODE == 0				/* Read a character in ANSI/OEM */
-		f_read(fp, s, 1, &rc);		/* Get a code unit */
-		if (rc != 1) break;			/* EOF? */
-		wc = s[0];
-		if (dbc_1st((BYTE)wc)) {	/* DBC 1st byte? */
-			f_read(fp, s, 1, &rc);	/* Get 2nd byte */
-			if (rc != 1 || !dbc_2nd(s[0])) continue;	/* Wrong code? */
-			wc = wc << 8 | s[0];
-		}
-		dc = ff_oem2uni(wc, CODEPAGE);	/* Convert ANSI/OEM into Unicode */
-		if (dc == 0) continue;		/* Conversion error? */
-#elif FF_STRF_ENCODE == 1 || FF_STRF_ENCODE == 2 	/* Read a character in UTF-16LE/BE */
-		f_read(fp, s, 2, &rc);		/* Get a code unit */
-		if (rc != 2) break;			/* EOF? */
-		dc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
-		if (IsSurrogateL(dc)) continue;	/* Broken surrogate pair? */
-		if (IsSurrogateH(dc)) {		/* High surrogate? */
-			f_read(fp, s, 2, &rc);	/* Get low surrogate */
-			if (rc != 2) break;		/* EOF? */
-			wc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
-			if (!IsSurrogateL(wc)) continue;	/* Broken surrogate pair? */
-			dc = ((dc & 0x3FF) + 0x40) << 10 | (wc & 0x3FF);	/* Merge surrogate pair */
-		}
-#else	/* Read a character in UTF-8 */
-		f_read(fp, s, 1, &rc);		/* Get a code unit */
-		if (rc != 1) break;			/* EOF? */
-		dc = s[0];
-		if (dc >= 0x80) {			/* Multi-byte sequence? */
-			ct = 0;
-			if ((dc & 0xE0) == 0xC0) { dc &= 0x1F; ct = 1; }	/* 2-byte sequence? */
-			if ((dc & 0xF0) == 0xE0) { dc &= 0x0F; ct = 2; }	/* 3-byte sequence? */
-			if ((dc & 0xF8) == 0xF0) { dc &= 0x07; ct = 3; }	/* 4-byte sequence? */
-			if (ct == 0) continue;
-			f_read(fp, s, ct, &rc);	/* Get trailing bytes */
-			if (rc != ct) break;
-			rc = 0;
-			do {	/* Merge the byte sequence */
-				if ((s[rc] & 0xC0) != 0x80) break;
-				dc = dc << 6 | (s[rc] & 0x3F);
-			} while (++rc < ct);
-			if (rc != ct || dc < 0x80 || IsSurrogate(dc) || dc >= 0x110000) continue;	/* Wrong encoding? */
-		}
-#endif
-		/* A code point is avaialble in dc to be output */
-
-		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;	/* Strip \r off if needed */
-#if FF_LFN_UNICODE == 1	|| FF_LFN_UNICODE == 3	/* Output it in UTF-16/32 encoding */
-		if (FF_LFN_UNICODE == 1 && dc >= 0x10000) {	/* Out of BMP at UTF-16? */
-			*p++ = (TCHAR)(0xD800 | ((dc >> 10) - 0x40)); nc++;	/* Make and output high surrogate */
-			dc = 0xDC00 | (dc & 0x3FF);		/* Make low surrogate */
-		}
-		*p++ = (TCHAR)dc; nc++;
-		if (dc == '\n') break;	/* End of line? */
-#elif FF_LFN_UNICODE == 2		/* Output it in UTF-8 encoding */
-		if (dc < 0x80) {	/* Single byte? */
-			*p++ = (TCHAR)dc;
-			nc++;
-			if (dc == '\n') break;	/* End of line? */
-		} else {
-			if (dc < 0x800) {		/* 2-byte sequence? */
-				*p++ = (TCHAR)(0xC0 | (dc >> 6 & 0x1F));
-				*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
-				nc += 2;
-			} else {
-				if (dc < 0x10000) {	/* 3-byte sequence? */
-					*p++ = (TCHAR)(0xE0 | (dc >> 12 & 0x0F));
-					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
-					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
-					nc += 3;
-				} else {			/* 4-byte sequence? */
-					*p++ = (TCHAR)(0xF0 | (dc >> 18 & 0x07));
-					*p++ = (TCHAR)(0x80 | (dc >> 12 & 0x3F));
-					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
-					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
-					nc += 4;
-				}
-			}
-		}
-#endif
-	}
-
-#else			/* Byte-by-byte read without any conversion (ANSI/OEM API) */
-	len -= 1;	/* Make a room for the terminator */
-	while (nc < len) {
-		f_read(fp, s, 1, &rc);	/* Get a byte */
-		if (rc != 1) break;		/* EOF? */
-		dc = s[0];
-		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;
-		*p++ = (TCHAR)dc; nc++;
-		if (dc == '\n') break;
-	}
-#endif
-
-	*p = 0;		/* Terminate the string */
-	return nc ? buff : 0;	/* When no data read due to EOF or error, return with error. */
-}
-
-
-
-
-#if !FF_FS_READONLY
-#include <stdarg.h>
-#define SZ_PUTC_BUF	64
-#define SZ_NUM_BUF	32
-
-/*-----------------------------------------------------------------------*/
-/* Put a Character to the File (with sub-functions)                      */
-/*-----------------------------------------------------------------------*/
-
-/* Output buffer and work area */
-
-typedef struct {
-	FIL *fp;		/* Ptr to the writing file */
-	int idx, nchr;	/* Write index of buf[] (-1:error), number of encoding units written */
-#if FF_USE_LFN && FF_LFN_UNICODE == 1
-	WCHAR hs;
-#elif FF_USE_LFN && FF_LFN_UNICODE == 2
-	BYTE bs[4];
-	UINT wi, ct;
-#endif
-	BYTE buf[SZ_PUTC_BUF];	/* Write buffer */
-} putbuff;
-
-
-/* Buffered file write with code conversion */
-
-static void putc_bfd (putbuff* pb, TCHAR c)
-{
-	UINT n;
-	int i, nc;
-#if FF_USE_LFN && FF_LFN_UNICODE
-	WCHAR hs, wc;
-#if FF_LFN_UNICODE == 2
-	DWORD dc;
-	const TCHAR *tp;
-#endif
-#endif
-
-	if (FF_USE_STRFUNC == 2 && c == '\n') {	 /* LF -> CRLF conversion */
-		putc_bfd(pb, '\r');
-	}
-
-	i = pb->idx;			/* Write index of pb->buf[] */
-	if (i < 0) return;		/* In write error? */
-	nc = pb->nchr;			/* Write unit counter */
-
-#if FF_USE_LFN && FF_LFN_UNICODE
-#if FF_LFN_UNICODE == 1		/* UTF-16 input */
-	if (IsSurrogateH(c)) {	/* High surrogate? */
-		pb->hs = c; return;	/* Save it for next */
-	}
-	hs = pb->hs; pb->hs = 0;
-	if (hs != 0) {			/* There is a leading high surrogate */
-		if (!IsSurrogateL(c)) hs = 0;	/* Discard high surrogate if not a surrogate pair */
-	} else {
-		if (IsSurrogateL(c)) return;	/* Discard stray low surrogate */
-	}
-	wc = c;
-#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
-	for (;;) {
-		if (pb->ct == 0) {	/* Out of multi-byte sequence? */
-			pb->bs[pb->wi = 0] = (BYTE)c;	/* Save 1st byte */
-			if ((BYTE)c < 0x80) break;					/* Single byte? */
-			if (((BYTE)c & 0xE0) == 0xC0) pb->ct = 1;	/* 2-byte sequence? */
-			if (((BYTE)c & 0xF0) == 0xE0) pb->ct = 2;	/* 3-byte sequence? */
-			if (((BYTE)c & 0xF1) == 0xF0) pb->ct = 3;	/* 4-byte sequence? */
-			return;
-		} else {				/* In the multi-byte sequence */
-			if (((BYTE)c & 0xC0) != 0x80) {	/* Broken sequence? */
-				pb->ct = 0; continue;
-			}
-			pb->bs[++pb->wi] = (BYTE)c;	/* Save the trailing byte */
-			if (--pb->ct == 0) break;	/* End of multi-byte sequence? */
-			return;
-		}
-	}
-	tp = (const TCHAR*)pb->bs;
-	dc = tchar2uni(&tp);	/* UTF-8 ==> UTF-16 */
-	if (dc == 0xFFFFFFFF) return;	/* Wrong code? */
-	wc = (WCHAR)dc;
-	hs = (WCHAR)(dc >> 16);
-#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
-	if (IsSurrogate(c) || c >= 0x110000) return;	/* Discard invalid code */
-	if (c >= 0x10000) {		/* Out of BMP? */
-		hs = (WCHAR)(0xD800 | ((c >> 10) - 0x40)); 	/* Make high surrogate */
-		wc = 0xDC00 | (c & 0x3FF);					/* Make low surrogate */
-	} else {
-		hs = 0;
-		wc = (WCHAR)c;
-	}
-#endif
-	/* A code point in UTF-16 is available in hs and wc */
-
-#if FF_STRF_ENCODE == 1		/* Write a code point in UTF-16LE */
-	if (hs != 0) {	/* Surrogate pair? */
-		st_word(&pb->buf[i], hs);
-		i += 2;
-		nc++;
-	}
-	st_word(&pb->buf[i], wc);
-	i += 2;
-#elif FF_STRF_ENCODE == 2	/* Write a code point in UTF-16BE */
-	if (hs != 0) {	/* Surrogate pair? */
-		pb->buf[i++] = (BYTE)(hs >> 8);
-		pb->buf[i++] = (BYTE)hs;
-		nc++;
-	}
-	pb->buf[i++] = (BYTE)(wc >> 8);
-	pb->buf[i++] = (BYTE)wc;
-#elif FF_STRF_ENCODE == 3	/* Write a code point in UTF-8 */
-	if (hs != 0) {	/* 4-byte sequence? */
-		nc += 3;
-		hs = (hs & 0x3FF) + 0x40;
-		pb->buf[i++] = (BYTE)(0xF0 | hs >> 8);
-		pb->buf[i++] = (BYTE)(0x80 | (hs >> 2 & 0x3F));
-		pb->buf[i++] = (BYTE)(0x80 | (hs & 3) << 4 | (wc >> 6 & 0x0F));
-		pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
-	} else {
-		if (wc < 0x80) {	/* Single byte? */
-			pb->buf[i++] = (BYTE)wc;
-		} else {
-			if (wc < 0x800) {	/* 2-byte sequence? */
-				nc += 1;
-				pb->buf[i++] = (BYTE)(0xC0 | wc >> 6);
-			} else {			/* 3-byte sequence */
-				nc += 2;
-				pb->buf[i++] = (BYTE)(0xE0 | wc >> 12);
-				pb->buf[i++] = (BYTE)(0x80 | (wc >> 6 & 0x3F));
-			}
-			pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
-		}
-	}
-#else						/* Write a code point in ANSI/OEM */
-	if (hs != 0) return;
-	wc = ff_uni2oem(wc, CODEPAGE);	/* UTF-16 ==> ANSI/OEM */
-	if (wc == 0) return;
-	if (wc >= 0x100) {
-		pb->buf[i++] = (BYTE)(wc >> 8); nc++;
-	}
-	pb->buf[i++] = (BYTE)wc;
-#endif
-
-#else							/* ANSI/OEM input (without re-encoding) */
-	pb->buf[i++] = (BYTE)c;
-#endif
-
-	if (i >= (int)(sizeof pb->buf) - 4) {	/* Write buffered characters to the file */
-		f_write(pb->fp, pb->buf, (UINT)i, &n);
-		i = (n == (UINT)i) ? 0 : -1;
-	}
-	pb->idx = i;
-	pb->nchr = nc + 1;
-}
-
-
-/* Flush remaining characters in the buffer */
-
-static int putc_flush (putbuff* pb)
-{
-	UINT nw;
-
-	if (   pb->idx >= 0	/* Flush buffered characters to the file */
-		&& f_write(pb->fp, pb->buf, (UINT)pb->idx, &nw) == FR_OK
-		&& (UINT)pb->idx == nw) return pb->nchr;
-	return -1;
-}
-
-
-/* Initialize write buffer */
-
-static void putc_init (putbuff* pb, FIL* fp)
-{
-	memset(pb, 0, sizeof (putbuff));
-	pb->fp = fp;
-}
-
-
-
-int f_putc (
-	TCHAR c,	/* A character to be output */
-	FIL* fp		/* Pointer to the file object */
-)
-{
-	putbuff pb;
-
-
-	putc_init(&pb, fp);
-	putc_bfd(&pb, c);	/* Put the character */
-	return putc_flush(&pb);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Put a String to the File                                              */
-/*-----------------------------------------------------------------------*/
-
-int f_puts (
-	const TCHAR* str,	/* Pointer to the string to be output */
-	FIL* fp				/* Pointer to the file object */
-)
-{
-	putbuff pb;
-
-
-	putc_init(&pb, fp);
-	while (*str) putc_bfd(&pb, *str++);		/* Put the string */
-	return putc_flush(&pb);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Put a Formatted String to the File (with sub-functions)               */
-/*-----------------------------------------------------------------------*/
-#if FF_PRINT_FLOAT && FF_INTDEF == 2
-#include <math.h>
-
-static int ilog10 (double n)	/* Calculate log10(n) in integer output */
-{
-	int rv = 0;
-
-	while (n >= 10) {	/* Decimate digit in right shift */
-		if (n >= 100000) {
-			n /= 100000; rv += 5;
-		} else {
-			n /= 10; rv++;
-		}
-	}
-	while (n < 1) {		/* Decimate digit in left shift */
-		if (n < 0.00001) {
-			n *= 100000; rv -= 5;
-		} else {
-			n *= 10; rv--;
-		}
-	}
-	return rv;
-}
-
-
-static double i10x (int n)	/* Calculate 10^n in integer input */
-{
-	double rv = 1;
-
-	while (n > 0) {		/* Left shift */
-		if (n >= 5) {
-			rv *= 100000; n -= 5;
-		} else {
-			rv *= 10; n--;
-		}
-	}
-	while (n < 0) {		/* Right shift */
-		if (n <= -5) {
-			rv /= 100000; n += 5;
-		} else {
-			rv /= 10; n++;
-		}
-	}
-	return rv;
-}
-
-
-static void ftoa (
-	char* buf,	/* Buffer to output the floating point string */
-	double val,	/* Value to output */
-	int prec,	/* Number of fractional digits */
-	TCHAR fmt	/* Notation */
-)
-{
-	int d;
-	int e = 0, m = 0;
-	char sign = 0;
-	double w;
-	const char *er = 0;
-	const char ds = FF_PRINT_FLOAT == 2 ? ',' : '.';
-
-
-	if (isnan(val)) {			/* Not a number? */
-		er = "NaN";
-	} else {
-		if (prec < 0) prec = 6;	/* Default precision? (6 fractional digits) */
-		if (val < 0) {			/* Nagative? */
-			val = 0 - val; sign = '-';
-		} else {
-			sign = '+';
-		}
-		if (isinf(val)) {		/* Infinite? */
-			er = "INF";
-		} else {
-			if (fmt == 'f') {	/* Decimal notation? */
-				val += i10x(0 - prec) / 2;	/* Round (nearest) */
-				m = ilog10(val);
-				if (m < 0) m = 0;
-				if (m + prec + 3 >= SZ_NUM_BUF) er = "OV";	/* Buffer overflow? */
-			} else {			/* E notation */
-				if (val != 0) {		/* Not a true zero? */
-					val += i10x(ilog10(val) - prec) / 2;	/* Round (nearest) */
-					e = ilog10(val);
-					if (e > 99 || prec + 7 >= SZ_NUM_BUF) {	/* Buffer overflow or E > +99? */
-						er = "OV";
-					} else {
-						if (e < -99) e = -99;
-						val /= i10x(e);	/* Normalize */
-					}
-				}
-			}
-		}
-		if (!er) {	/* Not error condition */
-			if (sign == '-') *buf++ = sign;	/* Add a - if negative value */
-			do {				/* Put decimal number */
-				if (m == -1) *buf++ = ds;	/* Insert a decimal separator when get into fractional part */
-				w = i10x(m);				/* Snip the highest digit d */
-				d = (int)(val / w); val -= d * w;
-				*buf++ = (char)('0' + d);	/* Put the digit */
-			} while (--m >= -prec);			/* Output all digits specified by prec */
-			if (fmt != 'f') {	/* Put exponent if needed */
-				*buf++ = (char)fmt;
-				if (e < 0) {
-					e = 0 - e; *buf++ = '-';
-				} else {
-					*buf++ = '+';
-				}
-				*buf++ = (char)('0' + e / 10);
-				*buf++ = (char)('0' + e % 10);
-			}
-		}
-	}
-	if (er) {	/* Error condition */
-		if (sign) *buf++ = sign;		/* Add sign if needed */
-		do *buf++ = *er++; while (*er);	/* Put error symbol */
-	}
-	*buf = 0;	/* Term */
-}
-#endif	/* FF_PRINT_FLOAT && FF_INTDEF == 2 */
-
-
-
-int f_printf (
-	FIL* fp,			/* Pointer to the file object */
-	const TCHAR* fmt,	/* Pointer to the format string */
-	...					/* Optional arguments... */
-)
-{
-	va_list arp;
-	putbuff pb;
-	UINT i, j, w, f, r;
-	int prec;
-#if FF_PRINT_LLI && FF_INTDEF == 2
-	QWORD v;
-#else
-	DWORD v;
-#endif
-	TCHAR tc, pad, *tp;
-	TCHAR nul = 0;
-	char d, str[SZ_NUM_BUF];
-
-
-	putc_init(&pb, fp);
-
-	va_start(arp, fmt);
-
-	for (;;) {
-		tc = *fmt++;
-		if (tc == 0) break;			/* End of format string */
-		if (tc != '%') {			/* Not an escape character (pass-through) */
-			putc_bfd(&pb, tc);
-			continue;
-		}
-		f = w = 0; pad = ' '; prec = -1;	/* Initialize parms */
-		tc = *fmt++;
-		if (tc == '0') {			/* Flag: '0' padded */
-			pad = '0'; tc = *fmt++;
-		} else if (tc == '-') {		/* Flag: Left aligned */
-			f = 2; tc = *fmt++;
-		}
-		if (tc == '*') {			/* Minimum width from an argument */
-			w = va_arg(arp, int);
-			tc = *fmt++;
-		} else {
-			while (IsDigit(tc)) {	/* Minimum width */
-				w = w * 10 + tc - '0';
-				tc = *fmt++;
-			}
-		}
-		if (tc == '.') {			/* Precision */
-			tc = *fmt++;
-			if (tc == '*') {		/* Precision from an argument */
-				prec = va_arg(arp, int);
-				tc = *fmt++;
-			} else {
-				prec = 0;
-				while (IsDigit(tc)) {	/* Precision */
-					prec = prec * 10 + tc - '0';
-					tc = *fmt++;
-				}
-			}
-		}
-		if (tc == 'l') {			/* Size: long int */
-			f |= 4; tc = *fmt++;
-#if FF_PRINT_LLI && FF_INTDEF == 2
-			if (tc == 'l') {		/* Size: long long int */
-				f |= 8; tc = *fmt++;
-			}
-#endif
-		}
-		if (tc == 0) break;			/* End of format string */
-		switch (tc) {				/* Atgument type is... */
-		case 'b':					/* Unsigned binary */
-			r = 2; break;
-		case 'o':					/* Unsigned octal */
-			r = 8; break;
-		case 'd':					/* Signed decimal */
-		case 'u':					/* Unsigned decimal */
-			r = 10; break;
-		case 'x':					/* Unsigned hexdecimal (lower case) */
-		case 'X':					/* Unsigned hexdecimal (upper case) */
-			r = 16; break;
-		case 'c':					/* Character */
-			putc_bfd(&pb, (TCHAR)va_arg(arp, int));
-			continue;
-		case 's':					/* String */
-			tp = va_arg(arp, TCHAR*);	/* Get a pointer argument */
-			if (!tp) tp = &nul;		/* Null ptr generates a null string */
-			for (j = 0; tp[j]; j++) ;	/* j = tcslen(tp) */
-			if (prec >= 0 && j > (UINT)prec) j = prec;	/* Limited length of string body */
-			for ( ; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
-			while (*tp && prec--) putc_bfd(&pb, *tp++);	/* Body */
-			while (j++ < w) putc_bfd(&pb, ' ');			/* Right pads */
-			continue;
-#if FF_PRINT_FLOAT && FF_INTDEF == 2
-		case 'f':					/* Floating point (decimal) */
-		case 'e':					/* Floating point (e) */
-		case 'E':					/* Floating point (E) */
-			ftoa(str, va_arg(arp, double), prec, tc);	/* Make a flaoting point string */
-			for (j = strlen(str); !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
-			for (i = 0; str[i]; putc_bfd(&pb, str[i++])) ;	/* Body */
-			while (j++ < w) putc_bfd(&pb, ' ');	/* Right pads */
-			continue;
-#endif
-		default:					/* Unknown type (pass-through) */
-			putc_bfd(&pb, tc); continue;
-		}
-
-		/* Get an integer argument and put it in numeral */
-#if FF_PRINT_LLI && FF_INTDEF == 2
-		if (f & 8) {	/* long long argument? */
-			v = (QWORD)va_arg(arp, LONGLONG);
-		} else {
-			if (f & 4) {	/* long argument? */
-				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, long) : (QWORD)va_arg(arp, unsigned long);
-			} else {		/* int/short/char argument */
-				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, int) : (QWORD)va_arg(arp, unsigned int);
-			}
-		}
-		if (tc == 'd' && (v & 0x8000000000000000)) {	/* Negative value? */
-			v = 0 - v; f |= 1;
-		}
-#else
-		if (f & 4) {	/* long argument? */
-			v = (DWORD)va_arg(arp, long);
-		} else {		/* int/short/char argument */
-			v = (tc == 'd') ? (DWORD)(long)va_arg(arp, int) : (DWORD)va_arg(arp, unsigned int);
-		}
-		if (tc == 'd' && (v & 0x80000000)) {	/* Negative value? */
-			v = 0 - v; f |= 1;
-		}
-#endif
-		i = 0;
-		do {	/* Make an integer number string */
-			d = (char)(v % r); v /= r;
-			if (d > 9) d += (tc == 'x') ? 0x27 : 0x07;
-			str[i++] = d + '0';
-		} while (v && i < SZ_NUM_BUF);
-		if (f & 1) str[i++] = '-';	/* Sign */
-		/* Write it */
-		for (j = i; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
-		do putc_bfd(&pb, (TCHAR)str[--i]); while (i);	/* Body */
-		while (j++ < w) putc_bfd(&pb, ' ');		/* Right pads */
-	}
-
-	va_end(arp);
-
-	return putc_flush(&pb);
-}
-
-#endif /* !FF_FS_READONLY */
-#endif /* FF_USE_STRFUNC */
-
-
-
-#if FF_CODE_PAGE == 0
-/*-----------------------------------------------------------------------*/
-/* Set Active Codepage for the Path Name                                 */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_setcp (
-	WORD cp		/* Value to be set as active code page */
-)
-{
-	static const WORD       validcp[22] = {  437,   720,   737,   771,   775,   850,   852,   855,   857,   860,   861,   862,   863,   864,   865,   866,   869,   932,   936,   949,   950, 0};
-	static const BYTE* const tables[22] = {Ct437, Ct720, Ct737, Ct771, Ct775, Ct850, Ct852, Ct855, Ct857, Ct860, Ct861, Ct862, Ct863, Ct864, Ct865, Ct866, Ct869, Dc932, Dc936, Dc949, Dc950, 0};
-	UINT i;
-
-
-	for (i = 0; validcp[i] != 0 && validcp[i] != cp; i++) ;	/* Find the code page */
-	if (validcp[i] != cp) return FR_INVALID_PARAMETER;	/* Not found? */
-
-	CodePage = cp;
-	if (cp >= 900) {	/* DBCS */
-		ExCvt = 0;
-		DbcTbl = tables[i];
-	} else {			/* SBCS */
-		ExCvt = tables[i];
-		DbcTbl = 0;
-	}
-	return FR_OK;
-}
-#endif	/* FF_CODE_PAGE == 0 */
-
+/*----------------------------------------------------------------------------/
+/  FatFs - Generic FAT Filesystem Module  R0.14b                              /
+/-----------------------------------------------------------------------------/
+/
+/ Copyright (C) 2021, ChaN, all right reserved.
+/
+/ FatFs module is an open source software. Redistribution and use of FatFs in
+/ source and binary forms, with or without modification, are permitted provided
+/ that the following condition is met:
+/
+/ 1. Redistributions of source code must retain the above copyright notice,
+/    this condition and the following disclaimer.
+/
+/ This software is provided by the copyright holder and contributors "AS IS"
+/ and any warranties related to this software are DISCLAIMED.
+/ The copyright owner or contributors be NOT LIABLE for any damages caused
+/ by use of this software.
+/
+/----------------------------------------------------------------------------*/
+
+
+#include <string.h>
+#include "ff.h"			/* Declarations of FatFs API */
+#include "diskio.h"		/* Declarations of device I/O functions */
+
+
+/*--------------------------------------------------------------------------
+
+   Module Private Definitions
+
+---------------------------------------------------------------------------*/
+
+#if FF_DEFINED != 86631	/* Revision ID */
+#error Wrong include file (ff.h).
+#endif
+
+
+/* Limits and boundaries */
+#define MAX_DIR		0x200000		/* Max size of FAT directory */
+#define MAX_DIR_EX	0x10000000		/* Max size of exFAT directory */
+#define MAX_FAT12	0xFF5			/* Max FAT12 clusters (differs from specs, but right for real DOS/Windows behavior) */
+#define MAX_FAT16	0xFFF5			/* Max FAT16 clusters (differs from specs, but right for real DOS/Windows behavior) */
+#define MAX_FAT32	0x0FFFFFF5		/* Max FAT32 clusters (not specified, practical limit) */
+#define MAX_EXFAT	0x7FFFFFFD		/* Max exFAT clusters (differs from specs, implementation limit) */
+
+
+/* Character code support macros */
+#define IsUpper(c)		((c) >= 'A' && (c) <= 'Z')
+#define IsLower(c)		((c) >= 'a' && (c) <= 'z')
+#define IsDigit(c)		((c) >= '0' && (c) <= '9')
+#define IsSeparator(c)	((c) == '/' || (c) == '\\')
+#define IsTerminator(c)	((UINT)(c) < (FF_USE_LFN ? ' ' : '!'))
+#define IsSurrogate(c)	((c) >= 0xD800 && (c) <= 0xDFFF)
+#define IsSurrogateH(c)	((c) >= 0xD800 && (c) <= 0xDBFF)
+#define IsSurrogateL(c)	((c) >= 0xDC00 && (c) <= 0xDFFF)
+
+
+/* Additional file access control and file status flags for internal use */
+#define FA_SEEKEND	0x20	/* Seek to end of the file on file open */
+#define FA_MODIFIED	0x40	/* File has been modified */
+#define FA_DIRTY	0x80	/* FIL.buf[] needs to be written-back */
+
+
+/* Additional file attribute bits for internal use */
+#define AM_VOL		0x08	/* Volume label */
+#define AM_LFN		0x0F	/* LFN entry */
+#define AM_MASK		0x3F	/* Mask of defined bits in FAT */
+#define AM_MASKX	0x37	/* Mask of defined bits in exFAT */
+
+
+/* Name status flags in fn[11] */
+#define NSFLAG		11		/* Index of the name status byte */
+#define NS_LOSS		0x01	/* Out of 8.3 format */
+#define NS_LFN		0x02	/* Force to create LFN entry */
+#define NS_LAST		0x04	/* Last segment */
+#define NS_BODY		0x08	/* Lower case flag (body) */
+#define NS_EXT		0x10	/* Lower case flag (ext) */
+#define NS_DOT		0x20	/* Dot entry */
+#define NS_NOLFN	0x40	/* Do not find LFN */
+#define NS_NONAME	0x80	/* Not followed */
+
+
+/* exFAT directory entry types */
+#define	ET_BITMAP	0x81	/* Allocation bitmap */
+#define	ET_UPCASE	0x82	/* Up-case table */
+#define	ET_VLABEL	0x83	/* Volume label */
+#define	ET_FILEDIR	0x85	/* File and directory */
+#define	ET_STREAM	0xC0	/* Stream extension */
+#define	ET_FILENAME	0xC1	/* Name extension */
+
+
+/* FatFs refers the FAT structure as simple byte array instead of structure member
+/ because the C structure is not binary compatible between different platforms */
+
+#define BS_JmpBoot			0		/* x86 jump instruction (3-byte) */
+#define BS_OEMName			3		/* OEM name (8-byte) */
+#define BPB_BytsPerSec		11		/* Sector size [byte] (WORD) */
+#define BPB_SecPerClus		13		/* Cluster size [sector] (BYTE) */
+#define BPB_RsvdSecCnt		14		/* Size of reserved area [sector] (WORD) */
+#define BPB_NumFATs			16		/* Number of FATs (BYTE) */
+#define BPB_RootEntCnt		17		/* Size of root directory area for FAT [entry] (WORD) */
+#define BPB_TotSec16		19		/* Volume size (16-bit) [sector] (WORD) */
+#define BPB_Media			21		/* Media descriptor byte (BYTE) */
+#define BPB_FATSz16			22		/* FAT size (16-bit) [sector] (WORD) */
+#define BPB_SecPerTrk		24		/* Number of sectors per track for int13h [sector] (WORD) */
+#define BPB_NumHeads		26		/* Number of heads for int13h (WORD) */
+#define BPB_HiddSec			28		/* Volume offset from top of the drive (DWORD) */
+#define BPB_TotSec32		32		/* Volume size (32-bit) [sector] (DWORD) */
+#define BS_DrvNum			36		/* Physical drive number for int13h (BYTE) */
+#define BS_NTres			37		/* WindowsNT error flag (BYTE) */
+#define BS_BootSig			38		/* Extended boot signature (BYTE) */
+#define BS_VolID			39		/* Volume serial number (DWORD) */
+#define BS_VolLab			43		/* Volume label string (8-byte) */
+#define BS_FilSysType		54		/* Filesystem type string (8-byte) */
+#define BS_BootCode			62		/* Boot code (448-byte) */
+#define BS_55AA				510		/* Signature word (WORD) */
+
+#define BPB_FATSz32			36		/* FAT32: FAT size [sector] (DWORD) */
+#define BPB_ExtFlags32		40		/* FAT32: Extended flags (WORD) */
+#define BPB_FSVer32			42		/* FAT32: Filesystem version (WORD) */
+#define BPB_RootClus32		44		/* FAT32: Root directory cluster (DWORD) */
+#define BPB_FSInfo32		48		/* FAT32: Offset of FSINFO sector (WORD) */
+#define BPB_BkBootSec32		50		/* FAT32: Offset of backup boot sector (WORD) */
+#define BS_DrvNum32			64		/* FAT32: Physical drive number for int13h (BYTE) */
+#define BS_NTres32			65		/* FAT32: Error flag (BYTE) */
+#define BS_BootSig32		66		/* FAT32: Extended boot signature (BYTE) */
+#define BS_VolID32			67		/* FAT32: Volume serial number (DWORD) */
+#define BS_VolLab32			71		/* FAT32: Volume label string (8-byte) */
+#define BS_FilSysType32		82		/* FAT32: Filesystem type string (8-byte) */
+#define BS_BootCode32		90		/* FAT32: Boot code (420-byte) */
+
+#define BPB_ZeroedEx		11		/* exFAT: MBZ field (53-byte) */
+#define BPB_VolOfsEx		64		/* exFAT: Volume offset from top of the drive [sector] (QWORD) */
+#define BPB_TotSecEx		72		/* exFAT: Volume size [sector] (QWORD) */
+#define BPB_FatOfsEx		80		/* exFAT: FAT offset from top of the volume [sector] (DWORD) */
+#define BPB_FatSzEx			84		/* exFAT: FAT size [sector] (DWORD) */
+#define BPB_DataOfsEx		88		/* exFAT: Data offset from top of the volume [sector] (DWORD) */
+#define BPB_NumClusEx		92		/* exFAT: Number of clusters (DWORD) */
+#define BPB_RootClusEx		96		/* exFAT: Root directory start cluster (DWORD) */
+#define BPB_VolIDEx			100		/* exFAT: Volume serial number (DWORD) */
+#define BPB_FSVerEx			104		/* exFAT: Filesystem version (WORD) */
+#define BPB_VolFlagEx		106		/* exFAT: Volume flags (WORD) */
+#define BPB_BytsPerSecEx	108		/* exFAT: Log2 of sector size in unit of byte (BYTE) */
+#define BPB_SecPerClusEx	109		/* exFAT: Log2 of cluster size in unit of sector (BYTE) */
+#define BPB_NumFATsEx		110		/* exFAT: Number of FATs (BYTE) */
+#define BPB_DrvNumEx		111		/* exFAT: Physical drive number for int13h (BYTE) */
+#define BPB_PercInUseEx		112		/* exFAT: Percent in use (BYTE) */
+#define BPB_RsvdEx			113		/* exFAT: Reserved (7-byte) */
+#define BS_BootCodeEx		120		/* exFAT: Boot code (390-byte) */
+
+#define DIR_Name			0		/* Short file name (11-byte) */
+#define DIR_Attr			11		/* Attribute (BYTE) */
+#define DIR_NTres			12		/* Lower case flag (BYTE) */
+#define DIR_CrtTime10		13		/* Created time sub-second (BYTE) */
+#define DIR_CrtTime			14		/* Created time (DWORD) */
+#define DIR_LstAccDate		18		/* Last accessed date (WORD) */
+#define DIR_FstClusHI		20		/* Higher 16-bit of first cluster (WORD) */
+#define DIR_ModTime			22		/* Modified time (DWORD) */
+#define DIR_FstClusLO		26		/* Lower 16-bit of first cluster (WORD) */
+#define DIR_FileSize		28		/* File size (DWORD) */
+#define LDIR_Ord			0		/* LFN: LFN order and LLE flag (BYTE) */
+#define LDIR_Attr			11		/* LFN: LFN attribute (BYTE) */
+#define LDIR_Type			12		/* LFN: Entry type (BYTE) */
+#define LDIR_Chksum			13		/* LFN: Checksum of the SFN (BYTE) */
+#define LDIR_FstClusLO		26		/* LFN: MBZ field (WORD) */
+#define XDIR_Type			0		/* exFAT: Type of exFAT directory entry (BYTE) */
+#define XDIR_NumLabel		1		/* exFAT: Number of volume label characters (BYTE) */
+#define XDIR_Label			2		/* exFAT: Volume label (11-WORD) */
+#define XDIR_CaseSum		4		/* exFAT: Sum of case conversion table (DWORD) */
+#define XDIR_NumSec			1		/* exFAT: Number of secondary entries (BYTE) */
+#define XDIR_SetSum			2		/* exFAT: Sum of the set of directory entries (WORD) */
+#define XDIR_Attr			4		/* exFAT: File attribute (WORD) */
+#define XDIR_CrtTime		8		/* exFAT: Created time (DWORD) */
+#define XDIR_ModTime		12		/* exFAT: Modified time (DWORD) */
+#define XDIR_AccTime		16		/* exFAT: Last accessed time (DWORD) */
+#define XDIR_CrtTime10		20		/* exFAT: Created time subsecond (BYTE) */
+#define XDIR_ModTime10		21		/* exFAT: Modified time subsecond (BYTE) */
+#define XDIR_CrtTZ			22		/* exFAT: Created timezone (BYTE) */
+#define XDIR_ModTZ			23		/* exFAT: Modified timezone (BYTE) */
+#define XDIR_AccTZ			24		/* exFAT: Last accessed timezone (BYTE) */
+#define XDIR_GenFlags		33		/* exFAT: General secondary flags (BYTE) */
+#define XDIR_NumName		35		/* exFAT: Number of file name characters (BYTE) */
+#define XDIR_NameHash		36		/* exFAT: Hash of file name (WORD) */
+#define XDIR_ValidFileSize	40		/* exFAT: Valid file size (QWORD) */
+#define XDIR_FstClus		52		/* exFAT: First cluster of the file data (DWORD) */
+#define XDIR_FileSize		56		/* exFAT: File/Directory size (QWORD) */
+
+#define SZDIRE				32		/* Size of a directory entry */
+#define DDEM				0xE5	/* Deleted directory entry mark set to DIR_Name[0] */
+#define RDDEM				0x05	/* Replacement of the character collides with DDEM */
+#define LLEF				0x40	/* Last long entry flag in LDIR_Ord */
+
+#define FSI_LeadSig			0		/* FAT32 FSI: Leading signature (DWORD) */
+#define FSI_StrucSig		484		/* FAT32 FSI: Structure signature (DWORD) */
+#define FSI_Free_Count		488		/* FAT32 FSI: Number of free clusters (DWORD) */
+#define FSI_Nxt_Free		492		/* FAT32 FSI: Last allocated cluster (DWORD) */
+
+#define MBR_Table			446		/* MBR: Offset of partition table in the MBR */
+#define SZ_PTE				16		/* MBR: Size of a partition table entry */
+#define PTE_Boot			0		/* MBR PTE: Boot indicator */
+#define PTE_StHead			1		/* MBR PTE: Start head */
+#define PTE_StSec			2		/* MBR PTE: Start sector */
+#define PTE_StCyl			3		/* MBR PTE: Start cylinder */
+#define PTE_System			4		/* MBR PTE: System ID */
+#define PTE_EdHead			5		/* MBR PTE: End head */
+#define PTE_EdSec			6		/* MBR PTE: End sector */
+#define PTE_EdCyl			7		/* MBR PTE: End cylinder */
+#define PTE_StLba			8		/* MBR PTE: Start in LBA */
+#define PTE_SizLba			12		/* MBR PTE: Size in LBA */
+
+#define GPTH_Sign			0		/* GPT: Header signature (8-byte) */
+#define GPTH_Rev			8		/* GPT: Revision (DWORD) */
+#define GPTH_Size			12		/* GPT: Header size (DWORD) */
+#define GPTH_Bcc			16		/* GPT: Header BCC (DWORD) */
+#define GPTH_CurLba			24		/* GPT: Main header LBA (QWORD) */
+#define GPTH_BakLba			32		/* GPT: Backup header LBA (QWORD) */
+#define GPTH_FstLba			40		/* GPT: First LBA for partitions (QWORD) */
+#define GPTH_LstLba			48		/* GPT: Last LBA for partitions (QWORD) */
+#define GPTH_DskGuid		56		/* GPT: Disk GUID (16-byte) */
+#define GPTH_PtOfs			72		/* GPT: Partation table LBA (QWORD) */
+#define GPTH_PtNum			80		/* GPT: Number of table entries (DWORD) */
+#define GPTH_PteSize		84		/* GPT: Size of table entry (DWORD) */
+#define GPTH_PtBcc			88		/* GPT: Partation table BCC (DWORD) */
+#define SZ_GPTE				128		/* GPT: Size of partition table entry */
+#define GPTE_PtGuid			0		/* GPT PTE: Partition type GUID (16-byte) */
+#define GPTE_UpGuid			16		/* GPT PTE: Partition unique GUID (16-byte) */
+#define GPTE_FstLba			32		/* GPT PTE: First LBA (QWORD) */
+#define GPTE_LstLba			40		/* GPT PTE: Last LBA inclusive (QWORD) */
+#define GPTE_Flags			48		/* GPT PTE: Flags (QWORD) */
+#define GPTE_Name			56		/* GPT PTE: Name */
+
+
+/* Post process on fatal error in the file operations */
+#define ABORT(fs, res)		{ fp->err = (BYTE)(res); LEAVE_FF(fs, res); }
+
+
+/* Re-entrancy related */
+#if FF_FS_REENTRANT
+#if FF_USE_LFN == 1
+#error Static LFN work area cannot be used in thread-safe configuration
+#endif
+#define LEAVE_FF(fs, res)	{ unlock_fs(fs, res); return res; }
+#else
+#define LEAVE_FF(fs, res)	return res
+#endif
+
+
+/* Definitions of logical drive - physical location conversion */
+#if FF_MULTI_PARTITION
+#define LD2PD(vol) VolToPart[vol].pd	/* Get physical drive number */
+#define LD2PT(vol) VolToPart[vol].pt	/* Get partition number (0:auto search, 1..:forced partition number) */
+#else
+#define LD2PD(vol) (BYTE)(vol)	/* Each logical drive is associated with the same physical drive number */
+#define LD2PT(vol) 0			/* Auto partition search */
+#endif
+
+
+/* Definitions of sector size */
+#if (FF_MAX_SS < FF_MIN_SS) || (FF_MAX_SS != 512 && FF_MAX_SS != 1024 && FF_MAX_SS != 2048 && FF_MAX_SS != 4096) || (FF_MIN_SS != 512 && FF_MIN_SS != 1024 && FF_MIN_SS != 2048 && FF_MIN_SS != 4096)
+#error Wrong sector size configuration
+#endif
+#if FF_MAX_SS == FF_MIN_SS
+#define SS(fs)	((UINT)FF_MAX_SS)	/* Fixed sector size */
+#else
+#define SS(fs)	((fs)->ssize)	/* Variable sector size */
+#endif
+
+
+/* Timestamp */
+#if FF_FS_NORTC == 1
+#if FF_NORTC_YEAR < 1980 || FF_NORTC_YEAR > 2107 || FF_NORTC_MON < 1 || FF_NORTC_MON > 12 || FF_NORTC_MDAY < 1 || FF_NORTC_MDAY > 31
+#error Invalid FF_FS_NORTC settings
+#endif
+#define GET_FATTIME()	((DWORD)(FF_NORTC_YEAR - 1980) << 25 | (DWORD)FF_NORTC_MON << 21 | (DWORD)FF_NORTC_MDAY << 16)
+#else
+#define GET_FATTIME()	get_fattime()
+#endif
+
+
+/* File lock controls */
+#if FF_FS_LOCK != 0
+#if FF_FS_READONLY
+#error FF_FS_LOCK must be 0 at read-only configuration
+#endif
+typedef struct {
+	FATFS *fs;		/* Object ID 1, volume (NULL:blank entry) */
+	DWORD clu;		/* Object ID 2, containing directory (0:root) */
+	DWORD ofs;		/* Object ID 3, offset in the directory */
+	WORD ctr;		/* Object open counter, 0:none, 0x01..0xFF:read mode open count, 0x100:write mode */
+} FILESEM;
+#endif
+
+
+/* SBCS up-case tables (\x80-\xFF) */
+#define TBL_CT437  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT720  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT737  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x92,0x92,0x93,0x94,0x95,0x96,0x97,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87, \
+					0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0xAA,0x92,0x93,0x94,0x95,0x96, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0x97,0xEA,0xEB,0xEC,0xE4,0xED,0xEE,0xEF,0xF5,0xF0,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT771  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDC,0xDE,0xDE, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFE,0xFF}
+#define TBL_CT775  {0x80,0x9A,0x91,0xA0,0x8E,0x95,0x8F,0x80,0xAD,0xED,0x8A,0x8A,0xA1,0x8D,0x8E,0x8F, \
+					0x90,0x92,0x92,0xE2,0x99,0x95,0x96,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
+					0xA0,0xA1,0xE0,0xA3,0xA3,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xA5,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE3,0xE8,0xE8,0xEA,0xEA,0xEE,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT850  {0x43,0x55,0x45,0x41,0x41,0x41,0x41,0x43,0x45,0x45,0x45,0x49,0x49,0x49,0x41,0x41, \
+					0x45,0x92,0x92,0x4F,0x4F,0x4F,0x55,0x55,0x59,0x4F,0x55,0x4F,0x9C,0x4F,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0x41,0x41,0x41,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0x41,0x41,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD1,0xD1,0x45,0x45,0x45,0x49,0x49,0x49,0x49,0xD9,0xDA,0xDB,0xDC,0xDD,0x49,0xDF, \
+					0x4F,0xE1,0x4F,0x4F,0x4F,0x4F,0xE6,0xE8,0xE8,0x55,0x55,0x55,0x59,0x59,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT852  {0x80,0x9A,0x90,0xB6,0x8E,0xDE,0x8F,0x80,0x9D,0xD3,0x8A,0x8A,0xD7,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x91,0xE2,0x99,0x95,0x95,0x97,0x97,0x99,0x9A,0x9B,0x9B,0x9D,0x9E,0xAC, \
+					0xB5,0xD6,0xE0,0xE9,0xA4,0xA4,0xA6,0xA6,0xA8,0xA8,0xAA,0x8D,0xAC,0xB8,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBD,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC6,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD1,0xD1,0xD2,0xD3,0xD2,0xD5,0xD6,0xD7,0xB7,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE3,0xD5,0xE6,0xE6,0xE8,0xE9,0xE8,0xEB,0xED,0xED,0xDD,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xEB,0xFC,0xFC,0xFE,0xFF}
+#define TBL_CT855  {0x81,0x81,0x83,0x83,0x85,0x85,0x87,0x87,0x89,0x89,0x8B,0x8B,0x8D,0x8D,0x8F,0x8F, \
+					0x91,0x91,0x93,0x93,0x95,0x95,0x97,0x97,0x99,0x99,0x9B,0x9B,0x9D,0x9D,0x9F,0x9F, \
+					0xA1,0xA1,0xA3,0xA3,0xA5,0xA5,0xA7,0xA7,0xA9,0xA9,0xAB,0xAB,0xAD,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB6,0xB6,0xB8,0xB8,0xB9,0xBA,0xBB,0xBC,0xBE,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD1,0xD1,0xD3,0xD3,0xD5,0xD5,0xD7,0xD7,0xDD,0xD9,0xDA,0xDB,0xDC,0xDD,0xE0,0xDF, \
+					0xE0,0xE2,0xE2,0xE4,0xE4,0xE6,0xE6,0xE8,0xE8,0xEA,0xEA,0xEC,0xEC,0xEE,0xEE,0xEF, \
+					0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT857  {0x80,0x9A,0x90,0xB6,0x8E,0xB7,0x8F,0x80,0xD2,0xD3,0xD4,0xD8,0xD7,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0xE2,0x99,0xE3,0xEA,0xEB,0x98,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9E, \
+					0xB5,0xD6,0xE0,0xE9,0xA5,0xA5,0xA6,0xA6,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0x49,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xDE,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT860  {0x80,0x9A,0x90,0x8F,0x8E,0x91,0x86,0x80,0x89,0x89,0x92,0x8B,0x8C,0x98,0x8E,0x8F, \
+					0x90,0x91,0x92,0x8C,0x99,0xA9,0x96,0x9D,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x86,0x8B,0x9F,0x96,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT861  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x8B,0x8B,0x8D,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x8D,0x55,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
+					0xA4,0xA5,0xA6,0xA7,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT862  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT863  {0x43,0x55,0x45,0x41,0x41,0x41,0x86,0x43,0x45,0x45,0x45,0x49,0x49,0x8D,0x41,0x8F, \
+					0x45,0x45,0x45,0x4F,0x45,0x49,0x55,0x55,0x98,0x4F,0x55,0x9B,0x9C,0x55,0x55,0x9F, \
+					0xA0,0xA1,0x4F,0x55,0xA4,0xA5,0xA6,0xA7,0x49,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT864  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT865  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT866  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT869  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x86,0x9C,0x8D,0x8F,0x90, \
+					0x91,0x90,0x92,0x95,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xA4,0xA5,0xA6,0xD9,0xDA,0xDB,0xDC,0xA7,0xA8,0xDF, \
+					0xA9,0xAA,0xAC,0xAD,0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xCF,0xCF,0xD0,0xEF, \
+					0xF0,0xF1,0xD1,0xD2,0xD3,0xF5,0xD4,0xF7,0xF8,0xF9,0xD5,0x96,0x95,0x98,0xFE,0xFF}
+
+
+/* DBCS code range |----- 1st byte -----|  |----------- 2nd byte -----------| */
+/*                  <------>    <------>    <------>    <------>    <------>  */
+#define TBL_DC932 {0x81, 0x9F, 0xE0, 0xFC, 0x40, 0x7E, 0x80, 0xFC, 0x00, 0x00}
+#define TBL_DC936 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0x80, 0xFE, 0x00, 0x00}
+#define TBL_DC949 {0x81, 0xFE, 0x00, 0x00, 0x41, 0x5A, 0x61, 0x7A, 0x81, 0xFE}
+#define TBL_DC950 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0xA1, 0xFE, 0x00, 0x00}
+
+
+/* Macros for table definitions */
+#define MERGE_2STR(a, b) a ## b
+#define MKCVTBL(hd, cp) MERGE_2STR(hd, cp)
+
+
+
+
+/*--------------------------------------------------------------------------
+
+   Module Private Work Area
+
+---------------------------------------------------------------------------*/
+/* Remark: Variables defined here without initial value shall be guaranteed
+/  zero/null at start-up. If not, the linker option or start-up routine is
+/  not compliance with C standard. */
+
+/*--------------------------------*/
+/* File/Volume controls           */
+/*--------------------------------*/
+
+#if FF_VOLUMES < 1 || FF_VOLUMES > 10
+#error Wrong FF_VOLUMES setting
+#endif
+static FATFS* FatFs[FF_VOLUMES];	/* Pointer to the filesystem objects (logical drives) */
+static WORD Fsid;					/* Filesystem mount ID */
+
+#if FF_FS_RPATH != 0
+static BYTE CurrVol;				/* Current drive */
+#endif
+
+#if FF_FS_LOCK != 0
+static FILESEM Files[FF_FS_LOCK];	/* Open object lock semaphores */
+#endif
+
+#if FF_STR_VOLUME_ID
+#ifdef FF_VOLUME_STRS
+static const char* const VolumeStr[FF_VOLUMES] = {FF_VOLUME_STRS};	/* Pre-defined volume ID */
+#endif
+#endif
+
+#if FF_LBA64
+#if FF_MIN_GPT > 0x100000000
+#error Wrong FF_MIN_GPT setting
+#endif
+static const BYTE GUID_MS_Basic[16] = {0xA2,0xA0,0xD0,0xEB,0xE5,0xB9,0x33,0x44,0x87,0xC0,0x68,0xB6,0xB7,0x26,0x99,0xC7};
+#endif
+
+
+
+/*--------------------------------*/
+/* LFN/Directory working buffer   */
+/*--------------------------------*/
+
+#if FF_USE_LFN == 0		/* Non-LFN configuration */
+#if FF_FS_EXFAT
+#error LFN must be enabled when enable exFAT
+#endif
+#define DEF_NAMBUF
+#define INIT_NAMBUF(fs)
+#define FREE_NAMBUF()
+#define LEAVE_MKFS(res)	return res
+
+#else					/* LFN configurations */
+#if FF_MAX_LFN < 12 || FF_MAX_LFN > 255
+#error Wrong setting of FF_MAX_LFN
+#endif
+#if FF_LFN_BUF < FF_SFN_BUF || FF_SFN_BUF < 12
+#error Wrong setting of FF_LFN_BUF or FF_SFN_BUF
+#endif
+#if FF_LFN_UNICODE < 0 || FF_LFN_UNICODE > 3
+#error Wrong setting of FF_LFN_UNICODE
+#endif
+static const BYTE LfnOfs[] = {1,3,5,7,9,14,16,18,20,22,24,28,30};	/* FAT: Offset of LFN characters in the directory entry */
+#define MAXDIRB(nc)	((nc + 44U) / 15 * SZDIRE)	/* exFAT: Size of directory entry block scratchpad buffer needed for the name length */
+
+#if FF_USE_LFN == 1		/* LFN enabled with static working buffer */
+#if FF_FS_EXFAT
+static BYTE	DirBuf[MAXDIRB(FF_MAX_LFN)];	/* Directory entry block scratchpad buffer */
+#endif
+static WCHAR LfnBuf[FF_MAX_LFN + 1];		/* LFN working buffer */
+#define DEF_NAMBUF
+#define INIT_NAMBUF(fs)
+#define FREE_NAMBUF()
+#define LEAVE_MKFS(res)	return res
+
+#elif FF_USE_LFN == 2 	/* LFN enabled with dynamic working buffer on the stack */
+#if FF_FS_EXFAT
+#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1]; BYTE dbuf[MAXDIRB(FF_MAX_LFN)];	/* LFN working buffer and directory entry block scratchpad buffer */
+#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; (fs)->dirbuf = dbuf; }
+#define FREE_NAMBUF()
+#else
+#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1];	/* LFN working buffer */
+#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; }
+#define FREE_NAMBUF()
+#endif
+#define LEAVE_MKFS(res)	return res
+
+#elif FF_USE_LFN == 3 	/* LFN enabled with dynamic working buffer on the heap */
+#if FF_FS_EXFAT
+#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer and directory entry block scratchpad buffer */
+#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2 + MAXDIRB(FF_MAX_LFN)); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; (fs)->dirbuf = (BYTE*)(lfn+FF_MAX_LFN+1); }
+#define FREE_NAMBUF()	ff_memfree(lfn)
+#else
+#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer */
+#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; }
+#define FREE_NAMBUF()	ff_memfree(lfn)
+#endif
+#define LEAVE_MKFS(res)	{ if (!work) ff_memfree(buf); return res; }
+#define MAX_MALLOC	0x8000	/* Must be >=FF_MAX_SS */
+
+#else
+#error Wrong setting of FF_USE_LFN
+
+#endif	/* FF_USE_LFN == 1 */
+#endif	/* FF_USE_LFN == 0 */
+
+
+
+/*--------------------------------*/
+/* Code conversion tables         */
+/*--------------------------------*/
+
+#if FF_CODE_PAGE == 0	/* Run-time code page configuration */
+#define CODEPAGE CodePage
+static WORD CodePage;	/* Current code page */
+static const BYTE *ExCvt, *DbcTbl;	/* Pointer to current SBCS up-case table and DBCS code range table below */
+
+static const BYTE Ct437[] = TBL_CT437;
+static const BYTE Ct720[] = TBL_CT720;
+static const BYTE Ct737[] = TBL_CT737;
+static const BYTE Ct771[] = TBL_CT771;
+static const BYTE Ct775[] = TBL_CT775;
+static const BYTE Ct850[] = TBL_CT850;
+static const BYTE Ct852[] = TBL_CT852;
+static const BYTE Ct855[] = TBL_CT855;
+static const BYTE Ct857[] = TBL_CT857;
+static const BYTE Ct860[] = TBL_CT860;
+static const BYTE Ct861[] = TBL_CT861;
+static const BYTE Ct862[] = TBL_CT862;
+static const BYTE Ct863[] = TBL_CT863;
+static const BYTE Ct864[] = TBL_CT864;
+static const BYTE Ct865[] = TBL_CT865;
+static const BYTE Ct866[] = TBL_CT866;
+static const BYTE Ct869[] = TBL_CT869;
+static const BYTE Dc932[] = TBL_DC932;
+static const BYTE Dc936[] = TBL_DC936;
+static const BYTE Dc949[] = TBL_DC949;
+static const BYTE Dc950[] = TBL_DC950;
+
+#elif FF_CODE_PAGE < 900	/* Static code page configuration (SBCS) */
+#define CODEPAGE FF_CODE_PAGE
+static const BYTE ExCvt[] = MKCVTBL(TBL_CT, FF_CODE_PAGE);
+
+#else					/* Static code page configuration (DBCS) */
+#define CODEPAGE FF_CODE_PAGE
+static const BYTE DbcTbl[] = MKCVTBL(TBL_DC, FF_CODE_PAGE);
+
+#endif
+
+
+
+
+/*--------------------------------------------------------------------------
+
+   Module Private Functions
+
+---------------------------------------------------------------------------*/
+
+
+/*-----------------------------------------------------------------------*/
+/* Load/Store multi-byte word in the FAT structure                       */
+/*-----------------------------------------------------------------------*/
+
+static WORD ld_word (const BYTE* ptr)	/*	 Load a 2-byte little-endian word */
+{
+	WORD rv;
+
+	rv = ptr[1];
+	rv = rv << 8 | ptr[0];
+	return rv;
+}
+
+static DWORD ld_dword (const BYTE* ptr)	/* Load a 4-byte little-endian word */
+{
+	DWORD rv;
+
+	rv = ptr[3];
+	rv = rv << 8 | ptr[2];
+	rv = rv << 8 | ptr[1];
+	rv = rv << 8 | ptr[0];
+	return rv;
+}
+
+#if FF_FS_EXFAT
+static QWORD ld_qword (const BYTE* ptr)	/* Load an 8-byte little-endian word */
+{
+	QWORD rv;
+
+	rv = ptr[7];
+	rv = rv << 8 | ptr[6];
+	rv = rv << 8 | ptr[5];
+	rv = rv << 8 | ptr[4];
+	rv = rv << 8 | ptr[3];
+	rv = rv << 8 | ptr[2];
+	rv = rv << 8 | ptr[1];
+	rv = rv << 8 | ptr[0];
+	return rv;
+}
+#endif
+
+#if !FF_FS_READONLY
+static void st_word (BYTE* ptr, WORD val)	/* Store a 2-byte word in little-endian */
+{
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val;
+}
+
+static void st_dword (BYTE* ptr, DWORD val)	/* Store a 4-byte word in little-endian */
+{
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val;
+}
+
+#if FF_FS_EXFAT
+static void st_qword (BYTE* ptr, QWORD val)	/* Store an 8-byte word in little-endian */
+{
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val;
+}
+#endif
+#endif	/* !FF_FS_READONLY */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* String functions                                                      */
+/*-----------------------------------------------------------------------*/
+
+/* Test if the byte is DBC 1st byte */
+static int dbc_1st (BYTE c)
+{
+#if FF_CODE_PAGE == 0		/* Variable code page */
+	if (DbcTbl && c >= DbcTbl[0]) {
+		if (c <= DbcTbl[1]) return 1;					/* 1st byte range 1 */
+		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;	/* 1st byte range 2 */
+	}
+#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
+	if (c >= DbcTbl[0]) {
+		if (c <= DbcTbl[1]) return 1;
+		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;
+	}
+#else						/* SBCS fixed code page */
+	if (c != 0) return 0;	/* Always false */
+#endif
+	return 0;
+}
+
+
+/* Test if the byte is DBC 2nd byte */
+static int dbc_2nd (BYTE c)
+{
+#if FF_CODE_PAGE == 0		/* Variable code page */
+	if (DbcTbl && c >= DbcTbl[4]) {
+		if (c <= DbcTbl[5]) return 1;					/* 2nd byte range 1 */
+		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;	/* 2nd byte range 2 */
+		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;	/* 2nd byte range 3 */
+	}
+#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
+	if (c >= DbcTbl[4]) {
+		if (c <= DbcTbl[5]) return 1;
+		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;
+		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;
+	}
+#else						/* SBCS fixed code page */
+	if (c != 0) return 0;	/* Always false */
+#endif
+	return 0;
+}
+
+
+#if FF_USE_LFN
+
+/* Get a Unicode code point from the TCHAR string in defined API encodeing */
+static DWORD tchar2uni (	/* Returns a character in UTF-16 encoding (>=0x10000 on surrogate pair, 0xFFFFFFFF on decode error) */
+	const TCHAR** str		/* Pointer to pointer to TCHAR string in configured encoding */
+)
+{
+	DWORD uc;
+	const TCHAR *p = *str;
+
+#if FF_LFN_UNICODE == 1		/* UTF-16 input */
+	WCHAR wc;
+
+	uc = *p++;	/* Get a unit */
+	if (IsSurrogate(uc)) {	/* Surrogate? */
+		wc = *p++;		/* Get low surrogate */
+		if (!IsSurrogateH(uc) || !IsSurrogateL(wc)) return 0xFFFFFFFF;	/* Wrong surrogate? */
+		uc = uc << 16 | wc;
+	}
+
+#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
+	BYTE b;
+	int nf;
+
+	uc = (BYTE)*p++;	/* Get an encoding unit */
+	if (uc & 0x80) {	/* Multiple byte code? */
+		if        ((uc & 0xE0) == 0xC0) {	/* 2-byte sequence? */
+			uc &= 0x1F; nf = 1;
+		} else if ((uc & 0xF0) == 0xE0) {	/* 3-byte sequence? */
+			uc &= 0x0F; nf = 2;
+		} else if ((uc & 0xF8) == 0xF0) {	/* 4-byte sequence? */
+			uc &= 0x07; nf = 3;
+		} else {							/* Wrong sequence */
+			return 0xFFFFFFFF;
+		}
+		do {	/* Get trailing bytes */
+			b = (BYTE)*p++;
+			if ((b & 0xC0) != 0x80) return 0xFFFFFFFF;	/* Wrong sequence? */
+			uc = uc << 6 | (b & 0x3F);
+		} while (--nf != 0);
+		if (uc < 0x80 || IsSurrogate(uc) || uc >= 0x110000) return 0xFFFFFFFF;	/* Wrong code? */
+		if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
+	}
+
+#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
+	uc = (TCHAR)*p++;	/* Get a unit */
+	if (uc >= 0x110000 || IsSurrogate(uc)) return 0xFFFFFFFF;	/* Wrong code? */
+	if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
+
+#else		/* ANSI/OEM input */
+	BYTE b;
+	WCHAR wc;
+
+	wc = (BYTE)*p++;			/* Get a byte */
+	if (dbc_1st((BYTE)wc)) {	/* Is it a DBC 1st byte? */
+		b = (BYTE)*p++;			/* Get 2nd byte */
+		if (!dbc_2nd(b)) return 0xFFFFFFFF;	/* Invalid code? */
+		wc = (wc << 8) + b;		/* Make a DBC */
+	}
+	if (wc != 0) {
+		wc = ff_oem2uni(wc, CODEPAGE);	/* ANSI/OEM ==> Unicode */
+		if (wc == 0) return 0xFFFFFFFF;	/* Invalid code? */
+	}
+	uc = wc;
+
+#endif
+	*str = p;	/* Next read pointer */
+	return uc;
+}
+
+
+/* Store a Unicode char in defined API encoding */
+static UINT put_utf (	/* Returns number of encoding units written (0:buffer overflow or wrong encoding) */
+	DWORD chr,	/* UTF-16 encoded character (Surrogate pair if >=0x10000) */
+	TCHAR* buf,	/* Output buffer */
+	UINT szb	/* Size of the buffer */
+)
+{
+#if FF_LFN_UNICODE == 1	/* UTF-16 output */
+	WCHAR hs, wc;
+
+	hs = (WCHAR)(chr >> 16);
+	wc = (WCHAR)chr;
+	if (hs == 0) {	/* Single encoding unit? */
+		if (szb < 1 || IsSurrogate(wc)) return 0;	/* Buffer overflow or wrong code? */
+		*buf = wc;
+		return 1;
+	}
+	if (szb < 2 || !IsSurrogateH(hs) || !IsSurrogateL(wc)) return 0;	/* Buffer overflow or wrong surrogate? */
+	*buf++ = hs;
+	*buf++ = wc;
+	return 2;
+
+#elif FF_LFN_UNICODE == 2	/* UTF-8 output */
+	DWORD hc;
+
+	if (chr < 0x80) {	/* Single byte code? */
+		if (szb < 1) return 0;	/* Buffer overflow? */
+		*buf = (TCHAR)chr;
+		return 1;
+	}
+	if (chr < 0x800) {	/* 2-byte sequence? */
+		if (szb < 2) return 0;	/* Buffer overflow? */
+		*buf++ = (TCHAR)(0xC0 | (chr >> 6 & 0x1F));
+		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
+		return 2;
+	}
+	if (chr < 0x10000) {	/* 3-byte sequence? */
+		if (szb < 3 || IsSurrogate(chr)) return 0;	/* Buffer overflow or wrong code? */
+		*buf++ = (TCHAR)(0xE0 | (chr >> 12 & 0x0F));
+		*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
+		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
+		return 3;
+	}
+	/* 4-byte sequence */
+	if (szb < 4) return 0;	/* Buffer overflow? */
+	hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
+	chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
+	if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
+	chr = (hc | chr) + 0x10000;
+	*buf++ = (TCHAR)(0xF0 | (chr >> 18 & 0x07));
+	*buf++ = (TCHAR)(0x80 | (chr >> 12 & 0x3F));
+	*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
+	*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
+	return 4;
+
+#elif FF_LFN_UNICODE == 3	/* UTF-32 output */
+	DWORD hc;
+
+	if (szb < 1) return 0;	/* Buffer overflow? */
+	if (chr >= 0x10000) {	/* Out of BMP? */
+		hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
+		chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
+		if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
+		chr = (hc | chr) + 0x10000;
+	}
+	*buf++ = (TCHAR)chr;
+	return 1;
+
+#else						/* ANSI/OEM output */
+	WCHAR wc;
+
+	wc = ff_uni2oem(chr, CODEPAGE);
+	if (wc >= 0x100) {	/* Is this a DBC? */
+		if (szb < 2) return 0;
+		*buf++ = (char)(wc >> 8);	/* Store DBC 1st byte */
+		*buf++ = (TCHAR)wc;			/* Store DBC 2nd byte */
+		return 2;
+	}
+	if (wc == 0 || szb < 1) return 0;	/* Invalid char or buffer overflow? */
+	*buf++ = (TCHAR)wc;					/* Store the character */
+	return 1;
+#endif
+}
+#endif	/* FF_USE_LFN */
+
+
+#if FF_FS_REENTRANT
+/*-----------------------------------------------------------------------*/
+/* Request/Release grant to access the volume                            */
+/*-----------------------------------------------------------------------*/
+static int lock_fs (		/* 1:Ok, 0:timeout */
+	FATFS* fs		/* Filesystem object */
+)
+{
+	return ff_req_grant(fs->sobj);
+}
+
+
+static void unlock_fs (
+	FATFS* fs,		/* Filesystem object */
+	FRESULT res		/* Result code to be returned */
+)
+{
+	if (fs && res != FR_NOT_ENABLED && res != FR_INVALID_DRIVE && res != FR_TIMEOUT) {
+		ff_rel_grant(fs->sobj);
+	}
+}
+
+#endif
+
+
+
+#if FF_FS_LOCK != 0
+/*-----------------------------------------------------------------------*/
+/* File lock control functions                                           */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT chk_lock (	/* Check if the file can be accessed */
+	DIR* dp,		/* Directory object pointing the file to be checked */
+	int acc			/* Desired access type (0:Read mode open, 1:Write mode open, 2:Delete or rename) */
+)
+{
+	UINT i, be;
+
+	/* Search open object table for the object */
+	be = 0;
+	for (i = 0; i < FF_FS_LOCK; i++) {
+		if (Files[i].fs) {	/* Existing entry */
+			if (Files[i].fs == dp->obj.fs &&	 	/* Check if the object matches with an open object */
+				Files[i].clu == dp->obj.sclust &&
+				Files[i].ofs == dp->dptr) break;
+		} else {			/* Blank entry */
+			be = 1;
+		}
+	}
+	if (i == FF_FS_LOCK) {	/* The object has not been opened */
+		return (!be && acc != 2) ? FR_TOO_MANY_OPEN_FILES : FR_OK;	/* Is there a blank entry for new object? */
+	}
+
+	/* The object was opened. Reject any open against writing file and all write mode open */
+	return (acc != 0 || Files[i].ctr == 0x100) ? FR_LOCKED : FR_OK;
+}
+
+
+static int enq_lock (void)	/* Check if an entry is available for a new object */
+{
+	UINT i;
+
+	for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
+	return (i == FF_FS_LOCK) ? 0 : 1;
+}
+
+
+static UINT inc_lock (	/* Increment object open counter and returns its index (0:Internal error) */
+	DIR* dp,	/* Directory object pointing the file to register or increment */
+	int acc		/* Desired access (0:Read, 1:Write, 2:Delete/Rename) */
+)
+{
+	UINT i;
+
+
+	for (i = 0; i < FF_FS_LOCK; i++) {	/* Find the object */
+		if (Files[i].fs == dp->obj.fs
+		 && Files[i].clu == dp->obj.sclust
+		 && Files[i].ofs == dp->dptr) break;
+	}
+
+	if (i == FF_FS_LOCK) {			/* Not opened. Register it as new. */
+		for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
+		if (i == FF_FS_LOCK) return 0;	/* No free entry to register (int err) */
+		Files[i].fs = dp->obj.fs;
+		Files[i].clu = dp->obj.sclust;
+		Files[i].ofs = dp->dptr;
+		Files[i].ctr = 0;
+	}
+
+	if (acc >= 1 && Files[i].ctr) return 0;	/* Access violation (int err) */
+
+	Files[i].ctr = acc ? 0x100 : Files[i].ctr + 1;	/* Set semaphore value */
+
+	return i + 1;	/* Index number origin from 1 */
+}
+
+
+static FRESULT dec_lock (	/* Decrement object open counter */
+	UINT i			/* Semaphore index (1..) */
+)
+{
+	WORD n;
+	FRESULT res;
+
+
+	if (--i < FF_FS_LOCK) {	/* Index number origin from 0 */
+		n = Files[i].ctr;
+		if (n == 0x100) n = 0;	/* If write mode open, delete the entry */
+		if (n > 0) n--;			/* Decrement read mode open count */
+		Files[i].ctr = n;
+		if (n == 0) Files[i].fs = 0;	/* Delete the entry if open count gets zero */
+		res = FR_OK;
+	} else {
+		res = FR_INT_ERR;		/* Invalid index nunber */
+	}
+	return res;
+}
+
+
+static void clear_lock (	/* Clear lock entries of the volume */
+	FATFS *fs
+)
+{
+	UINT i;
+
+	for (i = 0; i < FF_FS_LOCK; i++) {
+		if (Files[i].fs == fs) Files[i].fs = 0;
+	}
+}
+
+#endif	/* FF_FS_LOCK != 0 */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Move/Flush disk access window in the filesystem object                */
+/*-----------------------------------------------------------------------*/
+#if !FF_FS_READONLY
+static FRESULT sync_window (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS* fs			/* Filesystem object */
+)
+{
+	FRESULT res = FR_OK;
+
+
+	if (fs->wflag) {	/* Is the disk access window dirty? */
+		if (disk_write(fs->pdrv, fs->win, fs->winsect, 1) == RES_OK) {	/* Write it back into the volume */
+			fs->wflag = 0;	/* Clear window dirty flag */
+			if (fs->winsect - fs->fatbase < fs->fsize) {	/* Is it in the 1st FAT? */
+				if (fs->n_fats == 2) disk_write(fs->pdrv, fs->win, fs->winsect + fs->fsize, 1);	/* Reflect it to 2nd FAT if needed */
+			}
+		} else {
+			res = FR_DISK_ERR;
+		}
+	}
+	return res;
+}
+#endif
+
+
+static FRESULT move_window (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS* fs,		/* Filesystem object */
+	LBA_t sect		/* Sector LBA to make appearance in the fs->win[] */
+)
+{
+	FRESULT res = FR_OK;
+
+
+	if (sect != fs->winsect) {	/* Window offset changed? */
+#if !FF_FS_READONLY
+		res = sync_window(fs);		/* Flush the window */
+#endif
+		if (res == FR_OK) {			/* Fill sector window with new data */
+			if (disk_read(fs->pdrv, fs->win, sect, 1) != RES_OK) {
+				sect = (LBA_t)0 - 1;	/* Invalidate window if read data is not valid */
+				res = FR_DISK_ERR;
+			}
+			fs->winsect = sect;
+		}
+	}
+	return res;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Synchronize filesystem and data on the storage                        */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT sync_fs (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS* fs		/* Filesystem object */
+)
+{
+	FRESULT res;
+
+
+	res = sync_window(fs);
+	if (res == FR_OK) {
+		if (fs->fs_type == FS_FAT32 && fs->fsi_flag == 1) {	/* FAT32: Update FSInfo sector if needed */
+			/* Create FSInfo structure */
+			memset(fs->win, 0, sizeof fs->win);
+			st_word(fs->win + BS_55AA, 0xAA55);					/* Boot signature */
+			st_dword(fs->win + FSI_LeadSig, 0x41615252);		/* Leading signature */
+			st_dword(fs->win + FSI_StrucSig, 0x61417272);		/* Structure signature */
+			st_dword(fs->win + FSI_Free_Count, fs->free_clst);	/* Number of free clusters */
+			st_dword(fs->win + FSI_Nxt_Free, fs->last_clst);	/* Last allocated culuster */
+			fs->winsect = fs->volbase + 1;						/* Write it into the FSInfo sector (Next to VBR) */
+			disk_write(fs->pdrv, fs->win, fs->winsect, 1);
+			fs->fsi_flag = 0;
+		}
+		/* Make sure that no pending write process in the lower layer */
+		if (disk_ioctl(fs->pdrv, CTRL_SYNC, 0) != RES_OK) res = FR_DISK_ERR;
+	}
+
+	return res;
+}
+
+#endif
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Get physical sector number from cluster number                        */
+/*-----------------------------------------------------------------------*/
+
+static LBA_t clst2sect (	/* !=0:Sector number, 0:Failed (invalid cluster#) */
+	FATFS* fs,		/* Filesystem object */
+	DWORD clst		/* Cluster# to be converted */
+)
+{
+	clst -= 2;		/* Cluster number is origin from 2 */
+	if (clst >= fs->n_fatent - 2) return 0;		/* Is it invalid cluster number? */
+	return fs->database + (LBA_t)fs->csize * clst;	/* Start sector number of the cluster */
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* FAT access - Read value of an FAT entry                               */
+/*-----------------------------------------------------------------------*/
+
+static DWORD get_fat (		/* 0xFFFFFFFF:Disk error, 1:Internal error, 2..0x7FFFFFFF:Cluster status */
+	FFOBJID* obj,	/* Corresponding object */
+	DWORD clst		/* Cluster number to get the value */
+)
+{
+	UINT wc, bc;
+	DWORD val;
+	FATFS *fs = obj->fs;
+
+
+	if (clst < 2 || clst >= fs->n_fatent) {	/* Check if in valid range */
+		val = 1;	/* Internal error */
+
+	} else {
+		val = 0xFFFFFFFF;	/* Default value falls on disk error */
+
+		switch (fs->fs_type) {
+		case FS_FAT12 :
+			bc = (UINT)clst; bc += bc / 2;
+			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
+			wc = fs->win[bc++ % SS(fs)];		/* Get 1st byte of the entry */
+			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
+			wc |= fs->win[bc % SS(fs)] << 8;	/* Merge 2nd byte of the entry */
+			val = (clst & 1) ? (wc >> 4) : (wc & 0xFFF);	/* Adjust bit position */
+			break;
+
+		case FS_FAT16 :
+			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 2))) != FR_OK) break;
+			val = ld_word(fs->win + clst * 2 % SS(fs));		/* Simple WORD array */
+			break;
+
+		case FS_FAT32 :
+			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
+			val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x0FFFFFFF;	/* Simple DWORD array but mask out upper 4 bits */
+			break;
+#if FF_FS_EXFAT
+		case FS_EXFAT :
+			if ((obj->objsize != 0 && obj->sclust != 0) || obj->stat == 0) {	/* Object except root dir must have valid data length */
+				DWORD cofs = clst - obj->sclust;	/* Offset from start cluster */
+				DWORD clen = (DWORD)((LBA_t)((obj->objsize - 1) / SS(fs)) / fs->csize);	/* Number of clusters - 1 */
+
+				if (obj->stat == 2 && cofs <= clen) {	/* Is it a contiguous chain? */
+					val = (cofs == clen) ? 0x7FFFFFFF : clst + 1;	/* No data on the FAT, generate the value */
+					break;
+				}
+				if (obj->stat == 3 && cofs < obj->n_cont) {	/* Is it in the 1st fragment? */
+					val = clst + 1; 	/* Generate the value */
+					break;
+				}
+				if (obj->stat != 2) {	/* Get value from FAT if FAT chain is valid */
+					if (obj->n_frag != 0) {	/* Is it on the growing edge? */
+						val = 0x7FFFFFFF;	/* Generate EOC */
+					} else {
+						if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
+						val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x7FFFFFFF;
+					}
+					break;
+				}
+			}
+			val = 1;	/* Internal error */
+			break;
+#endif
+		default:
+			val = 1;	/* Internal error */
+		}
+	}
+
+	return val;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* FAT access - Change value of an FAT entry                             */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT put_fat (	/* FR_OK(0):succeeded, !=0:error */
+	FATFS* fs,		/* Corresponding filesystem object */
+	DWORD clst,		/* FAT index number (cluster number) to be changed */
+	DWORD val		/* New value to be set to the entry */
+)
+{
+	UINT bc;
+	BYTE *p;
+	FRESULT res = FR_INT_ERR;
+
+
+	if (clst >= 2 && clst < fs->n_fatent) {	/* Check if in valid range */
+		switch (fs->fs_type) {
+		case FS_FAT12:
+			bc = (UINT)clst; bc += bc / 2;	/* bc: byte offset of the entry */
+			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
+			if (res != FR_OK) break;
+			p = fs->win + bc++ % SS(fs);
+			*p = (clst & 1) ? ((*p & 0x0F) | ((BYTE)val << 4)) : (BYTE)val;	/* Update 1st byte */
+			fs->wflag = 1;
+			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
+			if (res != FR_OK) break;
+			p = fs->win + bc % SS(fs);
+			*p = (clst & 1) ? (BYTE)(val >> 4) : ((*p & 0xF0) | ((BYTE)(val >> 8) & 0x0F));	/* Update 2nd byte */
+			fs->wflag = 1;
+			break;
+
+		case FS_FAT16:
+			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 2)));
+			if (res != FR_OK) break;
+			st_word(fs->win + clst * 2 % SS(fs), (WORD)val);	/* Simple WORD array */
+			fs->wflag = 1;
+			break;
+
+		case FS_FAT32:
+#if FF_FS_EXFAT
+		case FS_EXFAT:
+#endif
+			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 4)));
+			if (res != FR_OK) break;
+			if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
+				val = (val & 0x0FFFFFFF) | (ld_dword(fs->win + clst * 4 % SS(fs)) & 0xF0000000);
+			}
+			st_dword(fs->win + clst * 4 % SS(fs), val);
+			fs->wflag = 1;
+			break;
+		}
+	}
+	return res;
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+
+#if FF_FS_EXFAT && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* exFAT: Accessing FAT and Allocation Bitmap                            */
+/*-----------------------------------------------------------------------*/
+
+/*--------------------------------------*/
+/* Find a contiguous free cluster block */
+/*--------------------------------------*/
+
+static DWORD find_bitmap (	/* 0:Not found, 2..:Cluster block found, 0xFFFFFFFF:Disk error */
+	FATFS* fs,	/* Filesystem object */
+	DWORD clst,	/* Cluster number to scan from */
+	DWORD ncl	/* Number of contiguous clusters to find (1..) */
+)
+{
+	BYTE bm, bv;
+	UINT i;
+	DWORD val, scl, ctr;
+
+
+	clst -= 2;	/* The first bit in the bitmap corresponds to cluster #2 */
+	if (clst >= fs->n_fatent - 2) clst = 0;
+	scl = val = clst; ctr = 0;
+	for (;;) {
+		if (move_window(fs, fs->bitbase + val / 8 / SS(fs)) != FR_OK) return 0xFFFFFFFF;
+		i = val / 8 % SS(fs); bm = 1 << (val % 8);
+		do {
+			do {
+				bv = fs->win[i] & bm; bm <<= 1;		/* Get bit value */
+				if (++val >= fs->n_fatent - 2) {	/* Next cluster (with wrap-around) */
+					val = 0; bm = 0; i = SS(fs);
+				}
+				if (bv == 0) {	/* Is it a free cluster? */
+					if (++ctr == ncl) return scl + 2;	/* Check if run length is sufficient for required */
+				} else {
+					scl = val; ctr = 0;		/* Encountered a cluster in-use, restart to scan */
+				}
+				if (val == clst) return 0;	/* All cluster scanned? */
+			} while (bm != 0);
+			bm = 1;
+		} while (++i < SS(fs));
+	}
+}
+
+
+/*----------------------------------------*/
+/* Set/Clear a block of allocation bitmap */
+/*----------------------------------------*/
+
+static FRESULT change_bitmap (
+	FATFS* fs,	/* Filesystem object */
+	DWORD clst,	/* Cluster number to change from */
+	DWORD ncl,	/* Number of clusters to be changed */
+	int bv		/* bit value to be set (0 or 1) */
+)
+{
+	BYTE bm;
+	UINT i;
+	LBA_t sect;
+
+
+	clst -= 2;	/* The first bit corresponds to cluster #2 */
+	sect = fs->bitbase + clst / 8 / SS(fs);	/* Sector address */
+	i = clst / 8 % SS(fs);					/* Byte offset in the sector */
+	bm = 1 << (clst % 8);					/* Bit mask in the byte */
+	for (;;) {
+		if (move_window(fs, sect++) != FR_OK) return FR_DISK_ERR;
+		do {
+			do {
+				if (bv == (int)((fs->win[i] & bm) != 0)) return FR_INT_ERR;	/* Is the bit expected value? */
+				fs->win[i] ^= bm;	/* Flip the bit */
+				fs->wflag = 1;
+				if (--ncl == 0) return FR_OK;	/* All bits processed? */
+			} while (bm <<= 1);		/* Next bit */
+			bm = 1;
+		} while (++i < SS(fs));		/* Next byte */
+		i = 0;
+	}
+}
+
+
+/*---------------------------------------------*/
+/* Fill the first fragment of the FAT chain    */
+/*---------------------------------------------*/
+
+static FRESULT fill_first_frag (
+	FFOBJID* obj	/* Pointer to the corresponding object */
+)
+{
+	FRESULT res;
+	DWORD cl, n;
+
+
+	if (obj->stat == 3) {	/* Has the object been changed 'fragmented' in this session? */
+		for (cl = obj->sclust, n = obj->n_cont; n; cl++, n--) {	/* Create cluster chain on the FAT */
+			res = put_fat(obj->fs, cl, cl + 1);
+			if (res != FR_OK) return res;
+		}
+		obj->stat = 0;	/* Change status 'FAT chain is valid' */
+	}
+	return FR_OK;
+}
+
+
+/*---------------------------------------------*/
+/* Fill the last fragment of the FAT chain     */
+/*---------------------------------------------*/
+
+static FRESULT fill_last_frag (
+	FFOBJID* obj,	/* Pointer to the corresponding object */
+	DWORD lcl,		/* Last cluster of the fragment */
+	DWORD term		/* Value to set the last FAT entry */
+)
+{
+	FRESULT res;
+
+
+	while (obj->n_frag > 0) {	/* Create the chain of last fragment */
+		res = put_fat(obj->fs, lcl - obj->n_frag + 1, (obj->n_frag > 1) ? lcl - obj->n_frag + 2 : term);
+		if (res != FR_OK) return res;
+		obj->n_frag--;
+	}
+	return FR_OK;
+}
+
+#endif	/* FF_FS_EXFAT && !FF_FS_READONLY */
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* FAT handling - Remove a cluster chain                                 */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT remove_chain (	/* FR_OK(0):succeeded, !=0:error */
+	FFOBJID* obj,		/* Corresponding object */
+	DWORD clst,			/* Cluster to remove a chain from */
+	DWORD pclst			/* Previous cluster of clst (0 if entire chain) */
+)
+{
+	FRESULT res = FR_OK;
+	DWORD nxt;
+	FATFS *fs = obj->fs;
+#if FF_FS_EXFAT || FF_USE_TRIM
+	DWORD scl = clst, ecl = clst;
+#endif
+#if FF_USE_TRIM
+	LBA_t rt[2];
+#endif
+
+	if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Check if in valid range */
+
+	/* Mark the previous cluster 'EOC' on the FAT if it exists */
+	if (pclst != 0 && (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT || obj->stat != 2)) {
+		res = put_fat(fs, pclst, 0xFFFFFFFF);
+		if (res != FR_OK) return res;
+	}
+
+	/* Remove the chain */
+	do {
+		nxt = get_fat(obj, clst);			/* Get cluster status */
+		if (nxt == 0) break;				/* Empty cluster? */
+		if (nxt == 1) return FR_INT_ERR;	/* Internal error? */
+		if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error? */
+		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
+			res = put_fat(fs, clst, 0);		/* Mark the cluster 'free' on the FAT */
+			if (res != FR_OK) return res;
+		}
+		if (fs->free_clst < fs->n_fatent - 2) {	/* Update FSINFO */
+			fs->free_clst++;
+			fs->fsi_flag |= 1;
+		}
+#if FF_FS_EXFAT || FF_USE_TRIM
+		if (ecl + 1 == nxt) {	/* Is next cluster contiguous? */
+			ecl = nxt;
+		} else {				/* End of contiguous cluster block */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				res = change_bitmap(fs, scl, ecl - scl + 1, 0);	/* Mark the cluster block 'free' on the bitmap */
+				if (res != FR_OK) return res;
+			}
+#endif
+#if FF_USE_TRIM
+			rt[0] = clst2sect(fs, scl);					/* Start of data area to be freed */
+			rt[1] = clst2sect(fs, ecl) + fs->csize - 1;	/* End of data area to be freed */
+			disk_ioctl(fs->pdrv, CTRL_TRIM, rt);		/* Inform storage device that the data in the block may be erased */
+#endif
+			scl = ecl = nxt;
+		}
+#endif
+		clst = nxt;					/* Next cluster */
+	} while (clst < fs->n_fatent);	/* Repeat while not the last link */
+
+#if FF_FS_EXFAT
+	/* Some post processes for chain status */
+	if (fs->fs_type == FS_EXFAT) {
+		if (pclst == 0) {	/* Has the entire chain been removed? */
+			obj->stat = 0;		/* Change the chain status 'initial' */
+		} else {
+			if (obj->stat == 0) {	/* Is it a fragmented chain from the beginning of this session? */
+				clst = obj->sclust;		/* Follow the chain to check if it gets contiguous */
+				while (clst != pclst) {
+					nxt = get_fat(obj, clst);
+					if (nxt < 2) return FR_INT_ERR;
+					if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;
+					if (nxt != clst + 1) break;	/* Not contiguous? */
+					clst++;
+				}
+				if (clst == pclst) {	/* Has the chain got contiguous again? */
+					obj->stat = 2;		/* Change the chain status 'contiguous' */
+				}
+			} else {
+				if (obj->stat == 3 && pclst >= obj->sclust && pclst <= obj->sclust + obj->n_cont) {	/* Was the chain fragmented in this session and got contiguous again? */
+					obj->stat = 2;	/* Change the chain status 'contiguous' */
+				}
+			}
+		}
+	}
+#endif
+	return FR_OK;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* FAT handling - Stretch a chain or Create a new chain                  */
+/*-----------------------------------------------------------------------*/
+
+static DWORD create_chain (	/* 0:No free cluster, 1:Internal error, 0xFFFFFFFF:Disk error, >=2:New cluster# */
+	FFOBJID* obj,		/* Corresponding object */
+	DWORD clst			/* Cluster# to stretch, 0:Create a new chain */
+)
+{
+	DWORD cs, ncl, scl;
+	FRESULT res;
+	FATFS *fs = obj->fs;
+
+
+	if (clst == 0) {	/* Create a new chain */
+		scl = fs->last_clst;				/* Suggested cluster to start to find */
+		if (scl == 0 || scl >= fs->n_fatent) scl = 1;
+	}
+	else {				/* Stretch a chain */
+		cs = get_fat(obj, clst);			/* Check the cluster status */
+		if (cs < 2) return 1;				/* Test for insanity */
+		if (cs == 0xFFFFFFFF) return cs;	/* Test for disk error */
+		if (cs < fs->n_fatent) return cs;	/* It is already followed by next cluster */
+		scl = clst;							/* Cluster to start to find */
+	}
+	if (fs->free_clst == 0) return 0;		/* No free cluster */
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		ncl = find_bitmap(fs, scl, 1);				/* Find a free cluster */
+		if (ncl == 0 || ncl == 0xFFFFFFFF) return ncl;	/* No free cluster or hard error? */
+		res = change_bitmap(fs, ncl, 1, 1);			/* Mark the cluster 'in use' */
+		if (res == FR_INT_ERR) return 1;
+		if (res == FR_DISK_ERR) return 0xFFFFFFFF;
+		if (clst == 0) {							/* Is it a new chain? */
+			obj->stat = 2;							/* Set status 'contiguous' */
+		} else {									/* It is a stretched chain */
+			if (obj->stat == 2 && ncl != scl + 1) {	/* Is the chain got fragmented? */
+				obj->n_cont = scl - obj->sclust;	/* Set size of the contiguous part */
+				obj->stat = 3;						/* Change status 'just fragmented' */
+			}
+		}
+		if (obj->stat != 2) {	/* Is the file non-contiguous? */
+			if (ncl == clst + 1) {	/* Is the cluster next to previous one? */
+				obj->n_frag = obj->n_frag ? obj->n_frag + 1 : 2;	/* Increment size of last framgent */
+			} else {				/* New fragment */
+				if (obj->n_frag == 0) obj->n_frag = 1;
+				res = fill_last_frag(obj, clst, ncl);	/* Fill last fragment on the FAT and link it to new one */
+				if (res == FR_OK) obj->n_frag = 1;
+			}
+		}
+	} else
+#endif
+	{	/* On the FAT/FAT32 volume */
+		ncl = 0;
+		if (scl == clst) {						/* Stretching an existing chain? */
+			ncl = scl + 1;						/* Test if next cluster is free */
+			if (ncl >= fs->n_fatent) ncl = 2;
+			cs = get_fat(obj, ncl);				/* Get next cluster status */
+			if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
+			if (cs != 0) {						/* Not free? */
+				cs = fs->last_clst;				/* Start at suggested cluster if it is valid */
+				if (cs >= 2 && cs < fs->n_fatent) scl = cs;
+				ncl = 0;
+			}
+		}
+		if (ncl == 0) {	/* The new cluster cannot be contiguous and find another fragment */
+			ncl = scl;	/* Start cluster */
+			for (;;) {
+				ncl++;							/* Next cluster */
+				if (ncl >= fs->n_fatent) {		/* Check wrap-around */
+					ncl = 2;
+					if (ncl > scl) return 0;	/* No free cluster found? */
+				}
+				cs = get_fat(obj, ncl);			/* Get the cluster status */
+				if (cs == 0) break;				/* Found a free cluster? */
+				if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
+				if (ncl == scl) return 0;		/* No free cluster found? */
+			}
+		}
+		res = put_fat(fs, ncl, 0xFFFFFFFF);		/* Mark the new cluster 'EOC' */
+		if (res == FR_OK && clst != 0) {
+			res = put_fat(fs, clst, ncl);		/* Link it from the previous one if needed */
+		}
+	}
+
+	if (res == FR_OK) {			/* Update FSINFO if function succeeded. */
+		fs->last_clst = ncl;
+		if (fs->free_clst <= fs->n_fatent - 2) fs->free_clst--;
+		fs->fsi_flag |= 1;
+	} else {
+		ncl = (res == FR_DISK_ERR) ? 0xFFFFFFFF : 1;	/* Failed. Generate error status */
+	}
+
+	return ncl;		/* Return new cluster number or error status */
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+
+#if FF_USE_FASTSEEK
+/*-----------------------------------------------------------------------*/
+/* FAT handling - Convert offset into cluster with link map table        */
+/*-----------------------------------------------------------------------*/
+
+static DWORD clmt_clust (	/* <2:Error, >=2:Cluster number */
+	FIL* fp,		/* Pointer to the file object */
+	FSIZE_t ofs		/* File offset to be converted to cluster# */
+)
+{
+	DWORD cl, ncl, *tbl;
+	FATFS *fs = fp->obj.fs;
+
+
+	tbl = fp->cltbl + 1;	/* Top of CLMT */
+	cl = (DWORD)(ofs / SS(fs) / fs->csize);	/* Cluster order from top of the file */
+	for (;;) {
+		ncl = *tbl++;			/* Number of cluters in the fragment */
+		if (ncl == 0) return 0;	/* End of table? (error) */
+		if (cl < ncl) break;	/* In this fragment? */
+		cl -= ncl; tbl++;		/* Next fragment */
+	}
+	return cl + *tbl;	/* Return the cluster number */
+}
+
+#endif	/* FF_USE_FASTSEEK */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Fill a cluster with zeros                        */
+/*-----------------------------------------------------------------------*/
+
+#if !FF_FS_READONLY
+static FRESULT dir_clear (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS *fs,		/* Filesystem object */
+	DWORD clst		/* Directory table to clear */
+)
+{
+	LBA_t sect;
+	UINT n, szb;
+	BYTE *ibuf;
+
+
+	if (sync_window(fs) != FR_OK) return FR_DISK_ERR;	/* Flush disk access window */
+	sect = clst2sect(fs, clst);		/* Top of the cluster */
+	fs->winsect = sect;				/* Set window to top of the cluster */
+	memset(fs->win, 0, sizeof fs->win);	/* Clear window buffer */
+#if FF_USE_LFN == 3		/* Quick table clear by using multi-secter write */
+	/* Allocate a temporary buffer */
+	for (szb = ((DWORD)fs->csize * SS(fs) >= MAX_MALLOC) ? MAX_MALLOC : fs->csize * SS(fs), ibuf = 0; szb > SS(fs) && (ibuf = ff_memalloc(szb)) == 0; szb /= 2) ;
+	if (szb > SS(fs)) {		/* Buffer allocated? */
+		memset(ibuf, 0, szb);
+		szb /= SS(fs);		/* Bytes -> Sectors */
+		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
+		ff_memfree(ibuf);
+	} else
+#endif
+	{
+		ibuf = fs->win; szb = 1;	/* Use window buffer (many single-sector writes may take a time) */
+		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
+	}
+	return (n == fs->csize) ? FR_OK : FR_DISK_ERR;
+}
+#endif	/* !FF_FS_READONLY */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Set directory index                              */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_sdi (	/* FR_OK(0):succeeded, !=0:error */
+	DIR* dp,		/* Pointer to directory object */
+	DWORD ofs		/* Offset of directory table */
+)
+{
+	DWORD csz, clst;
+	FATFS *fs = dp->obj.fs;
+
+
+	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR) || ofs % SZDIRE) {	/* Check range of offset and alignment */
+		return FR_INT_ERR;
+	}
+	dp->dptr = ofs;				/* Set current offset */
+	clst = dp->obj.sclust;		/* Table start cluster (0:root) */
+	if (clst == 0 && fs->fs_type >= FS_FAT32) {	/* Replace cluster# 0 with root cluster# */
+		clst = (DWORD)fs->dirbase;
+		if (FF_FS_EXFAT) dp->obj.stat = 0;	/* exFAT: Root dir has an FAT chain */
+	}
+
+	if (clst == 0) {	/* Static table (root-directory on the FAT volume) */
+		if (ofs / SZDIRE >= fs->n_rootdir) return FR_INT_ERR;	/* Is index out of range? */
+		dp->sect = fs->dirbase;
+
+	} else {			/* Dynamic table (sub-directory or root-directory on the FAT32/exFAT volume) */
+		csz = (DWORD)fs->csize * SS(fs);	/* Bytes per cluster */
+		while (ofs >= csz) {				/* Follow cluster chain */
+			clst = get_fat(&dp->obj, clst);				/* Get next cluster */
+			if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
+			if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Reached to end of table or internal error */
+			ofs -= csz;
+		}
+		dp->sect = clst2sect(fs, clst);
+	}
+	dp->clust = clst;					/* Current cluster# */
+	if (dp->sect == 0) return FR_INT_ERR;
+	dp->sect += ofs / SS(fs);			/* Sector# of the directory entry */
+	dp->dir = fs->win + (ofs % SS(fs));	/* Pointer to the entry in the win[] */
+
+	return FR_OK;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Move directory table index next                  */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_next (	/* FR_OK(0):succeeded, FR_NO_FILE:End of table, FR_DENIED:Could not stretch */
+	DIR* dp,				/* Pointer to the directory object */
+	int stretch				/* 0: Do not stretch table, 1: Stretch table if needed */
+)
+{
+	DWORD ofs, clst;
+	FATFS *fs = dp->obj.fs;
+
+
+	ofs = dp->dptr + SZDIRE;	/* Next entry */
+	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR)) dp->sect = 0;	/* Disable it if the offset reached the max value */
+	if (dp->sect == 0) return FR_NO_FILE;	/* Report EOT if it has been disabled */
+
+	if (ofs % SS(fs) == 0) {	/* Sector changed? */
+		dp->sect++;				/* Next sector */
+
+		if (dp->clust == 0) {	/* Static table */
+			if (ofs / SZDIRE >= fs->n_rootdir) {	/* Report EOT if it reached end of static table */
+				dp->sect = 0; return FR_NO_FILE;
+			}
+		}
+		else {					/* Dynamic table */
+			if ((ofs / SS(fs) & (fs->csize - 1)) == 0) {	/* Cluster changed? */
+				clst = get_fat(&dp->obj, dp->clust);		/* Get next cluster */
+				if (clst <= 1) return FR_INT_ERR;			/* Internal error */
+				if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
+				if (clst >= fs->n_fatent) {					/* It reached end of dynamic table */
+#if !FF_FS_READONLY
+					if (!stretch) {								/* If no stretch, report EOT */
+						dp->sect = 0; return FR_NO_FILE;
+					}
+					clst = create_chain(&dp->obj, dp->clust);	/* Allocate a cluster */
+					if (clst == 0) return FR_DENIED;			/* No free cluster */
+					if (clst == 1) return FR_INT_ERR;			/* Internal error */
+					if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
+					if (dir_clear(fs, clst) != FR_OK) return FR_DISK_ERR;	/* Clean up the stretched table */
+					if (FF_FS_EXFAT) dp->obj.stat |= 4;			/* exFAT: The directory has been stretched */
+#else
+					if (!stretch) dp->sect = 0;					/* (this line is to suppress compiler warning) */
+					dp->sect = 0; return FR_NO_FILE;			/* Report EOT */
+#endif
+				}
+				dp->clust = clst;		/* Initialize data for new cluster */
+				dp->sect = clst2sect(fs, clst);
+			}
+		}
+	}
+	dp->dptr = ofs;						/* Current entry */
+	dp->dir = fs->win + ofs % SS(fs);	/* Pointer to the entry in the win[] */
+
+	return FR_OK;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Reserve a block of directory entries             */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_alloc (	/* FR_OK(0):succeeded, !=0:error */
+	DIR* dp,				/* Pointer to the directory object */
+	UINT n_ent				/* Number of contiguous entries to allocate */
+)
+{
+	FRESULT res;
+	UINT n;
+	FATFS *fs = dp->obj.fs;
+
+
+	res = dir_sdi(dp, 0);
+	if (res == FR_OK) {
+		n = 0;
+		do {
+			res = move_window(fs, dp->sect);
+			if (res != FR_OK) break;
+#if FF_FS_EXFAT
+			if ((fs->fs_type == FS_EXFAT) ? (int)((dp->dir[XDIR_Type] & 0x80) == 0) : (int)(dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0)) {	/* Is the entry free? */
+#else
+			if (dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0) {	/* Is the entry free? */
+#endif
+				if (++n == n_ent) break;	/* Is a block of contiguous free entries found? */
+			} else {
+				n = 0;				/* Not a free entry, restart to search */
+			}
+			res = dir_next(dp, 1);	/* Next entry with table stretch enabled */
+		} while (res == FR_OK);
+	}
+
+	if (res == FR_NO_FILE) res = FR_DENIED;	/* No directory entry to allocate */
+	return res;
+}
+
+#endif	/* !FF_FS_READONLY */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* FAT: Directory handling - Load/Store start cluster number             */
+/*-----------------------------------------------------------------------*/
+
+static DWORD ld_clust (	/* Returns the top cluster value of the SFN entry */
+	FATFS* fs,			/* Pointer to the fs object */
+	const BYTE* dir		/* Pointer to the key entry */
+)
+{
+	DWORD cl;
+
+	cl = ld_word(dir + DIR_FstClusLO);
+	if (fs->fs_type == FS_FAT32) {
+		cl |= (DWORD)ld_word(dir + DIR_FstClusHI) << 16;
+	}
+
+	return cl;
+}
+
+
+#if !FF_FS_READONLY
+static void st_clust (
+	FATFS* fs,	/* Pointer to the fs object */
+	BYTE* dir,	/* Pointer to the key entry */
+	DWORD cl	/* Value to be set */
+)
+{
+	st_word(dir + DIR_FstClusLO, (WORD)cl);
+	if (fs->fs_type == FS_FAT32) {
+		st_word(dir + DIR_FstClusHI, (WORD)(cl >> 16));
+	}
+}
+#endif
+
+
+
+#if FF_USE_LFN
+/*--------------------------------------------------------*/
+/* FAT-LFN: Compare a part of file name with an LFN entry */
+/*--------------------------------------------------------*/
+
+static int cmp_lfn (		/* 1:matched, 0:not matched */
+	const WCHAR* lfnbuf,	/* Pointer to the LFN working buffer to be compared */
+	BYTE* dir				/* Pointer to the directory entry containing the part of LFN */
+)
+{
+	UINT i, s;
+	WCHAR wc, uc;
+
+
+	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO */
+
+	i = ((dir[LDIR_Ord] & 0x3F) - 1) * 13;	/* Offset in the LFN buffer */
+
+	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
+		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
+		if (wc != 0) {
+			if (i >= FF_MAX_LFN + 1 || ff_wtoupper(uc) != ff_wtoupper(lfnbuf[i++])) {	/* Compare it */
+				return 0;					/* Not matched */
+			}
+			wc = uc;
+		} else {
+			if (uc != 0xFFFF) return 0;		/* Check filler */
+		}
+	}
+
+	if ((dir[LDIR_Ord] & LLEF) && wc && lfnbuf[i]) return 0;	/* Last segment matched but different length */
+
+	return 1;		/* The part of LFN matched */
+}
+
+
+#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
+/*-----------------------------------------------------*/
+/* FAT-LFN: Pick a part of file name from an LFN entry */
+/*-----------------------------------------------------*/
+
+static int pick_lfn (	/* 1:succeeded, 0:buffer overflow or invalid LFN entry */
+	WCHAR* lfnbuf,		/* Pointer to the LFN working buffer */
+	BYTE* dir			/* Pointer to the LFN entry */
+)
+{
+	UINT i, s;
+	WCHAR wc, uc;
+
+
+	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO is 0 */
+
+	i = ((dir[LDIR_Ord] & ~LLEF) - 1) * 13;	/* Offset in the LFN buffer */
+
+	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
+		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
+		if (wc != 0) {
+			if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
+			lfnbuf[i++] = wc = uc;			/* Store it */
+		} else {
+			if (uc != 0xFFFF) return 0;		/* Check filler */
+		}
+	}
+
+	if (dir[LDIR_Ord] & LLEF && wc != 0) {	/* Put terminator if it is the last LFN part and not terminated */
+		if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
+		lfnbuf[i] = 0;
+	}
+
+	return 1;		/* The part of LFN is valid */
+}
+#endif
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------*/
+/* FAT-LFN: Create an entry of LFN entries */
+/*-----------------------------------------*/
+
+static void put_lfn (
+	const WCHAR* lfn,	/* Pointer to the LFN */
+	BYTE* dir,			/* Pointer to the LFN entry to be created */
+	BYTE ord,			/* LFN order (1-20) */
+	BYTE sum			/* Checksum of the corresponding SFN */
+)
+{
+	UINT i, s;
+	WCHAR wc;
+
+
+	dir[LDIR_Chksum] = sum;			/* Set checksum */
+	dir[LDIR_Attr] = AM_LFN;		/* Set attribute. LFN entry */
+	dir[LDIR_Type] = 0;
+	st_word(dir + LDIR_FstClusLO, 0);
+
+	i = (ord - 1) * 13;				/* Get offset in the LFN working buffer */
+	s = wc = 0;
+	do {
+		if (wc != 0xFFFF) wc = lfn[i++];	/* Get an effective character */
+		st_word(dir + LfnOfs[s], wc);		/* Put it */
+		if (wc == 0) wc = 0xFFFF;			/* Padding characters for following items */
+	} while (++s < 13);
+	if (wc == 0xFFFF || !lfn[i]) ord |= LLEF;	/* Last LFN part is the start of LFN sequence */
+	dir[LDIR_Ord] = ord;			/* Set the LFN order */
+}
+
+#endif	/* !FF_FS_READONLY */
+#endif	/* FF_USE_LFN */
+
+
+
+#if FF_USE_LFN && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* FAT-LFN: Create a Numbered SFN                                        */
+/*-----------------------------------------------------------------------*/
+
+static void gen_numname (
+	BYTE* dst,			/* Pointer to the buffer to store numbered SFN */
+	const BYTE* src,	/* Pointer to SFN in directory form */
+	const WCHAR* lfn,	/* Pointer to LFN */
+	UINT seq			/* Sequence number */
+)
+{
+	BYTE ns[8], c;
+	UINT i, j;
+	WCHAR wc;
+	DWORD sreg;
+
+
+	memcpy(dst, src, 11);	/* Prepare the SFN to be modified */
+
+	if (seq > 5) {	/* In case of many collisions, generate a hash number instead of sequential number */
+		sreg = seq;
+		while (*lfn) {	/* Create a CRC as hash value */
+			wc = *lfn++;
+			for (i = 0; i < 16; i++) {
+				sreg = (sreg << 1) + (wc & 1);
+				wc >>= 1;
+				if (sreg & 0x10000) sreg ^= 0x11021;
+			}
+		}
+		seq = (UINT)sreg;
+	}
+
+	/* Make suffix (~ + hexdecimal) */
+	i = 7;
+	do {
+		c = (BYTE)((seq % 16) + '0'); seq /= 16;
+		if (c > '9') c += 7;
+		ns[i--] = c;
+	} while (i && seq);
+	ns[i] = '~';
+
+	/* Append the suffix to the SFN body */
+	for (j = 0; j < i && dst[j] != ' '; j++) {	/* Find the offset to append */
+		if (dbc_1st(dst[j])) {	/* To avoid DBC break up */
+			if (j == i - 1) break;
+			j++;
+		}
+	}
+	do {	/* Append the suffix */
+		dst[j++] = (i < 8) ? ns[i++] : ' ';
+	} while (j < 8);
+}
+#endif	/* FF_USE_LFN && !FF_FS_READONLY */
+
+
+
+#if FF_USE_LFN
+/*-----------------------------------------------------------------------*/
+/* FAT-LFN: Calculate checksum of an SFN entry                           */
+/*-----------------------------------------------------------------------*/
+
+static BYTE sum_sfn (
+	const BYTE* dir		/* Pointer to the SFN entry */
+)
+{
+	BYTE sum = 0;
+	UINT n = 11;
+
+	do {
+		sum = (sum >> 1) + (sum << 7) + *dir++;
+	} while (--n);
+	return sum;
+}
+
+#endif	/* FF_USE_LFN */
+
+
+
+#if FF_FS_EXFAT
+/*-----------------------------------------------------------------------*/
+/* exFAT: Checksum                                                       */
+/*-----------------------------------------------------------------------*/
+
+static WORD xdir_sum (	/* Get checksum of the directoly entry block */
+	const BYTE* dir		/* Directory entry block to be calculated */
+)
+{
+	UINT i, szblk;
+	WORD sum;
+
+
+	szblk = (dir[XDIR_NumSec] + 1) * SZDIRE;	/* Number of bytes of the entry block */
+	for (i = sum = 0; i < szblk; i++) {
+		if (i == XDIR_SetSum) {	/* Skip 2-byte sum field */
+			i++;
+		} else {
+			sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + dir[i];
+		}
+	}
+	return sum;
+}
+
+
+
+static WORD xname_sum (	/* Get check sum (to be used as hash) of the file name */
+	const WCHAR* name	/* File name to be calculated */
+)
+{
+	WCHAR chr;
+	WORD sum = 0;
+
+
+	while ((chr = *name++) != 0) {
+		chr = (WCHAR)ff_wtoupper(chr);		/* File name needs to be up-case converted */
+		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr & 0xFF);
+		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr >> 8);
+	}
+	return sum;
+}
+
+
+#if !FF_FS_READONLY && FF_USE_MKFS
+static DWORD xsum32 (	/* Returns 32-bit checksum */
+	BYTE  dat,			/* Byte to be calculated (byte-by-byte processing) */
+	DWORD sum			/* Previous sum value */
+)
+{
+	sum = ((sum & 1) ? 0x80000000 : 0) + (sum >> 1) + dat;
+	return sum;
+}
+#endif
+
+
+
+/*-----------------------------------*/
+/* exFAT: Get a directry entry block */
+/*-----------------------------------*/
+
+static FRESULT load_xdir (	/* FR_INT_ERR: invalid entry block */
+	DIR* dp					/* Reading direcotry object pointing top of the entry block to load */
+)
+{
+	FRESULT res;
+	UINT i, sz_ent;
+	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the on-memory direcotry entry block 85+C0+C1s */
+
+
+	/* Load file directory entry */
+	res = move_window(dp->obj.fs, dp->sect);
+	if (res != FR_OK) return res;
+	if (dp->dir[XDIR_Type] != ET_FILEDIR) return FR_INT_ERR;	/* Invalid order */
+	memcpy(dirb + 0 * SZDIRE, dp->dir, SZDIRE);
+	sz_ent = (dirb[XDIR_NumSec] + 1) * SZDIRE;
+	if (sz_ent < 3 * SZDIRE || sz_ent > 19 * SZDIRE) return FR_INT_ERR;
+
+	/* Load stream extension entry */
+	res = dir_next(dp, 0);
+	if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
+	if (res != FR_OK) return res;
+	res = move_window(dp->obj.fs, dp->sect);
+	if (res != FR_OK) return res;
+	if (dp->dir[XDIR_Type] != ET_STREAM) return FR_INT_ERR;	/* Invalid order */
+	memcpy(dirb + 1 * SZDIRE, dp->dir, SZDIRE);
+	if (MAXDIRB(dirb[XDIR_NumName]) > sz_ent) return FR_INT_ERR;
+
+	/* Load file name entries */
+	i = 2 * SZDIRE;	/* Name offset to load */
+	do {
+		res = dir_next(dp, 0);
+		if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
+		if (res != FR_OK) return res;
+		res = move_window(dp->obj.fs, dp->sect);
+		if (res != FR_OK) return res;
+		if (dp->dir[XDIR_Type] != ET_FILENAME) return FR_INT_ERR;	/* Invalid order */
+		if (i < MAXDIRB(FF_MAX_LFN)) memcpy(dirb + i, dp->dir, SZDIRE);
+	} while ((i += SZDIRE) < sz_ent);
+
+	/* Sanity check (do it for only accessible object) */
+	if (i <= MAXDIRB(FF_MAX_LFN)) {
+		if (xdir_sum(dirb) != ld_word(dirb + XDIR_SetSum)) return FR_INT_ERR;
+	}
+	return FR_OK;
+}
+
+
+/*------------------------------------------------------------------*/
+/* exFAT: Initialize object allocation info with loaded entry block */
+/*------------------------------------------------------------------*/
+
+static void init_alloc_info (
+	FATFS* fs,		/* Filesystem object */
+	FFOBJID* obj	/* Object allocation information to be initialized */
+)
+{
+	obj->sclust = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Start cluster */
+	obj->objsize = ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
+	obj->stat = fs->dirbuf[XDIR_GenFlags] & 2;				/* Allocation status */
+	obj->n_frag = 0;										/* No last fragment info */
+}
+
+
+
+#if !FF_FS_READONLY || FF_FS_RPATH != 0
+/*------------------------------------------------*/
+/* exFAT: Load the object's directory entry block */
+/*------------------------------------------------*/
+
+static FRESULT load_obj_xdir (
+	DIR* dp,			/* Blank directory object to be used to access containing direcotry */
+	const FFOBJID* obj	/* Object with its containing directory information */
+)
+{
+	FRESULT res;
+
+	/* Open object containing directory */
+	dp->obj.fs = obj->fs;
+	dp->obj.sclust = obj->c_scl;
+	dp->obj.stat = (BYTE)obj->c_size;
+	dp->obj.objsize = obj->c_size & 0xFFFFFF00;
+	dp->obj.n_frag = 0;
+	dp->blk_ofs = obj->c_ofs;
+
+	res = dir_sdi(dp, dp->blk_ofs);	/* Goto object's entry block */
+	if (res == FR_OK) {
+		res = load_xdir(dp);		/* Load the object's entry block */
+	}
+	return res;
+}
+#endif
+
+
+#if !FF_FS_READONLY
+/*----------------------------------------*/
+/* exFAT: Store the directory entry block */
+/*----------------------------------------*/
+
+static FRESULT store_xdir (
+	DIR* dp				/* Pointer to the direcotry object */
+)
+{
+	FRESULT res;
+	UINT nent;
+	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the direcotry entry block 85+C0+C1s */
+
+	/* Create set sum */
+	st_word(dirb + XDIR_SetSum, xdir_sum(dirb));
+	nent = dirb[XDIR_NumSec] + 1;
+
+	/* Store the direcotry entry block to the directory */
+	res = dir_sdi(dp, dp->blk_ofs);
+	while (res == FR_OK) {
+		res = move_window(dp->obj.fs, dp->sect);
+		if (res != FR_OK) break;
+		memcpy(dp->dir, dirb, SZDIRE);
+		dp->obj.fs->wflag = 1;
+		if (--nent == 0) break;
+		dirb += SZDIRE;
+		res = dir_next(dp, 0);
+	}
+	return (res == FR_OK || res == FR_DISK_ERR) ? res : FR_INT_ERR;
+}
+
+
+
+/*-------------------------------------------*/
+/* exFAT: Create a new directory enrty block */
+/*-------------------------------------------*/
+
+static void create_xdir (
+	BYTE* dirb,			/* Pointer to the direcotry entry block buffer */
+	const WCHAR* lfn	/* Pointer to the object name */
+)
+{
+	UINT i;
+	BYTE nc1, nlen;
+	WCHAR wc;
+
+
+	/* Create file-directory and stream-extension entry */
+	memset(dirb, 0, 2 * SZDIRE);
+	dirb[0 * SZDIRE + XDIR_Type] = ET_FILEDIR;
+	dirb[1 * SZDIRE + XDIR_Type] = ET_STREAM;
+
+	/* Create file-name entries */
+	i = SZDIRE * 2;	/* Top of file_name entries */
+	nlen = nc1 = 0; wc = 1;
+	do {
+		dirb[i++] = ET_FILENAME; dirb[i++] = 0;
+		do {	/* Fill name field */
+			if (wc != 0 && (wc = lfn[nlen]) != 0) nlen++;	/* Get a character if exist */
+			st_word(dirb + i, wc); 	/* Store it */
+			i += 2;
+		} while (i % SZDIRE != 0);
+		nc1++;
+	} while (lfn[nlen]);	/* Fill next entry if any char follows */
+
+	dirb[XDIR_NumName] = nlen;		/* Set name length */
+	dirb[XDIR_NumSec] = 1 + nc1;	/* Set secondary count (C0 + C1s) */
+	st_word(dirb + XDIR_NameHash, xname_sum(lfn));	/* Set name hash */
+}
+
+#endif	/* !FF_FS_READONLY */
+#endif	/* FF_FS_EXFAT */
+
+
+
+#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
+/*-----------------------------------------------------------------------*/
+/* Read an object from the directory                                     */
+/*-----------------------------------------------------------------------*/
+
+#define DIR_READ_FILE(dp) dir_read(dp, 0)
+#define DIR_READ_LABEL(dp) dir_read(dp, 1)
+
+static FRESULT dir_read (
+	DIR* dp,		/* Pointer to the directory object */
+	int vol			/* Filtered by 0:file/directory or 1:volume label */
+)
+{
+	FRESULT res = FR_NO_FILE;
+	FATFS *fs = dp->obj.fs;
+	BYTE attr, b;
+#if FF_USE_LFN
+	BYTE ord = 0xFF, sum = 0xFF;
+#endif
+
+	while (dp->sect) {
+		res = move_window(fs, dp->sect);
+		if (res != FR_OK) break;
+		b = dp->dir[DIR_Name];	/* Test for the entry type */
+		if (b == 0) {
+			res = FR_NO_FILE; break; /* Reached to end of the directory */
+		}
+#if FF_FS_EXFAT
+		if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+			if (FF_USE_LABEL && vol) {
+				if (b == ET_VLABEL) break;	/* Volume label entry? */
+			} else {
+				if (b == ET_FILEDIR) {		/* Start of the file entry block? */
+					dp->blk_ofs = dp->dptr;	/* Get location of the block */
+					res = load_xdir(dp);	/* Load the entry block */
+					if (res == FR_OK) {
+						dp->obj.attr = fs->dirbuf[XDIR_Attr] & AM_MASK;	/* Get attribute */
+					}
+					break;
+				}
+			}
+		} else
+#endif
+		{	/* On the FAT/FAT32 volume */
+			dp->obj.attr = attr = dp->dir[DIR_Attr] & AM_MASK;	/* Get attribute */
+#if FF_USE_LFN		/* LFN configuration */
+			if (b == DDEM || b == '.' || (int)((attr & ~AM_ARC) == AM_VOL) != vol) {	/* An entry without valid data */
+				ord = 0xFF;
+			} else {
+				if (attr == AM_LFN) {	/* An LFN entry is found */
+					if (b & LLEF) {		/* Is it start of an LFN sequence? */
+						sum = dp->dir[LDIR_Chksum];
+						b &= (BYTE)~LLEF; ord = b;
+						dp->blk_ofs = dp->dptr;
+					}
+					/* Check LFN validity and capture it */
+					ord = (b == ord && sum == dp->dir[LDIR_Chksum] && pick_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
+				} else {				/* An SFN entry is found */
+					if (ord != 0 || sum != sum_sfn(dp->dir)) {	/* Is there a valid LFN? */
+						dp->blk_ofs = 0xFFFFFFFF;	/* It has no LFN. */
+					}
+					break;
+				}
+			}
+#else		/* Non LFN configuration */
+			if (b != DDEM && b != '.' && attr != AM_LFN && (int)((attr & ~AM_ARC) == AM_VOL) == vol) {	/* Is it a valid entry? */
+				break;
+			}
+#endif
+		}
+		res = dir_next(dp, 0);		/* Next entry */
+		if (res != FR_OK) break;
+	}
+
+	if (res != FR_OK) dp->sect = 0;		/* Terminate the read operation on error or EOT */
+	return res;
+}
+
+#endif	/* FF_FS_MINIMIZE <= 1 || FF_USE_LABEL || FF_FS_RPATH >= 2 */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Find an object in the directory                  */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_find (	/* FR_OK(0):succeeded, !=0:error */
+	DIR* dp					/* Pointer to the directory object with the file name */
+)
+{
+	FRESULT res;
+	FATFS *fs = dp->obj.fs;
+	BYTE c;
+#if FF_USE_LFN
+	BYTE a, ord, sum;
+#endif
+
+	res = dir_sdi(dp, 0);			/* Rewind directory object */
+	if (res != FR_OK) return res;
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		BYTE nc;
+		UINT di, ni;
+		WORD hash = xname_sum(fs->lfnbuf);		/* Hash value of the name to find */
+
+		while ((res = DIR_READ_FILE(dp)) == FR_OK) {	/* Read an item */
+#if FF_MAX_LFN < 255
+			if (fs->dirbuf[XDIR_NumName] > FF_MAX_LFN) continue;		/* Skip comparison if inaccessible object name */
+#endif
+			if (ld_word(fs->dirbuf + XDIR_NameHash) != hash) continue;	/* Skip comparison if hash mismatched */
+			for (nc = fs->dirbuf[XDIR_NumName], di = SZDIRE * 2, ni = 0; nc; nc--, di += 2, ni++) {	/* Compare the name */
+				if ((di % SZDIRE) == 0) di += 2;
+				if (ff_wtoupper(ld_word(fs->dirbuf + di)) != ff_wtoupper(fs->lfnbuf[ni])) break;
+			}
+			if (nc == 0 && !fs->lfnbuf[ni]) break;	/* Name matched? */
+		}
+		return res;
+	}
+#endif
+	/* On the FAT/FAT32 volume */
+#if FF_USE_LFN
+	ord = sum = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
+#endif
+	do {
+		res = move_window(fs, dp->sect);
+		if (res != FR_OK) break;
+		c = dp->dir[DIR_Name];
+		if (c == 0) { res = FR_NO_FILE; break; }	/* Reached to end of table */
+#if FF_USE_LFN		/* LFN configuration */
+		dp->obj.attr = a = dp->dir[DIR_Attr] & AM_MASK;
+		if (c == DDEM || ((a & AM_VOL) && a != AM_LFN)) {	/* An entry without valid data */
+			ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
+		} else {
+			if (a == AM_LFN) {			/* An LFN entry is found */
+				if (!(dp->fn[NSFLAG] & NS_NOLFN)) {
+					if (c & LLEF) {		/* Is it start of LFN sequence? */
+						sum = dp->dir[LDIR_Chksum];
+						c &= (BYTE)~LLEF; ord = c;	/* LFN start order */
+						dp->blk_ofs = dp->dptr;	/* Start offset of LFN */
+					}
+					/* Check validity of the LFN entry and compare it with given name */
+					ord = (c == ord && sum == dp->dir[LDIR_Chksum] && cmp_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
+				}
+			} else {					/* An SFN entry is found */
+				if (ord == 0 && sum == sum_sfn(dp->dir)) break;	/* LFN matched? */
+				if (!(dp->fn[NSFLAG] & NS_LOSS) && !memcmp(dp->dir, dp->fn, 11)) break;	/* SFN matched? */
+				ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
+			}
+		}
+#else		/* Non LFN configuration */
+		dp->obj.attr = dp->dir[DIR_Attr] & AM_MASK;
+		if (!(dp->dir[DIR_Attr] & AM_VOL) && !memcmp(dp->dir, dp->fn, 11)) break;	/* Is it a valid entry? */
+#endif
+		res = dir_next(dp, 0);	/* Next entry */
+	} while (res == FR_OK);
+
+	return res;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Register an object to the directory                                   */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_register (	/* FR_OK:succeeded, FR_DENIED:no free entry or too many SFN collision, FR_DISK_ERR:disk error */
+	DIR* dp						/* Target directory with object name to be created */
+)
+{
+	FRESULT res;
+	FATFS *fs = dp->obj.fs;
+#if FF_USE_LFN		/* LFN configuration */
+	UINT n, len, n_ent;
+	BYTE sn[12], sum;
+
+
+	if (dp->fn[NSFLAG] & (NS_DOT | NS_NONAME)) return FR_INVALID_NAME;	/* Check name validity */
+	for (len = 0; fs->lfnbuf[len]; len++) ;	/* Get lfn length */
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		n_ent = (len + 14) / 15 + 2;	/* Number of entries to allocate (85+C0+C1s) */
+		res = dir_alloc(dp, n_ent);		/* Allocate directory entries */
+		if (res != FR_OK) return res;
+		dp->blk_ofs = dp->dptr - SZDIRE * (n_ent - 1);	/* Set the allocated entry block offset */
+
+		if (dp->obj.stat & 4) {			/* Has the directory been stretched by new allocation? */
+			dp->obj.stat &= ~4;
+			res = fill_first_frag(&dp->obj);	/* Fill the first fragment on the FAT if needed */
+			if (res != FR_OK) return res;
+			res = fill_last_frag(&dp->obj, dp->clust, 0xFFFFFFFF);	/* Fill the last fragment on the FAT if needed */
+			if (res != FR_OK) return res;
+			if (dp->obj.sclust != 0) {		/* Is it a sub-directory? */
+				DIR dj;
+
+				res = load_obj_xdir(&dj, &dp->obj);	/* Load the object status */
+				if (res != FR_OK) return res;
+				dp->obj.objsize += (DWORD)fs->csize * SS(fs);		/* Increase the directory size by cluster size */
+				st_qword(fs->dirbuf + XDIR_FileSize, dp->obj.objsize);
+				st_qword(fs->dirbuf + XDIR_ValidFileSize, dp->obj.objsize);
+				fs->dirbuf[XDIR_GenFlags] = dp->obj.stat | 1;		/* Update the allocation status */
+				res = store_xdir(&dj);				/* Store the object status */
+				if (res != FR_OK) return res;
+			}
+		}
+
+		create_xdir(fs->dirbuf, fs->lfnbuf);	/* Create on-memory directory block to be written later */
+		return FR_OK;
+	}
+#endif
+	/* On the FAT/FAT32 volume */
+	memcpy(sn, dp->fn, 12);
+	if (sn[NSFLAG] & NS_LOSS) {			/* When LFN is out of 8.3 format, generate a numbered name */
+		dp->fn[NSFLAG] = NS_NOLFN;		/* Find only SFN */
+		for (n = 1; n < 100; n++) {
+			gen_numname(dp->fn, sn, fs->lfnbuf, n);	/* Generate a numbered name */
+			res = dir_find(dp);				/* Check if the name collides with existing SFN */
+			if (res != FR_OK) break;
+		}
+		if (n == 100) return FR_DENIED;		/* Abort if too many collisions */
+		if (res != FR_NO_FILE) return res;	/* Abort if the result is other than 'not collided' */
+		dp->fn[NSFLAG] = sn[NSFLAG];
+	}
+
+	/* Create an SFN with/without LFNs. */
+	n_ent = (sn[NSFLAG] & NS_LFN) ? (len + 12) / 13 + 1 : 1;	/* Number of entries to allocate */
+	res = dir_alloc(dp, n_ent);		/* Allocate entries */
+	if (res == FR_OK && --n_ent) {	/* Set LFN entry if needed */
+		res = dir_sdi(dp, dp->dptr - n_ent * SZDIRE);
+		if (res == FR_OK) {
+			sum = sum_sfn(dp->fn);	/* Checksum value of the SFN tied to the LFN */
+			do {					/* Store LFN entries in bottom first */
+				res = move_window(fs, dp->sect);
+				if (res != FR_OK) break;
+				put_lfn(fs->lfnbuf, dp->dir, (BYTE)n_ent, sum);
+				fs->wflag = 1;
+				res = dir_next(dp, 0);	/* Next entry */
+			} while (res == FR_OK && --n_ent);
+		}
+	}
+
+#else	/* Non LFN configuration */
+	res = dir_alloc(dp, 1);		/* Allocate an entry for SFN */
+
+#endif
+
+	/* Set SFN entry */
+	if (res == FR_OK) {
+		res = move_window(fs, dp->sect);
+		if (res == FR_OK) {
+			memset(dp->dir, 0, SZDIRE);	/* Clean the entry */
+			memcpy(dp->dir + DIR_Name, dp->fn, 11);	/* Put SFN */
+#if FF_USE_LFN
+			dp->dir[DIR_NTres] = dp->fn[NSFLAG] & (NS_BODY | NS_EXT);	/* Put NT flag */
+#endif
+			fs->wflag = 1;
+		}
+	}
+
+	return res;
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+#if !FF_FS_READONLY && FF_FS_MINIMIZE == 0
+/*-----------------------------------------------------------------------*/
+/* Remove an object from the directory                                   */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_remove (	/* FR_OK:Succeeded, FR_DISK_ERR:A disk error */
+	DIR* dp					/* Directory object pointing the entry to be removed */
+)
+{
+	FRESULT res;
+	FATFS *fs = dp->obj.fs;
+#if FF_USE_LFN		/* LFN configuration */
+	DWORD last = dp->dptr;
+
+	res = (dp->blk_ofs == 0xFFFFFFFF) ? FR_OK : dir_sdi(dp, dp->blk_ofs);	/* Goto top of the entry block if LFN is exist */
+	if (res == FR_OK) {
+		do {
+			res = move_window(fs, dp->sect);
+			if (res != FR_OK) break;
+			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+				dp->dir[XDIR_Type] &= 0x7F;	/* Clear the entry InUse flag. */
+			} else {										/* On the FAT/FAT32 volume */
+				dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'. */
+			}
+			fs->wflag = 1;
+			if (dp->dptr >= last) break;	/* If reached last entry then all entries of the object has been deleted. */
+			res = dir_next(dp, 0);	/* Next entry */
+		} while (res == FR_OK);
+		if (res == FR_NO_FILE) res = FR_INT_ERR;
+	}
+#else			/* Non LFN configuration */
+
+	res = move_window(fs, dp->sect);
+	if (res == FR_OK) {
+		dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'.*/
+		fs->wflag = 1;
+	}
+#endif
+
+	return res;
+}
+
+#endif /* !FF_FS_READONLY && FF_FS_MINIMIZE == 0 */
+
+
+
+#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2
+/*-----------------------------------------------------------------------*/
+/* Get file information from directory entry                             */
+/*-----------------------------------------------------------------------*/
+
+static void get_fileinfo (
+	DIR* dp,			/* Pointer to the directory object */
+	FILINFO* fno		/* Pointer to the file information to be filled */
+)
+{
+	UINT si, di;
+#if FF_USE_LFN
+	BYTE lcf;
+	WCHAR wc, hs;
+	FATFS *fs = dp->obj.fs;
+	UINT nw;
+#else
+	TCHAR c;
+#endif
+
+
+	fno->fname[0] = 0;			/* Invaidate file info */
+	if (dp->sect == 0) return;	/* Exit if read pointer has reached end of directory */
+
+#if FF_USE_LFN		/* LFN configuration */
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* exFAT volume */
+		UINT nc = 0;
+
+		si = SZDIRE * 2; di = 0;	/* 1st C1 entry in the entry block */
+		hs = 0;
+		while (nc < fs->dirbuf[XDIR_NumName]) {
+			if (si >= MAXDIRB(FF_MAX_LFN)) { di = 0; break; }	/* Truncated directory block? */
+			if ((si % SZDIRE) == 0) si += 2;		/* Skip entry type field */
+			wc = ld_word(fs->dirbuf + si); si += 2; nc++;	/* Get a character */
+			if (hs == 0 && IsSurrogate(wc)) {		/* Is it a surrogate? */
+				hs = wc; continue;					/* Get low surrogate */
+			}
+			nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
+			if (nw == 0) { di = 0; break; }			/* Buffer overflow or wrong char? */
+			di += nw;
+			hs = 0;
+		}
+		if (hs != 0) di = 0;					/* Broken surrogate pair? */
+		if (di == 0) fno->fname[di++] = '?';	/* Inaccessible object name? */
+		fno->fname[di] = 0;						/* Terminate the name */
+		fno->altname[0] = 0;					/* exFAT does not support SFN */
+
+		fno->fattrib = fs->dirbuf[XDIR_Attr] & AM_MASKX;		/* Attribute */
+		fno->fsize = (fno->fattrib & AM_DIR) ? 0 : ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
+		fno->ftime = ld_word(fs->dirbuf + XDIR_ModTime + 0);	/* Time */
+		fno->fdate = ld_word(fs->dirbuf + XDIR_ModTime + 2);	/* Date */
+		return;
+	} else
+#endif
+	{	/* FAT/FAT32 volume */
+		if (dp->blk_ofs != 0xFFFFFFFF) {	/* Get LFN if available */
+			si = di = 0;
+			hs = 0;
+			while (fs->lfnbuf[si] != 0) {
+				wc = fs->lfnbuf[si++];		/* Get an LFN character (UTF-16) */
+				if (hs == 0 && IsSurrogate(wc)) {	/* Is it a surrogate? */
+					hs = wc; continue;		/* Get low surrogate */
+				}
+				nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
+				if (nw == 0) { di = 0; break; }	/* Buffer overflow or wrong char? */
+				di += nw;
+				hs = 0;
+			}
+			if (hs != 0) di = 0;	/* Broken surrogate pair? */
+			fno->fname[di] = 0;		/* Terminate the LFN (null string means LFN is invalid) */
+		}
+	}
+
+	si = di = 0;
+	while (si < 11) {		/* Get SFN from SFN entry */
+		wc = dp->dir[si++];			/* Get a char */
+		if (wc == ' ') continue;	/* Skip padding spaces */
+		if (wc == RDDEM) wc = DDEM;	/* Restore replaced DDEM character */
+		if (si == 9 && di < FF_SFN_BUF) fno->altname[di++] = '.';	/* Insert a . if extension is exist */
+#if FF_LFN_UNICODE >= 1	/* Unicode output */
+		if (dbc_1st((BYTE)wc) && si != 8 && si != 11 && dbc_2nd(dp->dir[si])) {	/* Make a DBC if needed */
+			wc = wc << 8 | dp->dir[si++];
+		}
+		wc = ff_oem2uni(wc, CODEPAGE);		/* ANSI/OEM -> Unicode */
+		if (wc == 0) { di = 0; break; }		/* Wrong char in the current code page? */
+		nw = put_utf(wc, &fno->altname[di], FF_SFN_BUF - di);	/* Store it in API encoding */
+		if (nw == 0) { di = 0; break; }		/* Buffer overflow? */
+		di += nw;
+#else					/* ANSI/OEM output */
+		fno->altname[di++] = (TCHAR)wc;	/* Store it without any conversion */
+#endif
+	}
+	fno->altname[di] = 0;	/* Terminate the SFN  (null string means SFN is invalid) */
+
+	if (fno->fname[0] == 0) {	/* If LFN is invalid, altname[] needs to be copied to fname[] */
+		if (di == 0) {	/* If LFN and SFN both are invalid, this object is inaccesible */
+			fno->fname[di++] = '?';
+		} else {
+			for (si = di = 0, lcf = NS_BODY; fno->altname[si]; si++, di++) {	/* Copy altname[] to fname[] with case information */
+				wc = (WCHAR)fno->altname[si];
+				if (wc == '.') lcf = NS_EXT;
+				if (IsUpper(wc) && (dp->dir[DIR_NTres] & lcf)) wc += 0x20;
+				fno->fname[di] = (TCHAR)wc;
+			}
+		}
+		fno->fname[di] = 0;	/* Terminate the LFN */
+		if (!dp->dir[DIR_NTres]) fno->altname[0] = 0;	/* Altname is not needed if neither LFN nor case info is exist. */
+	}
+
+#else	/* Non-LFN configuration */
+	si = di = 0;
+	while (si < 11) {		/* Copy name body and extension */
+		c = (TCHAR)dp->dir[si++];
+		if (c == ' ') continue;		/* Skip padding spaces */
+		if (c == RDDEM) c = DDEM;	/* Restore replaced DDEM character */
+		if (si == 9) fno->fname[di++] = '.';/* Insert a . if extension is exist */
+		fno->fname[di++] = c;
+	}
+	fno->fname[di] = 0;		/* Terminate the SFN */
+#endif
+
+	fno->fattrib = dp->dir[DIR_Attr] & AM_MASK;			/* Attribute */
+	fno->fsize = ld_dword(dp->dir + DIR_FileSize);		/* Size */
+	fno->ftime = ld_word(dp->dir + DIR_ModTime + 0);	/* Time */
+	fno->fdate = ld_word(dp->dir + DIR_ModTime + 2);	/* Date */
+}
+
+#endif /* FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 */
+
+
+
+#if FF_USE_FIND && FF_FS_MINIMIZE <= 1
+/*-----------------------------------------------------------------------*/
+/* Pattern matching                                                      */
+/*-----------------------------------------------------------------------*/
+
+#define FIND_RECURS	4	/* Maximum number of wildcard terms in the pattern to limit recursion */
+
+
+static DWORD get_achar (	/* Get a character and advance ptr */
+	const TCHAR** ptr		/* Pointer to pointer to the ANSI/OEM or Unicode string */
+)
+{
+	DWORD chr;
+
+
+#if FF_USE_LFN && FF_LFN_UNICODE >= 1	/* Unicode input */
+	chr = tchar2uni(ptr);
+	if (chr == 0xFFFFFFFF) chr = 0;		/* Wrong UTF encoding is recognized as end of the string */
+	chr = ff_wtoupper(chr);
+
+#else									/* ANSI/OEM input */
+	chr = (BYTE)*(*ptr)++;				/* Get a byte */
+	if (IsLower(chr)) chr -= 0x20;		/* To upper ASCII char */
+#if FF_CODE_PAGE == 0
+	if (ExCvt && chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
+#elif FF_CODE_PAGE < 900
+	if (chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
+#endif
+#if FF_CODE_PAGE == 0 || FF_CODE_PAGE >= 900
+	if (dbc_1st((BYTE)chr)) {	/* Get DBC 2nd byte if needed */
+		chr = dbc_2nd((BYTE)**ptr) ? chr << 8 | (BYTE)*(*ptr)++ : 0;
+	}
+#endif
+
+#endif
+	return chr;
+}
+
+
+static int pattern_match (	/* 0:mismatched, 1:matched */
+	const TCHAR* pat,	/* Matching pattern */
+	const TCHAR* nam,	/* String to be tested */
+	UINT skip,			/* Number of pre-skip chars (number of ?s, b8:infinite (* specified)) */
+	UINT recur			/* Recursion count */
+)
+{
+	const TCHAR *pptr, *nptr;
+	DWORD pchr, nchr;
+	UINT sk;
+
+
+	while ((skip & 0xFF) != 0) {		/* Pre-skip name chars */
+		if (!get_achar(&nam)) return 0;	/* Branch mismatched if less name chars */
+		skip--;
+	}
+	if (*pat == 0 && skip) return 1;	/* Matched? (short circuit) */
+
+	do {
+		pptr = pat; nptr = nam;			/* Top of pattern and name to match */
+		for (;;) {
+			if (*pptr == '?' || *pptr == '*') {	/* Wildcard term? */
+				if (recur == 0) return 0;	/* Too many wildcard terms? */
+				sk = 0;
+				do {	/* Analyze the wildcard term */
+					if (*pptr++ == '?') sk++; else sk |= 0x100;
+				} while (*pptr == '?' || *pptr == '*');
+				if (pattern_match(pptr, nptr, sk, recur - 1)) return 1;	/* Test new branch (recursive call) */
+				nchr = *nptr; break;	/* Branch mismatched */
+			}
+			pchr = get_achar(&pptr);	/* Get a pattern char */
+			nchr = get_achar(&nptr);	/* Get a name char */
+			if (pchr != nchr) break;	/* Branch mismatched? */
+			if (pchr == 0) return 1;	/* Branch matched? (matched at end of both strings) */
+		}
+		get_achar(&nam);			/* nam++ */
+	} while (skip && nchr);		/* Retry until end of name if infinite search is specified */
+
+	return 0;
+}
+
+#endif /* FF_USE_FIND && FF_FS_MINIMIZE <= 1 */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Pick a top segment and create the object name in directory form       */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT create_name (	/* FR_OK: successful, FR_INVALID_NAME: could not create */
+	DIR* dp,					/* Pointer to the directory object */
+	const TCHAR** path			/* Pointer to pointer to the segment in the path string */
+)
+{
+#if FF_USE_LFN		/* LFN configuration */
+	BYTE b, cf;
+	WCHAR wc, *lfn;
+	DWORD uc;
+	UINT i, ni, si, di;
+	const TCHAR *p;
+
+
+	/* Create LFN into LFN working buffer */
+	p = *path; lfn = dp->obj.fs->lfnbuf; di = 0;
+	for (;;) {
+		uc = tchar2uni(&p);			/* Get a character */
+		if (uc == 0xFFFFFFFF) return FR_INVALID_NAME;		/* Invalid code or UTF decode error */
+		if (uc >= 0x10000) lfn[di++] = (WCHAR)(uc >> 16);	/* Store high surrogate if needed */
+		wc = (WCHAR)uc;
+		if (wc < ' ' || IsSeparator(wc)) break;	/* Break if end of the path or a separator is found */
+		if (wc < 0x80 && strchr("*:<>|\"\?\x7F", (int)wc)) return FR_INVALID_NAME;	/* Reject illegal characters for LFN */
+		if (di >= FF_MAX_LFN) return FR_INVALID_NAME;	/* Reject too long name */
+		lfn[di++] = wc;				/* Store the Unicode character */
+	}
+	if (wc < ' ') {				/* Stopped at end of the path? */
+		cf = NS_LAST;			/* Last segment */
+	} else {					/* Stopped at a separator */
+		while (IsSeparator(*p)) p++;	/* Skip duplicated separators if exist */
+		cf = 0;					/* Next segment may follow */
+		if (IsTerminator(*p)) cf = NS_LAST;	/* Ignore terminating separator */
+	}
+	*path = p;					/* Return pointer to the next segment */
+
+#if FF_FS_RPATH != 0
+	if ((di == 1 && lfn[di - 1] == '.') ||
+		(di == 2 && lfn[di - 1] == '.' && lfn[di - 2] == '.')) {	/* Is this segment a dot name? */
+		lfn[di] = 0;
+		for (i = 0; i < 11; i++) {	/* Create dot name for SFN entry */
+			dp->fn[i] = (i < di) ? '.' : ' ';
+		}
+		dp->fn[i] = cf | NS_DOT;	/* This is a dot entry */
+		return FR_OK;
+	}
+#endif
+	while (di) {					/* Snip off trailing spaces and dots if exist */
+		wc = lfn[di - 1];
+		if (wc != ' ' && wc != '.') break;
+		di--;
+	}
+	lfn[di] = 0;							/* LFN is created into the working buffer */
+	if (di == 0) return FR_INVALID_NAME;	/* Reject null name */
+
+	/* Create SFN in directory form */
+	for (si = 0; lfn[si] == ' '; si++) ;	/* Remove leading spaces */
+	if (si > 0 || lfn[si] == '.') cf |= NS_LOSS | NS_LFN;	/* Is there any leading space or dot? */
+	while (di > 0 && lfn[di - 1] != '.') di--;	/* Find last dot (di<=si: no extension) */
+
+	memset(dp->fn, ' ', 11);
+	i = b = 0; ni = 8;
+	for (;;) {
+		wc = lfn[si++];					/* Get an LFN character */
+		if (wc == 0) break;				/* Break on end of the LFN */
+		if (wc == ' ' || (wc == '.' && si != di)) {	/* Remove embedded spaces and dots */
+			cf |= NS_LOSS | NS_LFN;
+			continue;
+		}
+
+		if (i >= ni || si == di) {		/* End of field? */
+			if (ni == 11) {				/* Name extension overflow? */
+				cf |= NS_LOSS | NS_LFN;
+				break;
+			}
+			if (si != di) cf |= NS_LOSS | NS_LFN;	/* Name body overflow? */
+			if (si > di) break;						/* No name extension? */
+			si = di; i = 8; ni = 11; b <<= 2;		/* Enter name extension */
+			continue;
+		}
+
+		if (wc >= 0x80) {	/* Is this an extended character? */
+			cf |= NS_LFN;	/* LFN entry needs to be created */
+#if FF_CODE_PAGE == 0
+			if (ExCvt) {	/* In SBCS cfg */
+				wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
+				if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
+			} else {		/* In DBCS cfg */
+				wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
+			}
+#elif FF_CODE_PAGE < 900	/* In SBCS cfg */
+			wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
+			if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
+#else						/* In DBCS cfg */
+			wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
+#endif
+		}
+
+		if (wc >= 0x100) {				/* Is this a DBC? */
+			if (i >= ni - 1) {			/* Field overflow? */
+				cf |= NS_LOSS | NS_LFN;
+				i = ni; continue;		/* Next field */
+			}
+			dp->fn[i++] = (BYTE)(wc >> 8);	/* Put 1st byte */
+		} else {						/* SBC */
+			if (wc == 0 || strchr("+,;=[]", (int)wc)) {	/* Replace illegal characters for SFN */
+				wc = '_'; cf |= NS_LOSS | NS_LFN;/* Lossy conversion */
+			} else {
+				if (IsUpper(wc)) {		/* ASCII upper case? */
+					b |= 2;
+				}
+				if (IsLower(wc)) {		/* ASCII lower case? */
+					b |= 1; wc -= 0x20;
+				}
+			}
+		}
+		dp->fn[i++] = (BYTE)wc;
+	}
+
+	if (dp->fn[0] == DDEM) dp->fn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
+
+	if (ni == 8) b <<= 2;				/* Shift capital flags if no extension */
+	if ((b & 0x0C) == 0x0C || (b & 0x03) == 0x03) cf |= NS_LFN;	/* LFN entry needs to be created if composite capitals */
+	if (!(cf & NS_LFN)) {				/* When LFN is in 8.3 format without extended character, NT flags are created */
+		if (b & 0x01) cf |= NS_EXT;		/* NT flag (Extension has small capital letters only) */
+		if (b & 0x04) cf |= NS_BODY;	/* NT flag (Body has small capital letters only) */
+	}
+
+	dp->fn[NSFLAG] = cf;	/* SFN is created into dp->fn[] */
+
+	return FR_OK;
+
+
+#else	/* FF_USE_LFN : Non-LFN configuration */
+	BYTE c, d, *sfn;
+	UINT ni, si, i;
+	const char *p;
+
+	/* Create file name in directory form */
+	p = *path; sfn = dp->fn;
+	memset(sfn, ' ', 11);
+	si = i = 0; ni = 8;
+#if FF_FS_RPATH != 0
+	if (p[si] == '.') { /* Is this a dot entry? */
+		for (;;) {
+			c = (BYTE)p[si++];
+			if (c != '.' || si >= 3) break;
+			sfn[i++] = c;
+		}
+		if (!IsSeparator(c) && c > ' ') return FR_INVALID_NAME;
+		*path = p + si;					/* Return pointer to the next segment */
+		sfn[NSFLAG] = (c <= ' ') ? NS_LAST | NS_DOT : NS_DOT;	/* Set last segment flag if end of the path */
+		return FR_OK;
+	}
+#endif
+	for (;;) {
+		c = (BYTE)p[si++];				/* Get a byte */
+		if (c <= ' ') break; 			/* Break if end of the path name */
+		if (IsSeparator(c)) {			/* Break if a separator is found */
+			while (IsSeparator(p[si])) si++;	/* Skip duplicated separator if exist */
+			break;
+		}
+		if (c == '.' || i >= ni) {		/* End of body or field overflow? */
+			if (ni == 11 || c != '.') return FR_INVALID_NAME;	/* Field overflow or invalid dot? */
+			i = 8; ni = 11;				/* Enter file extension field */
+			continue;
+		}
+#if FF_CODE_PAGE == 0
+		if (ExCvt && c >= 0x80) {		/* Is SBC extended character? */
+			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
+		}
+#elif FF_CODE_PAGE < 900
+		if (c >= 0x80) {				/* Is SBC extended character? */
+			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
+		}
+#endif
+		if (dbc_1st(c)) {				/* Check if it is a DBC 1st byte */
+			d = (BYTE)p[si++];			/* Get 2nd byte */
+			if (!dbc_2nd(d) || i >= ni - 1) return FR_INVALID_NAME;	/* Reject invalid DBC */
+			sfn[i++] = c;
+			sfn[i++] = d;
+		} else {						/* SBC */
+			if (strchr("*+,:;<=>[]|\"\?\x7F", (int)c)) return FR_INVALID_NAME;	/* Reject illegal chrs for SFN */
+			if (IsLower(c)) c -= 0x20;	/* To upper */
+			sfn[i++] = c;
+		}
+	}
+	*path = &p[si];						/* Return pointer to the next segment */
+	if (i == 0) return FR_INVALID_NAME;	/* Reject nul string */
+
+	if (sfn[0] == DDEM) sfn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
+	sfn[NSFLAG] = (c <= ' ' || p[si] <= ' ') ? NS_LAST : 0;	/* Set last segment flag if end of the path */
+
+	return FR_OK;
+#endif /* FF_USE_LFN */
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Follow a file path                                                    */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT follow_path (	/* FR_OK(0): successful, !=0: error code */
+	DIR* dp,					/* Directory object to return last directory and found object */
+	const TCHAR* path			/* Full-path string to find a file or directory */
+)
+{
+	FRESULT res;
+	BYTE ns;
+	FATFS *fs = dp->obj.fs;
+
+
+#if FF_FS_RPATH != 0
+	if (!IsSeparator(*path) && (FF_STR_VOLUME_ID != 2 || !IsTerminator(*path))) {	/* Without heading separator */
+		dp->obj.sclust = fs->cdir;			/* Start at the current directory */
+	} else
+#endif
+	{										/* With heading separator */
+		while (IsSeparator(*path)) path++;	/* Strip separators */
+		dp->obj.sclust = 0;					/* Start from the root directory */
+	}
+#if FF_FS_EXFAT
+	dp->obj.n_frag = 0;	/* Invalidate last fragment counter of the object */
+#if FF_FS_RPATH != 0
+	if (fs->fs_type == FS_EXFAT && dp->obj.sclust) {	/* exFAT: Retrieve the sub-directory's status */
+		DIR dj;
+
+		dp->obj.c_scl = fs->cdc_scl;
+		dp->obj.c_size = fs->cdc_size;
+		dp->obj.c_ofs = fs->cdc_ofs;
+		res = load_obj_xdir(&dj, &dp->obj);
+		if (res != FR_OK) return res;
+		dp->obj.objsize = ld_dword(fs->dirbuf + XDIR_FileSize);
+		dp->obj.stat = fs->dirbuf[XDIR_GenFlags] & 2;
+	}
+#endif
+#endif
+
+	if ((UINT)*path < ' ') {				/* Null path name is the origin directory itself */
+		dp->fn[NSFLAG] = NS_NONAME;
+		res = dir_sdi(dp, 0);
+
+	} else {								/* Follow path */
+		for (;;) {
+			res = create_name(dp, &path);	/* Get a segment name of the path */
+			if (res != FR_OK) break;
+			res = dir_find(dp);				/* Find an object with the segment name */
+			ns = dp->fn[NSFLAG];
+			if (res != FR_OK) {				/* Failed to find the object */
+				if (res == FR_NO_FILE) {	/* Object is not found */
+					if (FF_FS_RPATH && (ns & NS_DOT)) {	/* If dot entry is not exist, stay there */
+						if (!(ns & NS_LAST)) continue;	/* Continue to follow if not last segment */
+						dp->fn[NSFLAG] = NS_NONAME;
+						res = FR_OK;
+					} else {							/* Could not find the object */
+						if (!(ns & NS_LAST)) res = FR_NO_PATH;	/* Adjust error code if not last segment */
+					}
+				}
+				break;
+			}
+			if (ns & NS_LAST) break;		/* Last segment matched. Function completed. */
+			/* Get into the sub-directory */
+			if (!(dp->obj.attr & AM_DIR)) {	/* It is not a sub-directory and cannot follow */
+				res = FR_NO_PATH; break;
+			}
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {	/* Save containing directory information for next dir */
+				dp->obj.c_scl = dp->obj.sclust;
+				dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
+				dp->obj.c_ofs = dp->blk_ofs;
+				init_alloc_info(fs, &dp->obj);	/* Open next directory */
+			} else
+#endif
+			{
+				dp->obj.sclust = ld_clust(fs, fs->win + dp->dptr % SS(fs));	/* Open next directory */
+			}
+		}
+	}
+
+	return res;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Get logical drive number from path name                               */
+/*-----------------------------------------------------------------------*/
+
+static int get_ldnumber (	/* Returns logical drive number (-1:invalid drive number or null pointer) */
+	const TCHAR** path		/* Pointer to pointer to the path name */
+)
+{
+	const TCHAR *tp, *tt;
+	TCHAR tc;
+	int i;
+	int vol = -1;
+#if FF_STR_VOLUME_ID		/* Find string volume ID */
+	const char *sp;
+	char c;
+#endif
+
+	tt = tp = *path;
+	if (!tp) return vol;	/* Invalid path name? */
+	do tc = *tt++; while (!IsTerminator(tc) && tc != ':');	/* Find a colon in the path */
+
+	if (tc == ':') {	/* DOS/Windows style volume ID? */
+		i = FF_VOLUMES;
+		if (IsDigit(*tp) && tp + 2 == tt) {	/* Is there a numeric volume ID + colon? */
+			i = (int)*tp - '0';	/* Get the LD number */
+		}
+#if FF_STR_VOLUME_ID == 1	/* Arbitrary string is enabled */
+		else {
+			i = 0;
+			do {
+				sp = VolumeStr[i]; tp = *path;	/* This string volume ID and path name */
+				do {	/* Compare the volume ID with path name */
+					c = *sp++; tc = *tp++;
+					if (IsLower(c)) c -= 0x20;
+					if (IsLower(tc)) tc -= 0x20;
+				} while (c && (TCHAR)c == tc);
+			} while ((c || tp != tt) && ++i < FF_VOLUMES);	/* Repeat for each id until pattern match */
+		}
+#endif
+		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
+			vol = i;		/* Drive number */
+			*path = tt;		/* Snip the drive prefix off */
+		}
+		return vol;
+	}
+#if FF_STR_VOLUME_ID == 2		/* Unix style volume ID is enabled */
+	if (*tp == '/') {			/* Is there a volume ID? */
+		while (*(tp + 1) == '/') tp++;	/* Skip duplicated separator */
+		i = 0;
+		do {
+			tt = tp; sp = VolumeStr[i]; /* Path name and this string volume ID */
+			do {	/* Compare the volume ID with path name */
+				c = *sp++; tc = *(++tt);
+				if (IsLower(c)) c -= 0x20;
+				if (IsLower(tc)) tc -= 0x20;
+			} while (c && (TCHAR)c == tc);
+		} while ((c || (tc != '/' && !IsTerminator(tc))) && ++i < FF_VOLUMES);	/* Repeat for each ID until pattern match */
+		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
+			vol = i;		/* Drive number */
+			*path = tt;		/* Snip the drive prefix off */
+		}
+		return vol;
+	}
+#endif
+	/* No drive prefix is found */
+#if FF_FS_RPATH != 0
+	vol = CurrVol;	/* Default drive is current drive */
+#else
+	vol = 0;		/* Default drive is 0 */
+#endif
+	return vol;		/* Return the default drive */
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* GPT support functions                                                 */
+/*-----------------------------------------------------------------------*/
+
+#if FF_LBA64
+
+/* Calculate CRC32 in byte-by-byte */
+
+static DWORD crc32 (	/* Returns next CRC value */
+	DWORD crc,			/* Current CRC value */
+	BYTE d				/* A byte to be processed */
+)
+{
+	BYTE b;
+
+
+	for (b = 1; b; b <<= 1) {
+		crc ^= (d & b) ? 1 : 0;
+		crc = (crc & 1) ? crc >> 1 ^ 0xEDB88320 : crc >> 1;
+	}
+	return crc;
+}
+
+
+/* Check validity of GPT header */
+
+static int test_gpt_header (	/* 0:Invalid, 1:Valid */
+	const BYTE* gpth			/* Pointer to the GPT header */
+)
+{
+	UINT i;
+	DWORD bcc;
+
+
+	if (memcmp(gpth + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16)) return 0;	/* Check sign, version (1.0) and length (92) */
+	for (i = 0, bcc = 0xFFFFFFFF; i < 92; i++) {		/* Check header BCC */
+		bcc = crc32(bcc, i - GPTH_Bcc < 4 ? 0 : gpth[i]);
+	}
+	if (~bcc != ld_dword(gpth + GPTH_Bcc)) return 0;
+	if (ld_dword(gpth + GPTH_PteSize) != SZ_GPTE) return 0;	/* Table entry size (must be SZ_GPTE bytes) */
+	if (ld_dword(gpth + GPTH_PtNum) > 128) return 0;	/* Table size (must be 128 entries or less) */
+
+	return 1;
+}
+
+#if !FF_FS_READONLY && FF_USE_MKFS
+
+/* Generate random value */
+static DWORD make_rand (
+	DWORD seed,		/* Seed value */
+	BYTE* buff,		/* Output buffer */
+	UINT n			/* Data length */
+)
+{
+	UINT r;
+
+
+	if (seed == 0) seed = 1;
+	do {
+		for (r = 0; r < 8; r++) seed = seed & 1 ? seed >> 1 ^ 0xA3000000 : seed >> 1;	/* Shift 8 bits the 32-bit LFSR */
+		*buff++ = (BYTE)seed;
+	} while (--n);
+	return seed;
+}
+
+#endif
+#endif
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Load a sector and check if it is an FAT VBR                           */
+/*-----------------------------------------------------------------------*/
+
+/* Check what the sector is */
+
+static UINT check_fs (	/* 0:FAT/FAT32 VBR, 1:exFAT VBR, 2:Not FAT and valid BS, 3:Not FAT and invalid BS, 4:Disk error */
+	FATFS* fs,			/* Filesystem object */
+	LBA_t sect			/* Sector to load and check if it is an FAT-VBR or not */
+)
+{
+	WORD w, sign;
+	BYTE b;
+
+
+	fs->wflag = 0; fs->winsect = (LBA_t)0 - 1;		/* Invaidate window */
+	if (move_window(fs, sect) != FR_OK) return 4;	/* Load the boot sector */
+	sign = ld_word(fs->win + BS_55AA);
+#if FF_FS_EXFAT
+	if (sign == 0xAA55 && !memcmp(fs->win + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11)) return 1;	/* It is an exFAT VBR */
+#endif
+	b = fs->win[BS_JmpBoot];
+	if (b == 0xEB || b == 0xE9 || b == 0xE8) {	/* Valid JumpBoot code? (short jump, near jump or near call) */
+		if (sign == 0xAA55 && !memcmp(fs->win + BS_FilSysType32, "FAT32   ", 8)) {
+			return 0;	/* It is an FAT32 VBR */
+		}
+		/* FAT volumes formatted with early MS-DOS lack BS_55AA and BS_FilSysType, so FAT VBR needs to be identified without them. */
+		w = ld_word(fs->win + BPB_BytsPerSec);
+		b = fs->win[BPB_SecPerClus];
+		if ((w & (w - 1)) == 0 && w >= FF_MIN_SS && w <= FF_MAX_SS	/* Properness of sector size (512-4096 and 2^n) */
+			&& b != 0 && (b & (b - 1)) == 0				/* Properness of cluster size (2^n) */
+			&& ld_word(fs->win + BPB_RsvdSecCnt) != 0	/* Properness of reserved sectors (MNBZ) */
+			&& (UINT)fs->win[BPB_NumFATs] - 1 <= 1		/* Properness of FATs (1 or 2) */
+			&& ld_word(fs->win + BPB_RootEntCnt) != 0	/* Properness of root dir entries (MNBZ) */
+			&& (ld_word(fs->win + BPB_TotSec16) >= 128 || ld_dword(fs->win + BPB_TotSec32) >= 0x10000)	/* Properness of volume sectors (>=128) */
+			&& ld_word(fs->win + BPB_FATSz16) != 0) {	/* Properness of FAT size (MNBZ) */
+				return 0;	/* It can be presumed an FAT VBR */
+		}
+	}
+	return sign == 0xAA55 ? 2 : 3;	/* Not an FAT VBR (valid or invalid BS) */
+}
+
+
+/* Find an FAT volume */
+/* (It supports only generic partitioning rules, MBR, GPT and SFD) */
+
+static UINT find_volume (	/* Returns BS status found in the hosting drive */
+	FATFS* fs,		/* Filesystem object */
+	UINT part		/* Partition to fined = 0:auto, 1..:forced */
+)
+{
+	UINT fmt, i;
+	DWORD mbr_pt[4];
+
+
+	fmt = check_fs(fs, 0);				/* Load sector 0 and check if it is an FAT VBR as SFD format */
+	if (fmt != 2 && (fmt >= 3 || part == 0)) return fmt;	/* Returns if it is an FAT VBR as auto scan, not a BS or disk error */
+
+	/* Sector 0 is not an FAT VBR or forced partition number wants a partition */
+
+#if FF_LBA64
+	if (fs->win[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
+		DWORD n_ent, v_ent, ofs;
+		QWORD pt_lba;
+
+		if (move_window(fs, 1) != FR_OK) return 4;	/* Load GPT header sector (next to MBR) */
+		if (!test_gpt_header(fs->win)) return 3;	/* Check if GPT header is valid */
+		n_ent = ld_dword(fs->win + GPTH_PtNum);		/* Number of entries */
+		pt_lba = ld_qword(fs->win + GPTH_PtOfs);	/* Table location */
+		for (v_ent = i = 0; i < n_ent; i++) {		/* Find FAT partition */
+			if (move_window(fs, pt_lba + i * SZ_GPTE / SS(fs)) != FR_OK) return 4;	/* PT sector */
+			ofs = i * SZ_GPTE % SS(fs);												/* Offset in the sector */
+			if (!memcmp(fs->win + ofs + GPTE_PtGuid, GUID_MS_Basic, 16)) {	/* MS basic data partition? */
+				v_ent++;
+				fmt = check_fs(fs, ld_qword(fs->win + ofs + GPTE_FstLba));	/* Load VBR and check status */
+				if (part == 0 && fmt <= 1) return fmt;			/* Auto search (valid FAT volume found first) */
+				if (part != 0 && v_ent == part) return fmt;		/* Forced partition order (regardless of it is valid or not) */
+			}
+		}
+		return 3;	/* Not found */
+	}
+#endif
+	if (FF_MULTI_PARTITION && part > 4) return 3;	/* MBR has 4 partitions max */
+	for (i = 0; i < 4; i++) {		/* Load partition offset in the MBR */
+		mbr_pt[i] = ld_dword(fs->win + MBR_Table + i * SZ_PTE + PTE_StLba);
+	}
+	i = part ? part - 1 : 0;		/* Table index to find first */
+	do {							/* Find an FAT volume */
+		fmt = mbr_pt[i] ? check_fs(fs, mbr_pt[i]) : 3;	/* Check if the partition is FAT */
+	} while (part == 0 && fmt >= 2 && ++i < 4);
+	return fmt;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Determine logical drive number and mount the volume if needed         */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT mount_volume (	/* FR_OK(0): successful, !=0: an error occurred */
+	const TCHAR** path,			/* Pointer to pointer to the path name (drive number) */
+	FATFS** rfs,				/* Pointer to pointer to the found filesystem object */
+	BYTE mode					/* !=0: Check write protection for write access */
+)
+{
+	int vol;
+	DSTATUS stat;
+	LBA_t bsect;
+	DWORD tsect, sysect, fasize, nclst, szbfat;
+	WORD nrsv;
+	FATFS *fs;
+	UINT fmt;
+
+
+	/* Get logical drive number */
+	*rfs = 0;
+	vol = get_ldnumber(path);
+	if (vol < 0) return FR_INVALID_DRIVE;
+
+	/* Check if the filesystem object is valid or not */
+	fs = FatFs[vol];					/* Get pointer to the filesystem object */
+	if (!fs) return FR_NOT_ENABLED;		/* Is the filesystem object available? */
+#if FF_FS_REENTRANT
+	if (!lock_fs(fs)) return FR_TIMEOUT;	/* Lock the volume */
+#endif
+	*rfs = fs;							/* Return pointer to the filesystem object */
+
+	mode &= (BYTE)~FA_READ;				/* Desired access mode, write access or not */
+	if (fs->fs_type != 0) {				/* If the volume has been mounted */
+		stat = disk_status(fs->pdrv);
+		if (!(stat & STA_NOINIT)) {		/* and the physical drive is kept initialized */
+			if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) {	/* Check write protection if needed */
+				return FR_WRITE_PROTECTED;
+			}
+			return FR_OK;				/* The filesystem object is already valid */
+		}
+	}
+
+	/* The filesystem object is not valid. */
+	/* Following code attempts to mount the volume. (find an FAT volume, analyze the BPB and initialize the filesystem object) */
+
+	fs->fs_type = 0;					/* Clear the filesystem object */
+	fs->pdrv = LD2PD(vol);				/* Volume hosting physical drive */
+	stat = disk_initialize(fs->pdrv);	/* Initialize the physical drive */
+	if (stat & STA_NOINIT) { 			/* Check if the initialization succeeded */
+		return FR_NOT_READY;			/* Failed to initialize due to no medium or hard error */
+	}
+	if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) { /* Check disk write protection if needed */
+		return FR_WRITE_PROTECTED;
+	}
+#if FF_MAX_SS != FF_MIN_SS				/* Get sector size (multiple sector size cfg only) */
+	if (disk_ioctl(fs->pdrv, GET_SECTOR_SIZE, &SS(fs)) != RES_OK) return FR_DISK_ERR;
+	if (SS(fs) > FF_MAX_SS || SS(fs) < FF_MIN_SS || (SS(fs) & (SS(fs) - 1))) return FR_DISK_ERR;
+#endif
+
+	/* Find an FAT volume on the drive */
+	fmt = find_volume(fs, LD2PT(vol));
+	if (fmt == 4) return FR_DISK_ERR;		/* An error occured in the disk I/O layer */
+	if (fmt >= 2) return FR_NO_FILESYSTEM;	/* No FAT volume is found */
+	bsect = fs->winsect;					/* Volume offset */
+
+	/* An FAT volume is found (bsect). Following code initializes the filesystem object */
+
+#if FF_FS_EXFAT
+	if (fmt == 1) {
+		QWORD maxlba;
+		DWORD so, cv, bcl, i;
+
+		for (i = BPB_ZeroedEx; i < BPB_ZeroedEx + 53 && fs->win[i] == 0; i++) ;	/* Check zero filler */
+		if (i < BPB_ZeroedEx + 53) return FR_NO_FILESYSTEM;
+
+		if (ld_word(fs->win + BPB_FSVerEx) != 0x100) return FR_NO_FILESYSTEM;	/* Check exFAT version (must be version 1.0) */
+
+		if (1 << fs->win[BPB_BytsPerSecEx] != SS(fs)) {	/* (BPB_BytsPerSecEx must be equal to the physical sector size) */
+			return FR_NO_FILESYSTEM;
+		}
+
+		maxlba = ld_qword(fs->win + BPB_TotSecEx) + bsect;	/* Last LBA of the volume + 1 */
+		if (!FF_LBA64 && maxlba >= 0x100000000) return FR_NO_FILESYSTEM;	/* (It cannot be accessed in 32-bit LBA) */
+
+		fs->fsize = ld_dword(fs->win + BPB_FatSzEx);	/* Number of sectors per FAT */
+
+		fs->n_fats = fs->win[BPB_NumFATsEx];			/* Number of FATs */
+		if (fs->n_fats != 1) return FR_NO_FILESYSTEM;	/* (Supports only 1 FAT) */
+
+		fs->csize = 1 << fs->win[BPB_SecPerClusEx];		/* Cluster size */
+		if (fs->csize == 0)	return FR_NO_FILESYSTEM;	/* (Must be 1..32768 sectors) */
+
+		nclst = ld_dword(fs->win + BPB_NumClusEx);		/* Number of clusters */
+		if (nclst > MAX_EXFAT) return FR_NO_FILESYSTEM;	/* (Too many clusters) */
+		fs->n_fatent = nclst + 2;
+
+		/* Boundaries and Limits */
+		fs->volbase = bsect;
+		fs->database = bsect + ld_dword(fs->win + BPB_DataOfsEx);
+		fs->fatbase = bsect + ld_dword(fs->win + BPB_FatOfsEx);
+		if (maxlba < (QWORD)fs->database + nclst * fs->csize) return FR_NO_FILESYSTEM;	/* (Volume size must not be smaller than the size requiered) */
+		fs->dirbase = ld_dword(fs->win + BPB_RootClusEx);
+
+		/* Get bitmap location and check if it is contiguous (implementation assumption) */
+		so = i = 0;
+		for (;;) {	/* Find the bitmap entry in the root directory (in only first cluster) */
+			if (i == 0) {
+				if (so >= fs->csize) return FR_NO_FILESYSTEM;	/* Not found? */
+				if (move_window(fs, clst2sect(fs, (DWORD)fs->dirbase) + so) != FR_OK) return FR_DISK_ERR;
+				so++;
+			}
+			if (fs->win[i] == ET_BITMAP) break;			/* Is it a bitmap entry? */
+			i = (i + SZDIRE) % SS(fs);	/* Next entry */
+		}
+		bcl = ld_dword(fs->win + i + 20);				/* Bitmap cluster */
+		if (bcl < 2 || bcl >= fs->n_fatent) return FR_NO_FILESYSTEM;	/* (Wrong cluster#) */
+		fs->bitbase = fs->database + fs->csize * (bcl - 2);	/* Bitmap sector */
+		for (;;) {	/* Check if bitmap is contiguous */
+			if (move_window(fs, fs->fatbase + bcl / (SS(fs) / 4)) != FR_OK) return FR_DISK_ERR;
+			cv = ld_dword(fs->win + bcl % (SS(fs) / 4) * 4);
+			if (cv == 0xFFFFFFFF) break;				/* Last link? */
+			if (cv != ++bcl) return FR_NO_FILESYSTEM;	/* Fragmented? */
+		}
+
+#if !FF_FS_READONLY
+		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
+#endif
+		fmt = FS_EXFAT;			/* FAT sub-type */
+	} else
+#endif	/* FF_FS_EXFAT */
+	{
+		if (ld_word(fs->win + BPB_BytsPerSec) != SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_BytsPerSec must be equal to the physical sector size) */
+
+		fasize = ld_word(fs->win + BPB_FATSz16);		/* Number of sectors per FAT */
+		if (fasize == 0) fasize = ld_dword(fs->win + BPB_FATSz32);
+		fs->fsize = fasize;
+
+		fs->n_fats = fs->win[BPB_NumFATs];				/* Number of FATs */
+		if (fs->n_fats != 1 && fs->n_fats != 2) return FR_NO_FILESYSTEM;	/* (Must be 1 or 2) */
+		fasize *= fs->n_fats;							/* Number of sectors for FAT area */
+
+		fs->csize = fs->win[BPB_SecPerClus];			/* Cluster size */
+		if (fs->csize == 0 || (fs->csize & (fs->csize - 1))) return FR_NO_FILESYSTEM;	/* (Must be power of 2) */
+
+		fs->n_rootdir = ld_word(fs->win + BPB_RootEntCnt);	/* Number of root directory entries */
+		if (fs->n_rootdir % (SS(fs) / SZDIRE)) return FR_NO_FILESYSTEM;	/* (Must be sector aligned) */
+
+		tsect = ld_word(fs->win + BPB_TotSec16);		/* Number of sectors on the volume */
+		if (tsect == 0) tsect = ld_dword(fs->win + BPB_TotSec32);
+
+		nrsv = ld_word(fs->win + BPB_RsvdSecCnt);		/* Number of reserved sectors */
+		if (nrsv == 0) return FR_NO_FILESYSTEM;			/* (Must not be 0) */
+
+		/* Determine the FAT sub type */
+		sysect = nrsv + fasize + fs->n_rootdir / (SS(fs) / SZDIRE);	/* RSV + FAT + DIR */
+		if (tsect < sysect) return FR_NO_FILESYSTEM;	/* (Invalid volume size) */
+		nclst = (tsect - sysect) / fs->csize;			/* Number of clusters */
+		if (nclst == 0) return FR_NO_FILESYSTEM;		/* (Invalid volume size) */
+		fmt = 0;
+		if (nclst <= MAX_FAT32) fmt = FS_FAT32;
+		if (nclst <= MAX_FAT16) fmt = FS_FAT16;
+		if (nclst <= MAX_FAT12) fmt = FS_FAT12;
+		if (fmt == 0) return FR_NO_FILESYSTEM;
+
+		/* Boundaries and Limits */
+		fs->n_fatent = nclst + 2;						/* Number of FAT entries */
+		fs->volbase = bsect;							/* Volume start sector */
+		fs->fatbase = bsect + nrsv; 					/* FAT start sector */
+		fs->database = bsect + sysect;					/* Data start sector */
+		if (fmt == FS_FAT32) {
+			if (ld_word(fs->win + BPB_FSVer32) != 0) return FR_NO_FILESYSTEM;	/* (Must be FAT32 revision 0.0) */
+			if (fs->n_rootdir != 0) return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must be 0) */
+			fs->dirbase = ld_dword(fs->win + BPB_RootClus32);	/* Root directory start cluster */
+			szbfat = fs->n_fatent * 4;					/* (Needed FAT size) */
+		} else {
+			if (fs->n_rootdir == 0)	return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must not be 0) */
+			fs->dirbase = fs->fatbase + fasize;			/* Root directory start sector */
+			szbfat = (fmt == FS_FAT16) ?				/* (Needed FAT size) */
+				fs->n_fatent * 2 : fs->n_fatent * 3 / 2 + (fs->n_fatent & 1);
+		}
+		if (fs->fsize < (szbfat + (SS(fs) - 1)) / SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_FATSz must not be less than the size needed) */
+
+#if !FF_FS_READONLY
+		/* Get FSInfo if available */
+		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
+		fs->fsi_flag = 0x80;
+#if (FF_FS_NOFSINFO & 3) != 3
+		if (fmt == FS_FAT32				/* Allow to update FSInfo only if BPB_FSInfo32 == 1 */
+			&& ld_word(fs->win + BPB_FSInfo32) == 1
+			&& move_window(fs, bsect + 1) == FR_OK)
+		{
+			fs->fsi_flag = 0;
+			if (ld_word(fs->win + BS_55AA) == 0xAA55	/* Load FSInfo data if available */
+				&& ld_dword(fs->win + FSI_LeadSig) == 0x41615252
+				&& ld_dword(fs->win + FSI_StrucSig) == 0x61417272)
+			{
+#if (FF_FS_NOFSINFO & 1) == 0
+				fs->free_clst = ld_dword(fs->win + FSI_Free_Count);
+#endif
+#if (FF_FS_NOFSINFO & 2) == 0
+				fs->last_clst = ld_dword(fs->win + FSI_Nxt_Free);
+#endif
+			}
+		}
+#endif	/* (FF_FS_NOFSINFO & 3) != 3 */
+#endif	/* !FF_FS_READONLY */
+	}
+
+	fs->fs_type = (BYTE)fmt;/* FAT sub-type */
+	fs->id = ++Fsid;		/* Volume mount ID */
+#if FF_USE_LFN == 1
+	fs->lfnbuf = LfnBuf;	/* Static LFN working buffer */
+#if FF_FS_EXFAT
+	fs->dirbuf = DirBuf;	/* Static directory block scratchpad buuffer */
+#endif
+#endif
+#if FF_FS_RPATH != 0
+	fs->cdir = 0;			/* Initialize current directory */
+#endif
+#if FF_FS_LOCK != 0			/* Clear file lock semaphores */
+	clear_lock(fs);
+#endif
+	return FR_OK;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Check if the file/directory object is valid or not                    */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT validate (	/* Returns FR_OK or FR_INVALID_OBJECT */
+	FFOBJID* obj,			/* Pointer to the FFOBJID, the 1st member in the FIL/DIR object, to check validity */
+	FATFS** rfs				/* Pointer to pointer to the owner filesystem object to return */
+)
+{
+	FRESULT res = FR_INVALID_OBJECT;
+
+
+	if (obj && obj->fs && obj->fs->fs_type && obj->id == obj->fs->id) {	/* Test if the object is valid */
+#if FF_FS_REENTRANT
+		if (lock_fs(obj->fs)) {	/* Obtain the filesystem object */
+			if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
+				res = FR_OK;
+			} else {
+				unlock_fs(obj->fs, FR_OK);
+			}
+		} else {
+			res = FR_TIMEOUT;
+		}
+#else
+		if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
+			res = FR_OK;
+		}
+#endif
+	}
+	*rfs = (res == FR_OK) ? obj->fs : 0;	/* Corresponding filesystem object */
+	return res;
+}
+
+
+
+
+/*---------------------------------------------------------------------------
+
+   Public Functions (FatFs API)
+
+----------------------------------------------------------------------------*/
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Mount/Unmount a Logical Drive                                         */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_mount (
+	FATFS* fs,			/* Pointer to the filesystem object to be registered (NULL:unmount)*/
+	const TCHAR* path,	/* Logical drive number to be mounted/unmounted */
+	BYTE opt			/* Mount option: 0=Do not mount (delayed mount), 1=Mount immediately */
+)
+{
+	FATFS *cfs;
+	int vol;
+	FRESULT res;
+	const TCHAR *rp = path;
+
+
+	/* Get logical drive number */
+	vol = get_ldnumber(&rp);
+	if (vol < 0) return FR_INVALID_DRIVE;
+	cfs = FatFs[vol];					/* Pointer to fs object */
+
+	if (cfs) {
+#if FF_FS_LOCK != 0
+		clear_lock(cfs);
+#endif
+#if FF_FS_REENTRANT						/* Discard sync object of the current volume */
+		if (!ff_del_syncobj(cfs->sobj)) return FR_INT_ERR;
+#endif
+		cfs->fs_type = 0;				/* Clear old fs object */
+	}
+
+	if (fs) {
+		fs->fs_type = 0;				/* Clear new fs object */
+#if FF_FS_REENTRANT						/* Create sync object for the new volume */
+		if (!ff_cre_syncobj((BYTE)vol, &fs->sobj)) return FR_INT_ERR;
+#endif
+	}
+	FatFs[vol] = fs;					/* Register new fs object */
+
+	if (opt == 0) return FR_OK;			/* Do not mount now, it will be mounted later */
+
+	res = mount_volume(&path, &fs, 0);	/* Force mounted the volume */
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Open or Create a File                                                 */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_open (
+	FIL* fp,			/* Pointer to the blank file object */
+	const TCHAR* path,	/* Pointer to the file name */
+	BYTE mode			/* Access mode and open mode flags */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+#if !FF_FS_READONLY
+	DWORD cl, bcs, clst, tm;
+	LBA_t sc;
+	FSIZE_t ofs;
+#endif
+	DEF_NAMBUF
+
+
+	if (!fp) return FR_INVALID_OBJECT;
+
+	/* Get logical drive number */
+	mode &= FF_FS_READONLY ? FA_READ : FA_READ | FA_WRITE | FA_CREATE_ALWAYS | FA_CREATE_NEW | FA_OPEN_ALWAYS | FA_OPEN_APPEND;
+	res = mount_volume(&path, &fs, mode);
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+#if !FF_FS_READONLY	/* Read/Write configuration */
+		if (res == FR_OK) {
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Origin directory itself? */
+				res = FR_INVALID_NAME;
+			}
+#if FF_FS_LOCK != 0
+			else {
+				res = chk_lock(&dj, (mode & ~FA_READ) ? 1 : 0);		/* Check if the file can be used */
+			}
+#endif
+		}
+		/* Create or Open a file */
+		if (mode & (FA_CREATE_ALWAYS | FA_OPEN_ALWAYS | FA_CREATE_NEW)) {
+			if (res != FR_OK) {					/* No file, create new */
+				if (res == FR_NO_FILE) {		/* There is no file to open, create a new entry */
+#if FF_FS_LOCK != 0
+					res = enq_lock() ? dir_register(&dj) : FR_TOO_MANY_OPEN_FILES;
+#else
+					res = dir_register(&dj);
+#endif
+				}
+				mode |= FA_CREATE_ALWAYS;		/* File is created */
+			}
+			else {								/* Any object with the same name is already existing */
+				if (dj.obj.attr & (AM_RDO | AM_DIR)) {	/* Cannot overwrite it (R/O or DIR) */
+					res = FR_DENIED;
+				} else {
+					if (mode & FA_CREATE_NEW) res = FR_EXIST;	/* Cannot create as new file */
+				}
+			}
+			if (res == FR_OK && (mode & FA_CREATE_ALWAYS)) {	/* Truncate the file if overwrite mode */
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {
+					/* Get current allocation info */
+					fp->obj.fs = fs;
+					init_alloc_info(fs, &fp->obj);
+					/* Set directory entry block initial state */
+					memset(fs->dirbuf + 2, 0, 30);	/* Clear 85 entry except for NumSec */
+					memset(fs->dirbuf + 38, 0, 26);	/* Clear C0 entry except for NumName and NameHash */
+					fs->dirbuf[XDIR_Attr] = AM_ARC;
+					st_dword(fs->dirbuf + XDIR_CrtTime, GET_FATTIME());
+					fs->dirbuf[XDIR_GenFlags] = 1;
+					res = store_xdir(&dj);
+					if (res == FR_OK && fp->obj.sclust != 0) {	/* Remove the cluster chain if exist */
+						res = remove_chain(&fp->obj, fp->obj.sclust, 0);
+						fs->last_clst = fp->obj.sclust - 1;		/* Reuse the cluster hole */
+					}
+				} else
+#endif
+				{
+					/* Set directory entry initial state */
+					tm = GET_FATTIME();					/* Set created time */
+					st_dword(dj.dir + DIR_CrtTime, tm);
+					st_dword(dj.dir + DIR_ModTime, tm);
+					cl = ld_clust(fs, dj.dir);			/* Get current cluster chain */
+					dj.dir[DIR_Attr] = AM_ARC;			/* Reset attribute */
+					st_clust(fs, dj.dir, 0);			/* Reset file allocation info */
+					st_dword(dj.dir + DIR_FileSize, 0);
+					fs->wflag = 1;
+					if (cl != 0) {						/* Remove the cluster chain if exist */
+						sc = fs->winsect;
+						res = remove_chain(&dj.obj, cl, 0);
+						if (res == FR_OK) {
+							res = move_window(fs, sc);
+							fs->last_clst = cl - 1;		/* Reuse the cluster hole */
+						}
+					}
+				}
+			}
+		}
+		else {	/* Open an existing file */
+			if (res == FR_OK) {					/* Is the object exsiting? */
+				if (dj.obj.attr & AM_DIR) {		/* File open against a directory */
+					res = FR_NO_FILE;
+				} else {
+					if ((mode & FA_WRITE) && (dj.obj.attr & AM_RDO)) { /* Write mode open against R/O file */
+						res = FR_DENIED;
+					}
+				}
+			}
+		}
+		if (res == FR_OK) {
+			if (mode & FA_CREATE_ALWAYS) mode |= FA_MODIFIED;	/* Set file change flag if created or overwritten */
+			fp->dir_sect = fs->winsect;			/* Pointer to the directory entry */
+			fp->dir_ptr = dj.dir;
+#if FF_FS_LOCK != 0
+			fp->obj.lockid = inc_lock(&dj, (mode & ~FA_READ) ? 1 : 0);	/* Lock the file for this session */
+			if (fp->obj.lockid == 0) res = FR_INT_ERR;
+#endif
+		}
+#else		/* R/O configuration */
+		if (res == FR_OK) {
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it origin directory itself? */
+				res = FR_INVALID_NAME;
+			} else {
+				if (dj.obj.attr & AM_DIR) {		/* Is it a directory? */
+					res = FR_NO_FILE;
+				}
+			}
+		}
+#endif
+
+		if (res == FR_OK) {
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				fp->obj.c_scl = dj.obj.sclust;							/* Get containing directory info */
+				fp->obj.c_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
+				fp->obj.c_ofs = dj.blk_ofs;
+				init_alloc_info(fs, &fp->obj);
+			} else
+#endif
+			{
+				fp->obj.sclust = ld_clust(fs, dj.dir);					/* Get object allocation info */
+				fp->obj.objsize = ld_dword(dj.dir + DIR_FileSize);
+			}
+#if FF_USE_FASTSEEK
+			fp->cltbl = 0;		/* Disable fast seek mode */
+#endif
+			fp->obj.fs = fs;	/* Validate the file object */
+			fp->obj.id = fs->id;
+			fp->flag = mode;	/* Set file access mode */
+			fp->err = 0;		/* Clear error flag */
+			fp->sect = 0;		/* Invalidate current data sector */
+			fp->fptr = 0;		/* Set file pointer top of the file */
+#if !FF_FS_READONLY
+#if !FF_FS_TINY
+			memset(fp->buf, 0, sizeof fp->buf);	/* Clear sector buffer */
+#endif
+			if ((mode & FA_SEEKEND) && fp->obj.objsize > 0) {	/* Seek to end of file if FA_OPEN_APPEND is specified */
+				fp->fptr = fp->obj.objsize;			/* Offset to seek */
+				bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size in byte */
+				clst = fp->obj.sclust;				/* Follow the cluster chain */
+				for (ofs = fp->obj.objsize; res == FR_OK && ofs > bcs; ofs -= bcs) {
+					clst = get_fat(&fp->obj, clst);
+					if (clst <= 1) res = FR_INT_ERR;
+					if (clst == 0xFFFFFFFF) res = FR_DISK_ERR;
+				}
+				fp->clust = clst;
+				if (res == FR_OK && ofs % SS(fs)) {	/* Fill sector buffer if not on the sector boundary */
+					sc = clst2sect(fs, clst);
+					if (sc == 0) {
+						res = FR_INT_ERR;
+					} else {
+						fp->sect = sc + (DWORD)(ofs / SS(fs));
+#if !FF_FS_TINY
+						if (disk_read(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) res = FR_DISK_ERR;
+#endif
+					}
+				}
+#if FF_FS_LOCK != 0
+				if (res != FR_OK) dec_lock(fp->obj.lockid); /* Decrement file open counter if seek failed */
+#endif
+			}
+#endif
+		}
+
+		FREE_NAMBUF();
+	}
+
+	if (res != FR_OK) fp->obj.fs = 0;	/* Invalidate file object on error */
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Read File                                                             */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_read (
+	FIL* fp, 	/* Open file to be read */
+	void* buff,	/* Data buffer to store the read data */
+	UINT btr,	/* Number of bytes to read */
+	UINT* br	/* Number of bytes read */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst;
+	LBA_t sect;
+	FSIZE_t remain;
+	UINT rcnt, cc, csect;
+	BYTE *rbuff = (BYTE*)buff;
+
+
+	*br = 0;	/* Clear read byte counter */
+	res = validate(&fp->obj, &fs);				/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
+	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED); /* Check access mode */
+	remain = fp->obj.objsize - fp->fptr;
+	if (btr > remain) btr = (UINT)remain;		/* Truncate btr by remaining bytes */
+
+	for ( ; btr > 0; btr -= rcnt, *br += rcnt, rbuff += rcnt, fp->fptr += rcnt) {	/* Repeat until btr bytes read */
+		if (fp->fptr % SS(fs) == 0) {			/* On the sector boundary? */
+			csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
+			if (csect == 0) {					/* On the cluster boundary? */
+				if (fp->fptr == 0) {			/* On the top of the file? */
+					clst = fp->obj.sclust;		/* Follow cluster chain from the origin */
+				} else {						/* Middle or end of the file */
+#if FF_USE_FASTSEEK
+					if (fp->cltbl) {
+						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
+					} else
+#endif
+					{
+						clst = get_fat(&fp->obj, fp->clust);	/* Follow cluster chain on the FAT */
+					}
+				}
+				if (clst < 2) ABORT(fs, FR_INT_ERR);
+				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+				fp->clust = clst;				/* Update current cluster */
+			}
+			sect = clst2sect(fs, fp->clust);	/* Get current sector */
+			if (sect == 0) ABORT(fs, FR_INT_ERR);
+			sect += csect;
+			cc = btr / SS(fs);					/* When remaining bytes >= sector size, */
+			if (cc > 0) {						/* Read maximum contiguous sectors directly */
+				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
+					cc = fs->csize - csect;
+				}
+				if (disk_read(fs->pdrv, rbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
+#if !FF_FS_READONLY && FF_FS_MINIMIZE <= 2		/* Replace one of the read sectors with cached data if it contains a dirty sector */
+#if FF_FS_TINY
+				if (fs->wflag && fs->winsect - sect < cc) {
+					memcpy(rbuff + ((fs->winsect - sect) * SS(fs)), fs->win, SS(fs));
+				}
+#else
+				if ((fp->flag & FA_DIRTY) && fp->sect - sect < cc) {
+					memcpy(rbuff + ((fp->sect - sect) * SS(fs)), fp->buf, SS(fs));
+				}
+#endif
+#endif
+				rcnt = SS(fs) * cc;				/* Number of bytes transferred */
+				continue;
+			}
+#if !FF_FS_TINY
+			if (fp->sect != sect) {			/* Load data sector if not in cache */
+#if !FF_FS_READONLY
+				if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
+					if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+					fp->flag &= (BYTE)~FA_DIRTY;
+				}
+#endif
+				if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK)	ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
+			}
+#endif
+			fp->sect = sect;
+		}
+		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
+		if (rcnt > btr) rcnt = btr;					/* Clip it by btr if needed */
+#if FF_FS_TINY
+		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
+		memcpy(rbuff, fs->win + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
+#else
+		memcpy(rbuff, fp->buf + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
+#endif
+	}
+
+	LEAVE_FF(fs, FR_OK);
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Write File                                                            */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_write (
+	FIL* fp,			/* Open file to be written */
+	const void* buff,	/* Data to be written */
+	UINT btw,			/* Number of bytes to write */
+	UINT* bw			/* Number of bytes written */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst;
+	LBA_t sect;
+	UINT wcnt, cc, csect;
+	const BYTE *wbuff = (const BYTE*)buff;
+
+
+	*bw = 0;	/* Clear write byte counter */
+	res = validate(&fp->obj, &fs);			/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
+	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
+
+	/* Check fptr wrap-around (file size cannot reach 4 GiB at FAT volume) */
+	if ((!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) && (DWORD)(fp->fptr + btw) < (DWORD)fp->fptr) {
+		btw = (UINT)(0xFFFFFFFF - (DWORD)fp->fptr);
+	}
+
+	for ( ; btw > 0; btw -= wcnt, *bw += wcnt, wbuff += wcnt, fp->fptr += wcnt, fp->obj.objsize = (fp->fptr > fp->obj.objsize) ? fp->fptr : fp->obj.objsize) {	/* Repeat until all data written */
+		if (fp->fptr % SS(fs) == 0) {		/* On the sector boundary? */
+			csect = (UINT)(fp->fptr / SS(fs)) & (fs->csize - 1);	/* Sector offset in the cluster */
+			if (csect == 0) {				/* On the cluster boundary? */
+				if (fp->fptr == 0) {		/* On the top of the file? */
+					clst = fp->obj.sclust;	/* Follow from the origin */
+					if (clst == 0) {		/* If no cluster is allocated, */
+						clst = create_chain(&fp->obj, 0);	/* create a new cluster chain */
+					}
+				} else {					/* On the middle or end of the file */
+#if FF_USE_FASTSEEK
+					if (fp->cltbl) {
+						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
+					} else
+#endif
+					{
+						clst = create_chain(&fp->obj, fp->clust);	/* Follow or stretch cluster chain on the FAT */
+					}
+				}
+				if (clst == 0) break;		/* Could not allocate a new cluster (disk full) */
+				if (clst == 1) ABORT(fs, FR_INT_ERR);
+				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+				fp->clust = clst;			/* Update current cluster */
+				if (fp->obj.sclust == 0) fp->obj.sclust = clst;	/* Set start cluster if the first write */
+			}
+#if FF_FS_TINY
+			if (fs->winsect == fp->sect && sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Write-back sector cache */
+#else
+			if (fp->flag & FA_DIRTY) {		/* Write-back sector cache */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			sect = clst2sect(fs, fp->clust);	/* Get current sector */
+			if (sect == 0) ABORT(fs, FR_INT_ERR);
+			sect += csect;
+			cc = btw / SS(fs);				/* When remaining bytes >= sector size, */
+			if (cc > 0) {					/* Write maximum contiguous sectors directly */
+				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
+					cc = fs->csize - csect;
+				}
+				if (disk_write(fs->pdrv, wbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
+#if FF_FS_MINIMIZE <= 2
+#if FF_FS_TINY
+				if (fs->winsect - sect < cc) {	/* Refill sector cache if it gets invalidated by the direct write */
+					memcpy(fs->win, wbuff + ((fs->winsect - sect) * SS(fs)), SS(fs));
+					fs->wflag = 0;
+				}
+#else
+				if (fp->sect - sect < cc) { /* Refill sector cache if it gets invalidated by the direct write */
+					memcpy(fp->buf, wbuff + ((fp->sect - sect) * SS(fs)), SS(fs));
+					fp->flag &= (BYTE)~FA_DIRTY;
+				}
+#endif
+#endif
+				wcnt = SS(fs) * cc;		/* Number of bytes transferred */
+				continue;
+			}
+#if FF_FS_TINY
+			if (fp->fptr >= fp->obj.objsize) {	/* Avoid silly cache filling on the growing edge */
+				if (sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);
+				fs->winsect = sect;
+			}
+#else
+			if (fp->sect != sect && 		/* Fill sector cache with file data */
+				fp->fptr < fp->obj.objsize &&
+				disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) {
+					ABORT(fs, FR_DISK_ERR);
+			}
+#endif
+			fp->sect = sect;
+		}
+		wcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
+		if (wcnt > btw) wcnt = btw;					/* Clip it by btw if needed */
+#if FF_FS_TINY
+		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
+		memcpy(fs->win + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
+		fs->wflag = 1;
+#else
+		memcpy(fp->buf + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
+		fp->flag |= FA_DIRTY;
+#endif
+	}
+
+	fp->flag |= FA_MODIFIED;				/* Set file change flag */
+
+	LEAVE_FF(fs, FR_OK);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Synchronize the File                                                  */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_sync (
+	FIL* fp		/* Open file to be synced */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD tm;
+	BYTE *dir;
+
+
+	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
+	if (res == FR_OK) {
+		if (fp->flag & FA_MODIFIED) {	/* Is there any change to the file? */
+#if !FF_FS_TINY
+			if (fp->flag & FA_DIRTY) {	/* Write-back cached data if needed */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) LEAVE_FF(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			/* Update the directory entry */
+			tm = GET_FATTIME();				/* Modified time */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				res = fill_first_frag(&fp->obj);	/* Fill first fragment on the FAT if needed */
+				if (res == FR_OK) {
+					res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
+				}
+				if (res == FR_OK) {
+					DIR dj;
+					DEF_NAMBUF
+
+					INIT_NAMBUF(fs);
+					res = load_obj_xdir(&dj, &fp->obj);	/* Load directory entry block */
+					if (res == FR_OK) {
+						fs->dirbuf[XDIR_Attr] |= AM_ARC;				/* Set archive attribute to indicate that the file has been changed */
+						fs->dirbuf[XDIR_GenFlags] = fp->obj.stat | 1;	/* Update file allocation information */
+						st_dword(fs->dirbuf + XDIR_FstClus, fp->obj.sclust);		/* Update start cluster */
+						st_qword(fs->dirbuf + XDIR_FileSize, fp->obj.objsize);		/* Update file size */
+						st_qword(fs->dirbuf + XDIR_ValidFileSize, fp->obj.objsize);	/* (FatFs does not support Valid File Size feature) */
+						st_dword(fs->dirbuf + XDIR_ModTime, tm);		/* Update modified time */
+						fs->dirbuf[XDIR_ModTime10] = 0;
+						st_dword(fs->dirbuf + XDIR_AccTime, 0);
+						res = store_xdir(&dj);	/* Restore it to the directory */
+						if (res == FR_OK) {
+							res = sync_fs(fs);
+							fp->flag &= (BYTE)~FA_MODIFIED;
+						}
+					}
+					FREE_NAMBUF();
+				}
+			} else
+#endif
+			{
+				res = move_window(fs, fp->dir_sect);
+				if (res == FR_OK) {
+					dir = fp->dir_ptr;
+					dir[DIR_Attr] |= AM_ARC;						/* Set archive attribute to indicate that the file has been changed */
+					st_clust(fp->obj.fs, dir, fp->obj.sclust);		/* Update file allocation information  */
+					st_dword(dir + DIR_FileSize, (DWORD)fp->obj.objsize);	/* Update file size */
+					st_dword(dir + DIR_ModTime, tm);				/* Update modified time */
+					st_word(dir + DIR_LstAccDate, 0);
+					fs->wflag = 1;
+					res = sync_fs(fs);					/* Restore it to the directory */
+					fp->flag &= (BYTE)~FA_MODIFIED;
+				}
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Close File                                                            */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_close (
+	FIL* fp		/* Open file to be closed */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+
+#if !FF_FS_READONLY
+	res = f_sync(fp);					/* Flush cached data */
+	if (res == FR_OK)
+#endif
+	{
+		res = validate(&fp->obj, &fs);	/* Lock volume */
+		if (res == FR_OK) {
+#if FF_FS_LOCK != 0
+			res = dec_lock(fp->obj.lockid);		/* Decrement file open counter */
+			if (res == FR_OK) fp->obj.fs = 0;	/* Invalidate file object */
+#else
+			fp->obj.fs = 0;	/* Invalidate file object */
+#endif
+#if FF_FS_REENTRANT
+			unlock_fs(fs, FR_OK);		/* Unlock volume */
+#endif
+		}
+	}
+	return res;
+}
+
+
+
+
+#if FF_FS_RPATH >= 1
+/*-----------------------------------------------------------------------*/
+/* Change Current Directory or Current Drive, Get Current Directory      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_chdrive (
+	const TCHAR* path		/* Drive number to set */
+)
+{
+	int vol;
+
+
+	/* Get logical drive number */
+	vol = get_ldnumber(&path);
+	if (vol < 0) return FR_INVALID_DRIVE;
+	CurrVol = (BYTE)vol;	/* Set it as current volume */
+
+	return FR_OK;
+}
+
+
+
+FRESULT f_chdir (
+	const TCHAR* path	/* Pointer to the directory path */
+)
+{
+#if FF_STR_VOLUME_ID == 2
+	UINT i;
+#endif
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);		/* Follow the path */
+		if (res == FR_OK) {					/* Follow completed */
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it the start directory itself? */
+				fs->cdir = dj.obj.sclust;
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {
+					fs->cdc_scl = dj.obj.c_scl;
+					fs->cdc_size = dj.obj.c_size;
+					fs->cdc_ofs = dj.obj.c_ofs;
+				}
+#endif
+			} else {
+				if (dj.obj.attr & AM_DIR) {	/* It is a sub-directory */
+#if FF_FS_EXFAT
+					if (fs->fs_type == FS_EXFAT) {
+						fs->cdir = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Sub-directory cluster */
+						fs->cdc_scl = dj.obj.sclust;						/* Save containing directory information */
+						fs->cdc_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
+						fs->cdc_ofs = dj.blk_ofs;
+					} else
+#endif
+					{
+						fs->cdir = ld_clust(fs, dj.dir);					/* Sub-directory cluster */
+					}
+				} else {
+					res = FR_NO_PATH;		/* Reached but a file */
+				}
+			}
+		}
+		FREE_NAMBUF();
+		if (res == FR_NO_FILE) res = FR_NO_PATH;
+#if FF_STR_VOLUME_ID == 2	/* Also current drive is changed if in Unix style volume ID */
+		if (res == FR_OK) {
+			for (i = FF_VOLUMES - 1; i && fs != FatFs[i]; i--) ;	/* Set current drive */
+			CurrVol = (BYTE)i;
+		}
+#endif
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+#if FF_FS_RPATH >= 2
+FRESULT f_getcwd (
+	TCHAR* buff,	/* Pointer to the directory path */
+	UINT len		/* Size of buff in unit of TCHAR */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	UINT i, n;
+	DWORD ccl;
+	TCHAR *tp = buff;
+#if FF_VOLUMES >= 2
+	UINT vl;
+#if FF_STR_VOLUME_ID
+	const char *vp;
+#endif
+#endif
+	FILINFO fno;
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	buff[0] = 0;	/* Set null string to get current volume */
+	res = mount_volume((const TCHAR**)&buff, &fs, 0);	/* Get current volume */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+
+		/* Follow parent directories and create the path */
+		i = len;			/* Bottom of buffer (directory stack base) */
+		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* (Cannot do getcwd on exFAT and returns root path) */
+			dj.obj.sclust = fs->cdir;				/* Start to follow upper directory from current directory */
+			while ((ccl = dj.obj.sclust) != 0) {	/* Repeat while current directory is a sub-directory */
+				res = dir_sdi(&dj, 1 * SZDIRE);	/* Get parent directory */
+				if (res != FR_OK) break;
+				res = move_window(fs, dj.sect);
+				if (res != FR_OK) break;
+				dj.obj.sclust = ld_clust(fs, dj.dir);	/* Goto parent directory */
+				res = dir_sdi(&dj, 0);
+				if (res != FR_OK) break;
+				do {							/* Find the entry links to the child directory */
+					res = DIR_READ_FILE(&dj);
+					if (res != FR_OK) break;
+					if (ccl == ld_clust(fs, dj.dir)) break;	/* Found the entry */
+					res = dir_next(&dj, 0);
+				} while (res == FR_OK);
+				if (res == FR_NO_FILE) res = FR_INT_ERR;/* It cannot be 'not found'. */
+				if (res != FR_OK) break;
+				get_fileinfo(&dj, &fno);		/* Get the directory name and push it to the buffer */
+				for (n = 0; fno.fname[n]; n++) ;	/* Name length */
+				if (i < n + 1) {	/* Insufficient space to store the path name? */
+					res = FR_NOT_ENOUGH_CORE; break;
+				}
+				while (n) buff[--i] = fno.fname[--n];	/* Stack the name */
+				buff[--i] = '/';
+			}
+		}
+		if (res == FR_OK) {
+			if (i == len) buff[--i] = '/';	/* Is it the root-directory? */
+#if FF_VOLUMES >= 2			/* Put drive prefix */
+			vl = 0;
+#if FF_STR_VOLUME_ID >= 1	/* String volume ID */
+			for (n = 0, vp = (const char*)VolumeStr[CurrVol]; vp[n]; n++) ;
+			if (i >= n + 2) {
+				if (FF_STR_VOLUME_ID == 2) *tp++ = (TCHAR)'/';
+				for (vl = 0; vl < n; *tp++ = (TCHAR)vp[vl], vl++) ;
+				if (FF_STR_VOLUME_ID == 1) *tp++ = (TCHAR)':';
+				vl++;
+			}
+#else						/* Numeric volume ID */
+			if (i >= 3) {
+				*tp++ = (TCHAR)'0' + CurrVol;
+				*tp++ = (TCHAR)':';
+				vl = 2;
+			}
+#endif
+			if (vl == 0) res = FR_NOT_ENOUGH_CORE;
+#endif
+			/* Add current directory path */
+			if (res == FR_OK) {
+				do *tp++ = buff[i++]; while (i < len);	/* Copy stacked path string */
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	*tp = 0;
+	LEAVE_FF(fs, res);
+}
+
+#endif /* FF_FS_RPATH >= 2 */
+#endif /* FF_FS_RPATH >= 1 */
+
+
+
+#if FF_FS_MINIMIZE <= 2
+/*-----------------------------------------------------------------------*/
+/* Seek File Read/Write Pointer                                          */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_lseek (
+	FIL* fp,		/* Pointer to the file object */
+	FSIZE_t ofs		/* File pointer from top of file */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst, bcs;
+	LBA_t nsect;
+	FSIZE_t ifptr;
+#if FF_USE_FASTSEEK
+	DWORD cl, pcl, ncl, tcl, tlen, ulen;
+	DWORD *tbl;
+	LBA_t dsc;
+#endif
+
+	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
+	if (res == FR_OK) res = (FRESULT)fp->err;
+#if FF_FS_EXFAT && !FF_FS_READONLY
+	if (res == FR_OK && fs->fs_type == FS_EXFAT) {
+		res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
+	}
+#endif
+	if (res != FR_OK) LEAVE_FF(fs, res);
+
+#if FF_USE_FASTSEEK
+	if (fp->cltbl) {	/* Fast seek */
+		if (ofs == CREATE_LINKMAP) {	/* Create CLMT */
+			tbl = fp->cltbl;
+			tlen = *tbl++; ulen = 2;	/* Given table size and required table size */
+			cl = fp->obj.sclust;		/* Origin of the chain */
+			if (cl != 0) {
+				do {
+					/* Get a fragment */
+					tcl = cl; ncl = 0; ulen += 2;	/* Top, length and used items */
+					do {
+						pcl = cl; ncl++;
+						cl = get_fat(&fp->obj, cl);
+						if (cl <= 1) ABORT(fs, FR_INT_ERR);
+						if (cl == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+					} while (cl == pcl + 1);
+					if (ulen <= tlen) {		/* Store the length and top of the fragment */
+						*tbl++ = ncl; *tbl++ = tcl;
+					}
+				} while (cl < fs->n_fatent);	/* Repeat until end of chain */
+			}
+			*fp->cltbl = ulen;	/* Number of items used */
+			if (ulen <= tlen) {
+				*tbl = 0;		/* Terminate table */
+			} else {
+				res = FR_NOT_ENOUGH_CORE;	/* Given table size is smaller than required */
+			}
+		} else {						/* Fast seek */
+			if (ofs > fp->obj.objsize) ofs = fp->obj.objsize;	/* Clip offset at the file size */
+			fp->fptr = ofs;				/* Set file pointer */
+			if (ofs > 0) {
+				fp->clust = clmt_clust(fp, ofs - 1);
+				dsc = clst2sect(fs, fp->clust);
+				if (dsc == 0) ABORT(fs, FR_INT_ERR);
+				dsc += (DWORD)((ofs - 1) / SS(fs)) & (fs->csize - 1);
+				if (fp->fptr % SS(fs) && dsc != fp->sect) {	/* Refill sector cache if needed */
+#if !FF_FS_TINY
+#if !FF_FS_READONLY
+					if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
+						if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+						fp->flag &= (BYTE)~FA_DIRTY;
+					}
+#endif
+					if (disk_read(fs->pdrv, fp->buf, dsc, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Load current sector */
+#endif
+					fp->sect = dsc;
+				}
+			}
+		}
+	} else
+#endif
+
+	/* Normal Seek */
+	{
+#if FF_FS_EXFAT
+		if (fs->fs_type != FS_EXFAT && ofs >= 0x100000000) ofs = 0xFFFFFFFF;	/* Clip at 4 GiB - 1 if at FATxx */
+#endif
+		if (ofs > fp->obj.objsize && (FF_FS_READONLY || !(fp->flag & FA_WRITE))) {	/* In read-only mode, clip offset with the file size */
+			ofs = fp->obj.objsize;
+		}
+		ifptr = fp->fptr;
+		fp->fptr = nsect = 0;
+		if (ofs > 0) {
+			bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size (byte) */
+			if (ifptr > 0 &&
+				(ofs - 1) / bcs >= (ifptr - 1) / bcs) {	/* When seek to same or following cluster, */
+				fp->fptr = (ifptr - 1) & ~(FSIZE_t)(bcs - 1);	/* start from the current cluster */
+				ofs -= fp->fptr;
+				clst = fp->clust;
+			} else {									/* When seek to back cluster, */
+				clst = fp->obj.sclust;					/* start from the first cluster */
+#if !FF_FS_READONLY
+				if (clst == 0) {						/* If no cluster chain, create a new chain */
+					clst = create_chain(&fp->obj, 0);
+					if (clst == 1) ABORT(fs, FR_INT_ERR);
+					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+					fp->obj.sclust = clst;
+				}
+#endif
+				fp->clust = clst;
+			}
+			if (clst != 0) {
+				while (ofs > bcs) {						/* Cluster following loop */
+					ofs -= bcs; fp->fptr += bcs;
+#if !FF_FS_READONLY
+					if (fp->flag & FA_WRITE) {			/* Check if in write mode or not */
+						if (FF_FS_EXFAT && fp->fptr > fp->obj.objsize) {	/* No FAT chain object needs correct objsize to generate FAT value */
+							fp->obj.objsize = fp->fptr;
+							fp->flag |= FA_MODIFIED;
+						}
+						clst = create_chain(&fp->obj, clst);	/* Follow chain with forceed stretch */
+						if (clst == 0) {				/* Clip file size in case of disk full */
+							ofs = 0; break;
+						}
+					} else
+#endif
+					{
+						clst = get_fat(&fp->obj, clst);	/* Follow cluster chain if not in write mode */
+					}
+					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+					if (clst <= 1 || clst >= fs->n_fatent) ABORT(fs, FR_INT_ERR);
+					fp->clust = clst;
+				}
+				fp->fptr += ofs;
+				if (ofs % SS(fs)) {
+					nsect = clst2sect(fs, clst);	/* Current sector */
+					if (nsect == 0) ABORT(fs, FR_INT_ERR);
+					nsect += (DWORD)(ofs / SS(fs));
+				}
+			}
+		}
+		if (!FF_FS_READONLY && fp->fptr > fp->obj.objsize) {	/* Set file change flag if the file size is extended */
+			fp->obj.objsize = fp->fptr;
+			fp->flag |= FA_MODIFIED;
+		}
+		if (fp->fptr % SS(fs) && nsect != fp->sect) {	/* Fill sector cache if needed */
+#if !FF_FS_TINY
+#if !FF_FS_READONLY
+			if (fp->flag & FA_DIRTY) {			/* Write-back dirty sector cache */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			if (disk_read(fs->pdrv, fp->buf, nsect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
+#endif
+			fp->sect = nsect;
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+#if FF_FS_MINIMIZE <= 1
+/*-----------------------------------------------------------------------*/
+/* Create a Directory Object                                             */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_opendir (
+	DIR* dp,			/* Pointer to directory object to create */
+	const TCHAR* path	/* Pointer to the directory path */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	if (!dp) return FR_INVALID_OBJECT;
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+	if (res == FR_OK) {
+		dp->obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(dp, path);			/* Follow the path to the directory */
+		if (res == FR_OK) {						/* Follow completed */
+			if (!(dp->fn[NSFLAG] & NS_NONAME)) {	/* It is not the origin directory itself */
+				if (dp->obj.attr & AM_DIR) {		/* This object is a sub-directory */
+#if FF_FS_EXFAT
+					if (fs->fs_type == FS_EXFAT) {
+						dp->obj.c_scl = dp->obj.sclust;							/* Get containing directory inforamation */
+						dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
+						dp->obj.c_ofs = dp->blk_ofs;
+						init_alloc_info(fs, &dp->obj);	/* Get object allocation info */
+					} else
+#endif
+					{
+						dp->obj.sclust = ld_clust(fs, dp->dir);	/* Get object allocation info */
+					}
+				} else {						/* This object is a file */
+					res = FR_NO_PATH;
+				}
+			}
+			if (res == FR_OK) {
+				dp->obj.id = fs->id;
+				res = dir_sdi(dp, 0);			/* Rewind directory */
+#if FF_FS_LOCK != 0
+				if (res == FR_OK) {
+					if (dp->obj.sclust != 0) {
+						dp->obj.lockid = inc_lock(dp, 0);	/* Lock the sub directory */
+						if (!dp->obj.lockid) res = FR_TOO_MANY_OPEN_FILES;
+					} else {
+						dp->obj.lockid = 0;	/* Root directory need not to be locked */
+					}
+				}
+#endif
+			}
+		}
+		FREE_NAMBUF();
+		if (res == FR_NO_FILE) res = FR_NO_PATH;
+	}
+	if (res != FR_OK) dp->obj.fs = 0;		/* Invalidate the directory object if function faild */
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Close Directory                                                       */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_closedir (
+	DIR *dp		/* Pointer to the directory object to be closed */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+
+
+	res = validate(&dp->obj, &fs);	/* Check validity of the file object */
+	if (res == FR_OK) {
+#if FF_FS_LOCK != 0
+		if (dp->obj.lockid) res = dec_lock(dp->obj.lockid);	/* Decrement sub-directory open counter */
+		if (res == FR_OK) dp->obj.fs = 0;	/* Invalidate directory object */
+#else
+		dp->obj.fs = 0;	/* Invalidate directory object */
+#endif
+#if FF_FS_REENTRANT
+		unlock_fs(fs, FR_OK);		/* Unlock volume */
+#endif
+	}
+	return res;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Read Directory Entries in Sequence                                    */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_readdir (
+	DIR* dp,			/* Pointer to the open directory object */
+	FILINFO* fno		/* Pointer to file information to return */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	res = validate(&dp->obj, &fs);	/* Check validity of the directory object */
+	if (res == FR_OK) {
+		if (!fno) {
+			res = dir_sdi(dp, 0);			/* Rewind the directory object */
+		} else {
+			INIT_NAMBUF(fs);
+			res = DIR_READ_FILE(dp);		/* Read an item */
+			if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory */
+			if (res == FR_OK) {				/* A valid entry is found */
+				get_fileinfo(dp, fno);		/* Get the object information */
+				res = dir_next(dp, 0);		/* Increment index for next */
+				if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory now */
+			}
+			FREE_NAMBUF();
+		}
+	}
+	LEAVE_FF(fs, res);
+}
+
+
+
+#if FF_USE_FIND
+/*-----------------------------------------------------------------------*/
+/* Find Next File                                                        */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_findnext (
+	DIR* dp,		/* Pointer to the open directory object */
+	FILINFO* fno	/* Pointer to the file information structure */
+)
+{
+	FRESULT res;
+
+
+	for (;;) {
+		res = f_readdir(dp, fno);		/* Get a directory item */
+		if (res != FR_OK || !fno || !fno->fname[0]) break;	/* Terminate if any error or end of directory */
+		if (pattern_match(dp->pat, fno->fname, 0, FIND_RECURS)) break;		/* Test for the file name */
+#if FF_USE_LFN && FF_USE_FIND == 2
+		if (pattern_match(dp->pat, fno->altname, 0, FIND_RECURS)) break;	/* Test for alternative name if exist */
+#endif
+	}
+	return res;
+}
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Find First File                                                       */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_findfirst (
+	DIR* dp,				/* Pointer to the blank directory object */
+	FILINFO* fno,			/* Pointer to the file information structure */
+	const TCHAR* path,		/* Pointer to the directory to open */
+	const TCHAR* pattern	/* Pointer to the matching pattern */
+)
+{
+	FRESULT res;
+
+
+	dp->pat = pattern;		/* Save pointer to pattern string */
+	res = f_opendir(dp, path);		/* Open the target directory */
+	if (res == FR_OK) {
+		res = f_findnext(dp, fno);	/* Find the first item */
+	}
+	return res;
+}
+
+#endif	/* FF_USE_FIND */
+
+
+
+#if FF_FS_MINIMIZE == 0
+/*-----------------------------------------------------------------------*/
+/* Get File Status                                                       */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_stat (
+	const TCHAR* path,	/* Pointer to the file path */
+	FILINFO* fno		/* Pointer to file information to return */
+)
+{
+	FRESULT res;
+	DIR dj;
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &dj.obj.fs, 0);
+	if (res == FR_OK) {
+		INIT_NAMBUF(dj.obj.fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+		if (res == FR_OK) {				/* Follow completed */
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* It is origin directory */
+				res = FR_INVALID_NAME;
+			} else {							/* Found an object */
+				if (fno) get_fileinfo(&dj, fno);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(dj.obj.fs, res);
+}
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Get Number of Free Clusters                                           */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_getfree (
+	const TCHAR* path,	/* Logical drive number */
+	DWORD* nclst,		/* Pointer to a variable to return number of free clusters */
+	FATFS** fatfs		/* Pointer to return pointer to corresponding filesystem object */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD nfree, clst, stat;
+	LBA_t sect;
+	UINT i;
+	FFOBJID obj;
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+	if (res == FR_OK) {
+		*fatfs = fs;				/* Return ptr to the fs object */
+		/* If free_clst is valid, return it without full FAT scan */
+		if (fs->free_clst <= fs->n_fatent - 2) {
+			*nclst = fs->free_clst;
+		} else {
+			/* Scan FAT to obtain number of free clusters */
+			nfree = 0;
+			if (fs->fs_type == FS_FAT12) {	/* FAT12: Scan bit field FAT entries */
+				clst = 2; obj.fs = fs;
+				do {
+					stat = get_fat(&obj, clst);
+					if (stat == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
+					if (stat == 1) { res = FR_INT_ERR; break; }
+					if (stat == 0) nfree++;
+				} while (++clst < fs->n_fatent);
+			} else {
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {	/* exFAT: Scan allocation bitmap */
+					BYTE bm;
+					UINT b;
+
+					clst = fs->n_fatent - 2;	/* Number of clusters */
+					sect = fs->bitbase;			/* Bitmap sector */
+					i = 0;						/* Offset in the sector */
+					do {	/* Counts numbuer of bits with zero in the bitmap */
+						if (i == 0) {
+							res = move_window(fs, sect++);
+							if (res != FR_OK) break;
+						}
+						for (b = 8, bm = fs->win[i]; b && clst; b--, clst--) {
+							if (!(bm & 1)) nfree++;
+							bm >>= 1;
+						}
+						i = (i + 1) % SS(fs);
+					} while (clst);
+				} else
+#endif
+				{	/* FAT16/32: Scan WORD/DWORD FAT entries */
+					clst = fs->n_fatent;	/* Number of entries */
+					sect = fs->fatbase;		/* Top of the FAT */
+					i = 0;					/* Offset in the sector */
+					do {	/* Counts numbuer of entries with zero in the FAT */
+						if (i == 0) {
+							res = move_window(fs, sect++);
+							if (res != FR_OK) break;
+						}
+						if (fs->fs_type == FS_FAT16) {
+							if (ld_word(fs->win + i) == 0) nfree++;
+							i += 2;
+						} else {
+							if ((ld_dword(fs->win + i) & 0x0FFFFFFF) == 0) nfree++;
+							i += 4;
+						}
+						i %= SS(fs);
+					} while (--clst);
+				}
+			}
+			if (res == FR_OK) {		/* Update parameters if succeeded */
+				*nclst = nfree;			/* Return the free clusters */
+				fs->free_clst = nfree;	/* Now free_clst is valid */
+				fs->fsi_flag |= 1;		/* FAT32: FSInfo is to be updated */
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Truncate File                                                         */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_truncate (
+	FIL* fp		/* Pointer to the file object */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD ncl;
+
+
+	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
+	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
+
+	if (fp->fptr < fp->obj.objsize) {	/* Process when fptr is not on the eof */
+		if (fp->fptr == 0) {	/* When set file size to zero, remove entire cluster chain */
+			res = remove_chain(&fp->obj, fp->obj.sclust, 0);
+			fp->obj.sclust = 0;
+		} else {				/* When truncate a part of the file, remove remaining clusters */
+			ncl = get_fat(&fp->obj, fp->clust);
+			res = FR_OK;
+			if (ncl == 0xFFFFFFFF) res = FR_DISK_ERR;
+			if (ncl == 1) res = FR_INT_ERR;
+			if (res == FR_OK && ncl < fs->n_fatent) {
+				res = remove_chain(&fp->obj, ncl, fp->clust);
+			}
+		}
+		fp->obj.objsize = fp->fptr;	/* Set file size to current read/write point */
+		fp->flag |= FA_MODIFIED;
+#if !FF_FS_TINY
+		if (res == FR_OK && (fp->flag & FA_DIRTY)) {
+			if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) {
+				res = FR_DISK_ERR;
+			} else {
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+		}
+#endif
+		if (res != FR_OK) ABORT(fs, res);
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Delete a File/Directory                                               */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_unlink (
+	const TCHAR* path		/* Pointer to the file or directory path */
+)
+{
+	FRESULT res;
+	DIR dj, sdj;
+	DWORD dclst = 0;
+	FATFS *fs;
+#if FF_FS_EXFAT
+	FFOBJID obj;
+#endif
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, FA_WRITE);
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);		/* Follow the file path */
+		if (FF_FS_RPATH && res == FR_OK && (dj.fn[NSFLAG] & NS_DOT)) {
+			res = FR_INVALID_NAME;			/* Cannot remove dot entry */
+		}
+#if FF_FS_LOCK != 0
+		if (res == FR_OK) res = chk_lock(&dj, 2);	/* Check if it is an open object */
+#endif
+		if (res == FR_OK) {					/* The object is accessible */
+			if (dj.fn[NSFLAG] & NS_NONAME) {
+				res = FR_INVALID_NAME;		/* Cannot remove the origin directory */
+			} else {
+				if (dj.obj.attr & AM_RDO) {
+					res = FR_DENIED;		/* Cannot remove R/O object */
+				}
+			}
+			if (res == FR_OK) {
+#if FF_FS_EXFAT
+				obj.fs = fs;
+				if (fs->fs_type == FS_EXFAT) {
+					init_alloc_info(fs, &obj);
+					dclst = obj.sclust;
+				} else
+#endif
+				{
+					dclst = ld_clust(fs, dj.dir);
+				}
+				if (dj.obj.attr & AM_DIR) {			/* Is it a sub-directory? */
+#if FF_FS_RPATH != 0
+					if (dclst == fs->cdir) {	 	/* Is it the current directory? */
+						res = FR_DENIED;
+					} else
+#endif
+					{
+						sdj.obj.fs = fs;			/* Open the sub-directory */
+						sdj.obj.sclust = dclst;
+#if FF_FS_EXFAT
+						if (fs->fs_type == FS_EXFAT) {
+							sdj.obj.objsize = obj.objsize;
+							sdj.obj.stat = obj.stat;
+						}
+#endif
+						res = dir_sdi(&sdj, 0);
+						if (res == FR_OK) {
+							res = DIR_READ_FILE(&sdj);			/* Test if the directory is empty */
+							if (res == FR_OK) res = FR_DENIED;	/* Not empty? */
+							if (res == FR_NO_FILE) res = FR_OK;	/* Empty? */
+						}
+					}
+				}
+			}
+			if (res == FR_OK) {
+				res = dir_remove(&dj);			/* Remove the directory entry */
+				if (res == FR_OK && dclst != 0) {	/* Remove the cluster chain if exist */
+#if FF_FS_EXFAT
+					res = remove_chain(&obj, dclst, 0);
+#else
+					res = remove_chain(&dj.obj, dclst, 0);
+#endif
+				}
+				if (res == FR_OK) res = sync_fs(fs);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Create a Directory                                                    */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_mkdir (
+	const TCHAR* path		/* Pointer to the directory path */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FFOBJID sobj;
+	FATFS *fs;
+	DWORD dcl, pcl, tm;
+	DEF_NAMBUF
+
+
+	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);			/* Follow the file path */
+		if (res == FR_OK) res = FR_EXIST;		/* Name collision? */
+		if (FF_FS_RPATH && res == FR_NO_FILE && (dj.fn[NSFLAG] & NS_DOT)) {	/* Invalid name? */
+			res = FR_INVALID_NAME;
+		}
+		if (res == FR_NO_FILE) {				/* It is clear to create a new directory */
+			sobj.fs = fs;						/* New object id to create a new chain */
+			dcl = create_chain(&sobj, 0);		/* Allocate a cluster for the new directory */
+			res = FR_OK;
+			if (dcl == 0) res = FR_DENIED;		/* No space to allocate a new cluster? */
+			if (dcl == 1) res = FR_INT_ERR;		/* Any insanity? */
+			if (dcl == 0xFFFFFFFF) res = FR_DISK_ERR;	/* Disk error? */
+			tm = GET_FATTIME();
+			if (res == FR_OK) {
+				res = dir_clear(fs, dcl);		/* Clean up the new table */
+				if (res == FR_OK) {
+					if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* Create dot entries (FAT only) */
+						memset(fs->win + DIR_Name, ' ', 11);	/* Create "." entry */
+						fs->win[DIR_Name] = '.';
+						fs->win[DIR_Attr] = AM_DIR;
+						st_dword(fs->win + DIR_ModTime, tm);
+						st_clust(fs, fs->win, dcl);
+						memcpy(fs->win + SZDIRE, fs->win, SZDIRE);	/* Create ".." entry */
+						fs->win[SZDIRE + 1] = '.'; pcl = dj.obj.sclust;
+						st_clust(fs, fs->win + SZDIRE, pcl);
+						fs->wflag = 1;
+					}
+					res = dir_register(&dj);	/* Register the object to the parent directoy */
+				}
+			}
+			if (res == FR_OK) {
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {	/* Initialize directory entry block */
+					st_dword(fs->dirbuf + XDIR_ModTime, tm);	/* Created time */
+					st_dword(fs->dirbuf + XDIR_FstClus, dcl);	/* Table start cluster */
+					st_dword(fs->dirbuf + XDIR_FileSize, (DWORD)fs->csize * SS(fs));	/* Directory size needs to be valid */
+					st_dword(fs->dirbuf + XDIR_ValidFileSize, (DWORD)fs->csize * SS(fs));
+					fs->dirbuf[XDIR_GenFlags] = 3;				/* Initialize the object flag */
+					fs->dirbuf[XDIR_Attr] = AM_DIR;				/* Attribute */
+					res = store_xdir(&dj);
+				} else
+#endif
+				{
+					st_dword(dj.dir + DIR_ModTime, tm);	/* Created time */
+					st_clust(fs, dj.dir, dcl);			/* Table start cluster */
+					dj.dir[DIR_Attr] = AM_DIR;			/* Attribute */
+					fs->wflag = 1;
+				}
+				if (res == FR_OK) {
+					res = sync_fs(fs);
+				}
+			} else {
+				remove_chain(&sobj, dcl, 0);		/* Could not register, remove the allocated cluster */
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Rename a File/Directory                                               */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_rename (
+	const TCHAR* path_old,	/* Pointer to the object name to be renamed */
+	const TCHAR* path_new	/* Pointer to the new name */
+)
+{
+	FRESULT res;
+	DIR djo, djn, dja;
+	FATFS *fs;
+	UINT n;
+	BYTE buf[FF_FS_EXFAT ? SZDIRE * 2 : SZDIRE], *dir;
+	LBA_t sect;
+	DEF_NAMBUF
+
+
+	get_ldnumber(&path_new);						/* Snip the drive number of new name off */
+	res = mount_volume(&path_old, &fs, FA_WRITE);	/* Get logical drive of the old object */
+	if (res == FR_OK) {
+		djo.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&djo, path_old);			/* Check old object */
+		if (res == FR_OK && (djo.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check validity of name */
+#if FF_FS_LOCK != 0
+		if (res == FR_OK) {
+			res = chk_lock(&djo, 2);
+		}
+#endif
+		if (res == FR_OK) {					/* Object to be renamed is found */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {	/* At exFAT volume */
+				BYTE nf, nn;
+				WORD nh;
+
+				memcpy(buf, fs->dirbuf, SZDIRE * 2);	/* Save 85+C0 entry of old object */
+				memcpy(&djn, &djo, sizeof djo);
+				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
+				if (res == FR_OK) {						/* Is new name already in use by any other object? */
+					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) ? FR_NO_FILE : FR_EXIST;
+				}
+				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
+					res = dir_register(&djn);			/* Register the new entry */
+					if (res == FR_OK) {
+						nf = fs->dirbuf[XDIR_NumSec]; nn = fs->dirbuf[XDIR_NumName];
+						nh = ld_word(fs->dirbuf + XDIR_NameHash);
+						memcpy(fs->dirbuf, buf, SZDIRE * 2);	/* Restore 85+C0 entry */
+						fs->dirbuf[XDIR_NumSec] = nf; fs->dirbuf[XDIR_NumName] = nn;
+						st_word(fs->dirbuf + XDIR_NameHash, nh);
+						if (!(fs->dirbuf[XDIR_Attr] & AM_DIR)) fs->dirbuf[XDIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
+/* Start of critical section where an interruption can cause a cross-link */
+						res = store_xdir(&djn);
+					}
+				}
+			} else
+#endif
+			{	/* At FAT/FAT32 volume */
+				memcpy(buf, djo.dir, SZDIRE);			/* Save directory entry of the object */
+				memcpy(&djn, &djo, sizeof (DIR));		/* Duplicate the directory object */
+				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
+				if (res == FR_OK) {						/* Is new name already in use by any other object? */
+					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) ? FR_NO_FILE : FR_EXIST;
+				}
+				if (res == FR_NO_FILE && (buf[DIR_Attr] & AM_DIR)) {	/* A directory cannot be moved into itself */
+					dja.obj.fs = fs;
+					dja.obj.sclust = djn.obj.sclust;
+					for (n = 0; dja.obj.sclust != 0; n++) {	/* Follow parent directories up to the root */
+						if (dja.obj.sclust == ld_clust(fs, buf)) { res = FR_DENIED; break; }
+						if (n >= 0x8000 || dir_sdi(&dja, 1 * SZDIRE) != FR_OK) { res = FR_INT_ERR; break; }
+						if (move_window(fs, dja.sect) != FR_OK) { res = FR_DISK_ERR; break; }
+						dja.obj.sclust = ld_clust(fs, dja.dir);
+					}
+				}
+				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
+					res = dir_register(&djn);			/* Register the new entry */
+					if (res == FR_OK) {
+						dir = djn.dir;					/* Copy directory entry of the object except name */
+						memcpy(dir + 13, buf + 13, SZDIRE - 13);
+						dir[DIR_Attr] = buf[DIR_Attr];
+						if (!(dir[DIR_Attr] & AM_DIR)) dir[DIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
+						fs->wflag = 1;
+						if ((dir[DIR_Attr] & AM_DIR) && djo.obj.sclust != djn.obj.sclust) {	/* Update .. entry in the sub-directory if needed */
+							sect = clst2sect(fs, ld_clust(fs, dir));
+							if (sect == 0) {
+								res = FR_INT_ERR;
+							} else {
+/* Start of critical section where an interruption can cause a cross-link */
+								res = move_window(fs, sect);
+								dir = fs->win + SZDIRE * 1;	/* Ptr to .. entry */
+								if (res == FR_OK && dir[1] == '.') {
+									st_clust(fs, dir, djn.obj.sclust);
+									fs->wflag = 1;
+								}
+							}
+						}
+					}
+				}
+			}
+			if (res == FR_OK) {
+				res = dir_remove(&djo);		/* Remove old entry */
+				if (res == FR_OK) {
+					res = sync_fs(fs);
+				}
+			}
+/* End of the critical section */
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* !FF_FS_READONLY */
+#endif /* FF_FS_MINIMIZE == 0 */
+#endif /* FF_FS_MINIMIZE <= 1 */
+#endif /* FF_FS_MINIMIZE <= 2 */
+
+
+
+#if FF_USE_CHMOD && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Change Attribute                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_chmod (
+	const TCHAR* path,	/* Pointer to the file path */
+	BYTE attr,			/* Attribute bits */
+	BYTE mask			/* Attribute mask to change */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
+		if (res == FR_OK) {
+			mask &= AM_RDO|AM_HID|AM_SYS|AM_ARC;	/* Valid attribute mask */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				fs->dirbuf[XDIR_Attr] = (attr & mask) | (fs->dirbuf[XDIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
+				res = store_xdir(&dj);
+			} else
+#endif
+			{
+				dj.dir[DIR_Attr] = (attr & mask) | (dj.dir[DIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
+				fs->wflag = 1;
+			}
+			if (res == FR_OK) {
+				res = sync_fs(fs);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Change Timestamp                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_utime (
+	const TCHAR* path,	/* Pointer to the file/directory name */
+	const FILINFO* fno	/* Pointer to the timestamp to be set */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
+		if (res == FR_OK) {
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				st_dword(fs->dirbuf + XDIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
+				res = store_xdir(&dj);
+			} else
+#endif
+			{
+				st_dword(dj.dir + DIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
+				fs->wflag = 1;
+			}
+			if (res == FR_OK) {
+				res = sync_fs(fs);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif	/* FF_USE_CHMOD && !FF_FS_READONLY */
+
+
+
+#if FF_USE_LABEL
+/*-----------------------------------------------------------------------*/
+/* Get Volume Label                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_getlabel (
+	const TCHAR* path,	/* Logical drive number */
+	TCHAR* label,		/* Buffer to store the volume label */
+	DWORD* vsn			/* Variable to store the volume serial number */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	UINT si, di;
+	WCHAR wc;
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+
+	/* Get volume label */
+	if (res == FR_OK && label) {
+		dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
+		res = dir_sdi(&dj, 0);
+		if (res == FR_OK) {
+		 	res = DIR_READ_LABEL(&dj);		/* Find a volume label entry */
+		 	if (res == FR_OK) {
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {
+					WCHAR hs;
+					UINT nw;
+
+					for (si = di = hs = 0; si < dj.dir[XDIR_NumLabel]; si++) {	/* Extract volume label from 83 entry */
+						wc = ld_word(dj.dir + XDIR_Label + si * 2);
+						if (hs == 0 && IsSurrogate(wc)) {	/* Is the code a surrogate? */
+							hs = wc; continue;
+						}
+						nw = put_utf((DWORD)hs << 16 | wc, &label[di], 4);	/* Store it in API encoding */
+						if (nw == 0) { di = 0; break; }		/* Encode error? */
+						di += nw;
+						hs = 0;
+					}
+					if (hs != 0) di = 0;	/* Broken surrogate pair? */
+					label[di] = 0;
+				} else
+#endif
+				{
+					si = di = 0;		/* Extract volume label from AM_VOL entry */
+					while (si < 11) {
+						wc = dj.dir[si++];
+#if FF_USE_LFN && FF_LFN_UNICODE >= 1 	/* Unicode output */
+						if (dbc_1st((BYTE)wc) && si < 11) wc = wc << 8 | dj.dir[si++];	/* Is it a DBC? */
+						wc = ff_oem2uni(wc, CODEPAGE);		/* Convert it into Unicode */
+						if (wc == 0) { di = 0; break; }		/* Invalid char in current code page? */
+						di += put_utf(wc, &label[di], 4);	/* Store it in Unicode */
+#else									/* ANSI/OEM output */
+						label[di++] = (TCHAR)wc;
+#endif
+					}
+					do {				/* Truncate trailing spaces */
+						label[di] = 0;
+						if (di == 0) break;
+					} while (label[--di] == ' ');
+				}
+			}
+		}
+		if (res == FR_NO_FILE) {	/* No label entry and return nul string */
+			label[0] = 0;
+			res = FR_OK;
+		}
+	}
+
+	/* Get volume serial number */
+	if (res == FR_OK && vsn) {
+		res = move_window(fs, fs->volbase);
+		if (res == FR_OK) {
+			switch (fs->fs_type) {
+			case FS_EXFAT:
+				di = BPB_VolIDEx;
+				break;
+
+			case FS_FAT32:
+				di = BS_VolID32;
+				break;
+
+			default:
+				di = BS_VolID;
+			}
+			*vsn = ld_dword(fs->win + di);
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Set Volume Label                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_setlabel (
+	const TCHAR* label	/* Volume label to set with heading logical drive number */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	BYTE dirvn[22];
+	UINT di;
+	WCHAR wc;
+	static const char badchr[18] = "+.,;=[]" "/*:<>|\\\"\?\x7F";	/* [0..16] for FAT, [7..16] for exFAT */
+#if FF_USE_LFN
+	DWORD dc;
+#endif
+
+	/* Get logical drive */
+	res = mount_volume(&label, &fs, FA_WRITE);
+	if (res != FR_OK) LEAVE_FF(fs, res);
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		memset(dirvn, 0, 22);
+		di = 0;
+		while ((UINT)*label >= ' ') {	/* Create volume label */
+			dc = tchar2uni(&label);	/* Get a Unicode character */
+			if (dc >= 0x10000) {
+				if (dc == 0xFFFFFFFF || di >= 10) {	/* Wrong surrogate or buffer overflow */
+					dc = 0;
+				} else {
+					st_word(dirvn + di * 2, (WCHAR)(dc >> 16)); di++;
+				}
+			}
+			if (dc == 0 || strchr(&badchr[7], (int)dc) || di >= 11) {	/* Check validity of the volume label */
+				LEAVE_FF(fs, FR_INVALID_NAME);
+			}
+			st_word(dirvn + di * 2, (WCHAR)dc); di++;
+		}
+	} else
+#endif
+	{	/* On the FAT/FAT32 volume */
+		memset(dirvn, ' ', 11);
+		di = 0;
+		while ((UINT)*label >= ' ') {	/* Create volume label */
+#if FF_USE_LFN
+			dc = tchar2uni(&label);
+			wc = (dc < 0x10000) ? ff_uni2oem(ff_wtoupper(dc), CODEPAGE) : 0;
+#else									/* ANSI/OEM input */
+			wc = (BYTE)*label++;
+			if (dbc_1st((BYTE)wc)) wc = dbc_2nd((BYTE)*label) ? wc << 8 | (BYTE)*label++ : 0;
+			if (IsLower(wc)) wc -= 0x20;		/* To upper ASCII characters */
+#if FF_CODE_PAGE == 0
+			if (ExCvt && wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
+#elif FF_CODE_PAGE < 900
+			if (wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
+#endif
+#endif
+			if (wc == 0 || strchr(&badchr[0], (int)wc) || di >= (UINT)((wc >= 0x100) ? 10 : 11)) {	/* Reject invalid characters for volume label */
+				LEAVE_FF(fs, FR_INVALID_NAME);
+			}
+			if (wc >= 0x100) dirvn[di++] = (BYTE)(wc >> 8);
+			dirvn[di++] = (BYTE)wc;
+		}
+		if (dirvn[0] == DDEM) LEAVE_FF(fs, FR_INVALID_NAME);	/* Reject illegal name (heading DDEM) */
+		while (di && dirvn[di - 1] == ' ') di--;				/* Snip trailing spaces */
+	}
+
+	/* Set volume label */
+	dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
+	res = dir_sdi(&dj, 0);
+	if (res == FR_OK) {
+		res = DIR_READ_LABEL(&dj);	/* Get volume label entry */
+		if (res == FR_OK) {
+			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
+				dj.dir[XDIR_NumLabel] = (BYTE)di;	/* Change the volume label */
+				memcpy(dj.dir + XDIR_Label, dirvn, 22);
+			} else {
+				if (di != 0) {
+					memcpy(dj.dir, dirvn, 11);	/* Change the volume label */
+				} else {
+					dj.dir[DIR_Name] = DDEM;	/* Remove the volume label */
+				}
+			}
+			fs->wflag = 1;
+			res = sync_fs(fs);
+		} else {			/* No volume label entry or an error */
+			if (res == FR_NO_FILE) {
+				res = FR_OK;
+				if (di != 0) {	/* Create a volume label entry */
+					res = dir_alloc(&dj, 1);	/* Allocate an entry */
+					if (res == FR_OK) {
+						memset(dj.dir, 0, SZDIRE);	/* Clean the entry */
+						if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
+							dj.dir[XDIR_Type] = ET_VLABEL;	/* Create volume label entry */
+							dj.dir[XDIR_NumLabel] = (BYTE)di;
+							memcpy(dj.dir + XDIR_Label, dirvn, 22);
+						} else {
+							dj.dir[DIR_Attr] = AM_VOL;		/* Create volume label entry */
+							memcpy(dj.dir, dirvn, 11);
+						}
+						fs->wflag = 1;
+						res = sync_fs(fs);
+					}
+				}
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* !FF_FS_READONLY */
+#endif /* FF_USE_LABEL */
+
+
+
+#if FF_USE_EXPAND && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Allocate a Contiguous Blocks to the File                              */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_expand (
+	FIL* fp,		/* Pointer to the file object */
+	FSIZE_t fsz,	/* File size to be expanded to */
+	BYTE opt		/* Operation mode 0:Find and prepare or 1:Find and allocate */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD n, clst, stcl, scl, ncl, tcl, lclst;
+
+
+	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
+	if (fsz == 0 || fp->obj.objsize != 0 || !(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);
+#if FF_FS_EXFAT
+	if (fs->fs_type != FS_EXFAT && fsz >= 0x100000000) LEAVE_FF(fs, FR_DENIED);	/* Check if in size limit */
+#endif
+	n = (DWORD)fs->csize * SS(fs);	/* Cluster size */
+	tcl = (DWORD)(fsz / n) + ((fsz & (n - 1)) ? 1 : 0);	/* Number of clusters required */
+	stcl = fs->last_clst; lclst = 0;
+	if (stcl < 2 || stcl >= fs->n_fatent) stcl = 2;
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {
+		scl = find_bitmap(fs, stcl, tcl);			/* Find a contiguous cluster block */
+		if (scl == 0) res = FR_DENIED;				/* No contiguous cluster block was found */
+		if (scl == 0xFFFFFFFF) res = FR_DISK_ERR;
+		if (res == FR_OK) {	/* A contiguous free area is found */
+			if (opt) {		/* Allocate it now */
+				res = change_bitmap(fs, scl, tcl, 1);	/* Mark the cluster block 'in use' */
+				lclst = scl + tcl - 1;
+			} else {		/* Set it as suggested point for next allocation */
+				lclst = scl - 1;
+			}
+		}
+	} else
+#endif
+	{
+		scl = clst = stcl; ncl = 0;
+		for (;;) {	/* Find a contiguous cluster block */
+			n = get_fat(&fp->obj, clst);
+			if (++clst >= fs->n_fatent) clst = 2;
+			if (n == 1) { res = FR_INT_ERR; break; }
+			if (n == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
+			if (n == 0) {	/* Is it a free cluster? */
+				if (++ncl == tcl) break;	/* Break if a contiguous cluster block is found */
+			} else {
+				scl = clst; ncl = 0;		/* Not a free cluster */
+			}
+			if (clst == stcl) { res = FR_DENIED; break; }	/* No contiguous cluster? */
+		}
+		if (res == FR_OK) {	/* A contiguous free area is found */
+			if (opt) {		/* Allocate it now */
+				for (clst = scl, n = tcl; n; clst++, n--) {	/* Create a cluster chain on the FAT */
+					res = put_fat(fs, clst, (n == 1) ? 0xFFFFFFFF : clst + 1);
+					if (res != FR_OK) break;
+					lclst = clst;
+				}
+			} else {		/* Set it as suggested point for next allocation */
+				lclst = scl - 1;
+			}
+		}
+	}
+
+	if (res == FR_OK) {
+		fs->last_clst = lclst;		/* Set suggested start cluster to start next */
+		if (opt) {	/* Is it allocated now? */
+			fp->obj.sclust = scl;		/* Update object allocation information */
+			fp->obj.objsize = fsz;
+			if (FF_FS_EXFAT) fp->obj.stat = 2;	/* Set status 'contiguous chain' */
+			fp->flag |= FA_MODIFIED;
+			if (fs->free_clst <= fs->n_fatent - 2) {	/* Update FSINFO */
+				fs->free_clst -= tcl;
+				fs->fsi_flag |= 1;
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* FF_USE_EXPAND && !FF_FS_READONLY */
+
+
+
+#if FF_USE_FORWARD
+/*-----------------------------------------------------------------------*/
+/* Forward Data to the Stream Directly                                   */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_forward (
+	FIL* fp, 						/* Pointer to the file object */
+	UINT (*func)(const BYTE*,UINT),	/* Pointer to the streaming function */
+	UINT btf,						/* Number of bytes to forward */
+	UINT* bf						/* Pointer to number of bytes forwarded */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst;
+	LBA_t sect;
+	FSIZE_t remain;
+	UINT rcnt, csect;
+	BYTE *dbuf;
+
+
+	*bf = 0;	/* Clear transfer byte counter */
+	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
+	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
+
+	remain = fp->obj.objsize - fp->fptr;
+	if (btf > remain) btf = (UINT)remain;			/* Truncate btf by remaining bytes */
+
+	for ( ; btf > 0 && (*func)(0, 0); fp->fptr += rcnt, *bf += rcnt, btf -= rcnt) {	/* Repeat until all data transferred or stream goes busy */
+		csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
+		if (fp->fptr % SS(fs) == 0) {				/* On the sector boundary? */
+			if (csect == 0) {						/* On the cluster boundary? */
+				clst = (fp->fptr == 0) ?			/* On the top of the file? */
+					fp->obj.sclust : get_fat(&fp->obj, fp->clust);
+				if (clst <= 1) ABORT(fs, FR_INT_ERR);
+				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+				fp->clust = clst;					/* Update current cluster */
+			}
+		}
+		sect = clst2sect(fs, fp->clust);			/* Get current data sector */
+		if (sect == 0) ABORT(fs, FR_INT_ERR);
+		sect += csect;
+#if FF_FS_TINY
+		if (move_window(fs, sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window to the file data */
+		dbuf = fs->win;
+#else
+		if (fp->sect != sect) {		/* Fill sector cache with file data */
+#if !FF_FS_READONLY
+			if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+		}
+		dbuf = fp->buf;
+#endif
+		fp->sect = sect;
+		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
+		if (rcnt > btf) rcnt = btf;					/* Clip it by btr if needed */
+		rcnt = (*func)(dbuf + ((UINT)fp->fptr % SS(fs)), rcnt);	/* Forward the file data */
+		if (rcnt == 0) ABORT(fs, FR_INT_ERR);
+	}
+
+	LEAVE_FF(fs, FR_OK);
+}
+#endif /* FF_USE_FORWARD */
+
+
+
+#if !FF_FS_READONLY && FF_USE_MKFS
+/*-----------------------------------------------------------------------*/
+/* Create FAT/exFAT volume (with sub-functions)                          */
+/*-----------------------------------------------------------------------*/
+
+#define N_SEC_TRACK 63			/* Sectors per track for determination of drive CHS */
+#define	GPT_ALIGN	0x100000	/* Alignment of partitions in GPT [byte] (>=128KB) */
+#define GPT_ITEMS	128			/* Number of GPT table size (>=128, sector aligned) */
+
+
+/* Create partitions on the physical drive in format of MBR or GPT */
+
+static FRESULT create_partition (
+	BYTE drv,			/* Physical drive number */
+	const LBA_t plst[],	/* Partition list */
+	BYTE sys,			/* System ID (for only MBR, temp setting) */
+	BYTE* buf			/* Working buffer for a sector */
+)
+{
+	UINT i, cy;
+	LBA_t sz_drv;
+	DWORD sz_drv32, nxt_alloc32, sz_part32;
+	BYTE *pte;
+	BYTE hd, n_hd, sc, n_sc;
+
+	/* Get physical drive size */
+	if (disk_ioctl(drv, GET_SECTOR_COUNT, &sz_drv) != RES_OK) return FR_DISK_ERR;
+
+#if FF_LBA64
+	if (sz_drv >= FF_MIN_GPT) {	/* Create partitions in GPT format */
+		WORD ss;
+		UINT sz_ptbl, pi, si, ofs;
+		DWORD bcc, rnd, align;
+		QWORD nxt_alloc, sz_part, sz_pool, top_bpt;
+		static const BYTE gpt_mbr[16] = {0x00, 0x00, 0x02, 0x00, 0xEE, 0xFE, 0xFF, 0x00, 0x01, 0x00, 0x00, 0x00, 0xFF, 0xFF, 0xFF, 0xFF};
+
+#if FF_MAX_SS != FF_MIN_SS
+		if (disk_ioctl(drv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;	/* Get sector size */
+		if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
+#else
+		ss = FF_MAX_SS;
+#endif
+		rnd = (DWORD)sz_drv + GET_FATTIME();	/* Random seed */
+		align = GPT_ALIGN / ss;				/* Partition alignment for GPT [sector] */
+		sz_ptbl = GPT_ITEMS * SZ_GPTE / ss;	/* Size of partition table [sector] */
+		top_bpt = sz_drv - sz_ptbl - 1;		/* Backup partiiton table start sector */
+		nxt_alloc = 2 + sz_ptbl;			/* First allocatable sector */
+		sz_pool = top_bpt - nxt_alloc;		/* Size of allocatable area */
+		bcc = 0xFFFFFFFF; sz_part = 1;
+		pi = si = 0;	/* partition table index, size table index */
+		do {
+			if (pi * SZ_GPTE % ss == 0) memset(buf, 0, ss);	/* Clean the buffer if needed */
+			if (sz_part != 0) {				/* Is the size table not termintated? */
+				nxt_alloc = (nxt_alloc + align - 1) & ((QWORD)0 - align);	/* Align partition start */
+				sz_part = plst[si++];		/* Get a partition size */
+				if (sz_part <= 100) {		/* Is the size in percentage? */
+					sz_part = sz_pool * sz_part / 100;
+					sz_part = (sz_part + align - 1) & ((QWORD)0 - align);	/* Align partition end (only if in percentage) */
+				}
+				if (nxt_alloc + sz_part > top_bpt) {	/* Clip the size at end of the pool */
+					sz_part = (nxt_alloc < top_bpt) ? top_bpt - nxt_alloc : 0;
+				}
+			}
+			if (sz_part != 0) {				/* Add a partition? */
+				ofs = pi * SZ_GPTE % ss;
+				memcpy(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16);	/* Set partition GUID (Microsoft Basic Data) */
+				rnd = make_rand(rnd, buf + ofs + GPTE_UpGuid, 16);	/* Set unique partition GUID */
+				st_qword(buf + ofs + GPTE_FstLba, nxt_alloc);		/* Set partition start sector */
+				st_qword(buf + ofs + GPTE_LstLba, nxt_alloc + sz_part - 1);	/* Set partition end sector */
+				nxt_alloc += sz_part;								/* Next allocatable sector */
+			}
+			if ((pi + 1) * SZ_GPTE % ss == 0) {		/* Write the buffer if it is filled up */
+				for (i = 0; i < ss; bcc = crc32(bcc, buf[i++])) ;	/* Calculate table check sum */
+				if (disk_write(drv, buf, 2 + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;		/* Write to primary table */
+				if (disk_write(drv, buf, top_bpt + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;	/* Write to secondary table */
+			}
+		} while (++pi < GPT_ITEMS);
+
+		/* Create primary GPT header */
+		memset(buf, 0, ss);
+		memcpy(buf + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16);	/* Signature, version (1.0) and size (92) */
+		st_dword(buf + GPTH_PtBcc, ~bcc);			/* Table check sum */
+		st_qword(buf + GPTH_CurLba, 1);				/* LBA of this header */
+		st_qword(buf + GPTH_BakLba, sz_drv - 1);	/* LBA of secondary header */
+		st_qword(buf + GPTH_FstLba, 2 + sz_ptbl);	/* LBA of first allocatable sector */
+		st_qword(buf + GPTH_LstLba, top_bpt - 1);	/* LBA of last allocatable sector */
+		st_dword(buf + GPTH_PteSize, SZ_GPTE);		/* Size of a table entry */
+		st_dword(buf + GPTH_PtNum, GPT_ITEMS);		/* Number of table entries */
+		st_dword(buf + GPTH_PtOfs, 2);				/* LBA of this table */
+		rnd = make_rand(rnd, buf + GPTH_DskGuid, 16);	/* Disk GUID */
+		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
+		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
+		if (disk_write(drv, buf, 1, 1) != RES_OK) return FR_DISK_ERR;
+
+		/* Create secondary GPT header */
+		st_qword(buf + GPTH_CurLba, sz_drv - 1);	/* LBA of this header */
+		st_qword(buf + GPTH_BakLba, 1);				/* LBA of primary header */
+		st_qword(buf + GPTH_PtOfs, top_bpt);		/* LBA of this table */
+		st_dword(buf + GPTH_Bcc, 0);
+		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
+		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
+		if (disk_write(drv, buf, sz_drv - 1, 1) != RES_OK) return FR_DISK_ERR;
+
+		/* Create protective MBR */
+		memset(buf, 0, ss);
+		memcpy(buf + MBR_Table, gpt_mbr, 16);		/* Create a GPT partition */
+		st_word(buf + BS_55AA, 0xAA55);
+		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;
+
+	} else
+#endif
+	{	/* Create partitions in MBR format */
+		sz_drv32 = (DWORD)sz_drv;
+		n_sc = N_SEC_TRACK;				/* Determine drive CHS without any consideration of the drive geometry */
+		for (n_hd = 8; n_hd != 0 && sz_drv32 / n_hd / n_sc > 1024; n_hd *= 2) ;
+		if (n_hd == 0) n_hd = 255;		/* Number of heads needs to be <256 */
+
+		memset(buf, 0, FF_MAX_SS);		/* Clear MBR */
+		pte = buf + MBR_Table;	/* Partition table in the MBR */
+		for (i = 0, nxt_alloc32 = n_sc; i < 4 && nxt_alloc32 != 0 && nxt_alloc32 < sz_drv32; i++, nxt_alloc32 += sz_part32) {
+			sz_part32 = (DWORD)plst[i];	/* Get partition size */
+			if (sz_part32 <= 100) sz_part32 = (sz_part32 == 100) ? sz_drv32 : sz_drv32 / 100 * sz_part32;	/* Size in percentage? */
+			if (nxt_alloc32 + sz_part32 > sz_drv32 || nxt_alloc32 + sz_part32 < nxt_alloc32) sz_part32 = sz_drv32 - nxt_alloc32;	/* Clip at drive size */
+			if (sz_part32 == 0) break;	/* End of table or no sector to allocate? */
+
+			st_dword(pte + PTE_StLba, nxt_alloc32);	/* Start LBA */
+			st_dword(pte + PTE_SizLba, sz_part32);	/* Number of sectors */
+			pte[PTE_System] = sys;					/* System type */
+
+			cy = (UINT)(nxt_alloc32 / n_sc / n_hd);	/* Start cylinder */
+			hd = (BYTE)(nxt_alloc32 / n_sc % n_hd);	/* Start head */
+			sc = (BYTE)(nxt_alloc32 % n_sc + 1);	/* Start sector */
+			pte[PTE_StHead] = hd;
+			pte[PTE_StSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
+			pte[PTE_StCyl] = (BYTE)cy;
+
+			cy = (UINT)((nxt_alloc32 + sz_part32 - 1) / n_sc / n_hd);	/* End cylinder */
+			hd = (BYTE)((nxt_alloc32 + sz_part32 - 1) / n_sc % n_hd);	/* End head */
+			sc = (BYTE)((nxt_alloc32 + sz_part32 - 1) % n_sc + 1);		/* End sector */
+			pte[PTE_EdHead] = hd;
+			pte[PTE_EdSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
+			pte[PTE_EdCyl] = (BYTE)cy;
+
+			pte += SZ_PTE;		/* Next entry */
+		}
+
+		st_word(buf + BS_55AA, 0xAA55);		/* MBR signature */
+		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;	/* Write it to the MBR */
+	}
+
+	return FR_OK;
+}
+
+
+
+FRESULT f_mkfs (
+	const TCHAR* path,		/* Logical drive number */
+	const MKFS_PARM* opt,	/* Format options */
+	void* work,				/* Pointer to working buffer (null: use heap memory) */
+	UINT len				/* Size of working buffer [byte] */
+)
+{
+	static const WORD cst[] = {1, 4, 16, 64, 256, 512, 0};	/* Cluster size boundary for FAT volume (4Ks unit) */
+	static const WORD cst32[] = {1, 2, 4, 8, 16, 32, 0};	/* Cluster size boundary for FAT32 volume (128Ks unit) */
+	static const MKFS_PARM defopt = {FM_ANY, 0, 0, 0, 0};	/* Default parameter */
+	BYTE fsopt, fsty, sys, *buf, *pte, pdrv, ipart;
+	WORD ss;	/* Sector size */
+	DWORD sz_buf, sz_blk, n_clst, pau, nsect, n, vsn;
+	LBA_t sz_vol, b_vol, b_fat, b_data;		/* Size of volume, Base LBA of volume, fat, data */
+	LBA_t sect, lba[2];
+	DWORD sz_rsv, sz_fat, sz_dir, sz_au;	/* Size of reserved, fat, dir, data, cluster */
+	UINT n_fat, n_root, i;					/* Index, Number of FATs and Number of roor dir entries */
+	int vol;
+	DSTATUS ds;
+	FRESULT fr;
+
+
+	/* Check mounted drive and clear work area */
+	vol = get_ldnumber(&path);					/* Get target logical drive */
+	if (vol < 0) return FR_INVALID_DRIVE;
+	if (FatFs[vol]) FatFs[vol]->fs_type = 0;	/* Clear the fs object if mounted */
+	pdrv = LD2PD(vol);			/* Physical drive */
+	ipart = LD2PT(vol);			/* Partition (0:create as new, 1..:get from partition table) */
+	if (!opt) opt = &defopt;	/* Use default parameter if it is not given */
+
+	/* Get physical drive status (sz_drv, sz_blk, ss) */
+	ds = disk_initialize(pdrv);
+	if (ds & STA_NOINIT) return FR_NOT_READY;
+	if (ds & STA_PROTECT) return FR_WRITE_PROTECTED;
+	sz_blk = opt->align;
+	if (sz_blk == 0 && disk_ioctl(pdrv, GET_BLOCK_SIZE, &sz_blk) != RES_OK) sz_blk = 1;
+ 	if (sz_blk == 0 || sz_blk > 0x8000 || (sz_blk & (sz_blk - 1))) sz_blk = 1;
+#if FF_MAX_SS != FF_MIN_SS
+	if (disk_ioctl(pdrv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;
+	if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
+#else
+	ss = FF_MAX_SS;
+#endif
+	/* Options for FAT sub-type and FAT parameters */
+	fsopt = opt->fmt & (FM_ANY | FM_SFD);
+	n_fat = (opt->n_fat >= 1 && opt->n_fat <= 2) ? opt->n_fat : 1;
+	n_root = (opt->n_root >= 1 && opt->n_root <= 32768 && (opt->n_root % (ss / SZDIRE)) == 0) ? opt->n_root : 512;
+	sz_au = (opt->au_size <= 0x1000000 && (opt->au_size & (opt->au_size - 1)) == 0) ? opt->au_size : 0;
+	sz_au /= ss;	/* Byte --> Sector */
+
+	/* Get working buffer */
+	sz_buf = len / ss;		/* Size of working buffer [sector] */
+	if (sz_buf == 0) return FR_NOT_ENOUGH_CORE;
+	buf = (BYTE*)work;		/* Working buffer */
+#if FF_USE_LFN == 3
+	if (!buf) buf = ff_memalloc(sz_buf * ss);	/* Use heap memory for working buffer */
+#endif
+	if (!buf) return FR_NOT_ENOUGH_CORE;
+
+	/* Determine where the volume to be located (b_vol, sz_vol) */
+	b_vol = sz_vol = 0;
+	if (FF_MULTI_PARTITION && ipart != 0) {	/* Is the volume associated with any specific partition? */
+		/* Get partition location from the existing partition table */
+		if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load MBR */
+		if (ld_word(buf + BS_55AA) != 0xAA55) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if MBR is valid */
+#if FF_LBA64
+		if (buf[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
+			DWORD n_ent, ofs;
+			QWORD pt_lba;
+
+			/* Get the partition location from GPT */
+			if (disk_read(pdrv, buf, 1, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load GPT header sector (next to MBR) */
+			if (!test_gpt_header(buf)) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if GPT header is valid */
+			n_ent = ld_dword(buf + GPTH_PtNum);		/* Number of entries */
+			pt_lba = ld_qword(buf + GPTH_PtOfs);	/* Table start sector */
+			ofs = i = 0;
+			while (n_ent) {		/* Find MS Basic partition with order of ipart */
+				if (ofs == 0 && disk_read(pdrv, buf, pt_lba++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Get PT sector */
+				if (!memcmp(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16) && ++i == ipart) {	/* MS basic data partition? */
+					b_vol = ld_qword(buf + ofs + GPTE_FstLba);
+					sz_vol = ld_qword(buf + ofs + GPTE_LstLba) - b_vol + 1;
+					break;
+				}
+				n_ent--; ofs = (ofs + SZ_GPTE) % ss;	/* Next entry */
+			}
+			if (n_ent == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Partition not found */
+			fsopt |= 0x80;	/* Partitioning is in GPT */
+		} else
+#endif
+		{	/* Get the partition location from MBR partition table */
+			pte = buf + (MBR_Table + (ipart - 1) * SZ_PTE);
+			if (ipart > 4 || pte[PTE_System] == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* No partition? */
+			b_vol = ld_dword(pte + PTE_StLba);		/* Get volume start sector */
+			sz_vol = ld_dword(pte + PTE_SizLba);	/* Get volume size */
+		}
+	} else {	/* The volume is associated with a physical drive */
+		if (disk_ioctl(pdrv, GET_SECTOR_COUNT, &sz_vol) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+		if (!(fsopt & FM_SFD)) {	/* To be partitioned? */
+			/* Create a single-partition on the drive in this function */
+#if FF_LBA64
+			if (sz_vol >= FF_MIN_GPT) {	/* Which partition type to create, MBR or GPT? */
+				fsopt |= 0x80;		/* Partitioning is in GPT */
+				b_vol = GPT_ALIGN / ss; sz_vol -= b_vol + GPT_ITEMS * SZ_GPTE / ss + 1;	/* Estimated partition offset and size */
+			} else
+#endif
+			{	/* Partitioning is in MBR */
+				if (sz_vol > N_SEC_TRACK) {
+					b_vol = N_SEC_TRACK; sz_vol -= b_vol;	/* Estimated partition offset and size */
+				}
+			}
+		}
+	}
+	if (sz_vol < 128) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if volume size is >=128s */
+
+	/* Now start to create an FAT volume at b_vol and sz_vol */
+
+	do {	/* Pre-determine the FAT type */
+		if (FF_FS_EXFAT && (fsopt & FM_EXFAT)) {	/* exFAT possible? */
+			if ((fsopt & FM_ANY) == FM_EXFAT || sz_vol >= 0x4000000 || sz_au > 128) {	/* exFAT only, vol >= 64MS or sz_au > 128S ? */
+				fsty = FS_EXFAT; break;
+			}
+		}
+#if FF_LBA64
+		if (sz_vol >= 0x100000000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too large volume for FAT/FAT32 */
+#endif
+		if (sz_au > 128) sz_au = 128;	/* Invalid AU for FAT/FAT32? */
+		if (fsopt & FM_FAT32) {	/* FAT32 possible? */
+			if (!(fsopt & FM_FAT)) {	/* no-FAT? */
+				fsty = FS_FAT32; break;
+			}
+		}
+		if (!(fsopt & FM_FAT)) LEAVE_MKFS(FR_INVALID_PARAMETER);	/* no-FAT? */
+		fsty = FS_FAT16;
+	} while (0);
+
+	vsn = (DWORD)sz_vol + GET_FATTIME();	/* VSN generated from current time and partitiion size */
+
+#if FF_FS_EXFAT
+	if (fsty == FS_EXFAT) {	/* Create an exFAT volume */
+		DWORD szb_bit, szb_case, sum, nbit, clu, clen[3];
+		WCHAR ch, si;
+		UINT j, st;
+
+		if (sz_vol < 0x1000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume for exFAT? */
+#if FF_USE_TRIM
+		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
+		disk_ioctl(pdrv, CTRL_TRIM, lba);
+#endif
+		/* Determine FAT location, data location and number of clusters */
+		if (sz_au == 0) {	/* AU auto-selection */
+			sz_au = 8;
+			if (sz_vol >= 0x80000) sz_au = 64;		/* >= 512Ks */
+			if (sz_vol >= 0x4000000) sz_au = 256;	/* >= 64Ms */
+		}
+		b_fat = b_vol + 32;										/* FAT start at offset 32 */
+		sz_fat = (DWORD)((sz_vol / sz_au + 2) * 4 + ss - 1) / ss;	/* Number of FAT sectors */
+		b_data = (b_fat + sz_fat + sz_blk - 1) & ~((LBA_t)sz_blk - 1);	/* Align data area to the erase block boundary */
+		if (b_data - b_vol >= sz_vol / 2) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
+		n_clst = (DWORD)(sz_vol - (b_data - b_vol)) / sz_au;	/* Number of clusters */
+		if (n_clst <16) LEAVE_MKFS(FR_MKFS_ABORTED);			/* Too few clusters? */
+		if (n_clst > MAX_EXFAT) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters? */
+
+		szb_bit = (n_clst + 7) / 8;								/* Size of allocation bitmap */
+		clen[0] = (szb_bit + sz_au * ss - 1) / (sz_au * ss);	/* Number of allocation bitmap clusters */
+
+		/* Create a compressed up-case table */
+		sect = b_data + sz_au * clen[0];	/* Table start sector */
+		sum = 0;							/* Table checksum to be stored in the 82 entry */
+		st = 0; si = 0; i = 0; j = 0; szb_case = 0;
+		do {
+			switch (st) {
+			case 0:
+				ch = (WCHAR)ff_wtoupper(si);	/* Get an up-case char */
+				if (ch != si) {
+					si++; break;		/* Store the up-case char if exist */
+				}
+				for (j = 1; (WCHAR)(si + j) && (WCHAR)(si + j) == ff_wtoupper((WCHAR)(si + j)); j++) ;	/* Get run length of no-case block */
+				if (j >= 128) {
+					ch = 0xFFFF; st = 2; break;	/* Compress the no-case block if run is >= 128 chars */
+				}
+				st = 1;			/* Do not compress short run */
+				/* FALLTHROUGH */
+			case 1:
+				ch = si++;		/* Fill the short run */
+				if (--j == 0) st = 0;
+				break;
+
+			default:
+				ch = (WCHAR)j; si += (WCHAR)j;	/* Number of chars to skip */
+				st = 0;
+			}
+			sum = xsum32(buf[i + 0] = (BYTE)ch, sum);	/* Put it into the write buffer */
+			sum = xsum32(buf[i + 1] = (BYTE)(ch >> 8), sum);
+			i += 2; szb_case += 2;
+			if (si == 0 || i == sz_buf * ss) {		/* Write buffered data when buffer full or end of process */
+				n = (i + ss - 1) / ss;
+				if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+				sect += n; i = 0;
+			}
+		} while (si);
+		clen[1] = (szb_case + sz_au * ss - 1) / (sz_au * ss);	/* Number of up-case table clusters */
+		clen[2] = 1;	/* Number of root dir clusters */
+
+		/* Initialize the allocation bitmap */
+		sect = b_data; nsect = (szb_bit + ss - 1) / ss;	/* Start of bitmap and number of bitmap sectors */
+		nbit = clen[0] + clen[1] + clen[2];				/* Number of clusters in-use by system (bitmap, up-case and root-dir) */
+		do {
+			memset(buf, 0, sz_buf * ss);				/* Initialize bitmap buffer */
+			for (i = 0; nbit != 0 && i / 8 < sz_buf * ss; buf[i / 8] |= 1 << (i % 8), i++, nbit--) ;	/* Mark used clusters */
+			n = (nsect > sz_buf) ? sz_buf : nsect;		/* Write the buffered data */
+			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			sect += n; nsect -= n;
+		} while (nsect);
+
+		/* Initialize the FAT */
+		sect = b_fat; nsect = sz_fat;	/* Start of FAT and number of FAT sectors */
+		j = nbit = clu = 0;
+		do {
+			memset(buf, 0, sz_buf * ss); i = 0;	/* Clear work area and reset write offset */
+			if (clu == 0) {	/* Initialize FAT [0] and FAT[1] */
+				st_dword(buf + i, 0xFFFFFFF8); i += 4; clu++;
+				st_dword(buf + i, 0xFFFFFFFF); i += 4; clu++;
+			}
+			do {			/* Create chains of bitmap, up-case and root dir */
+				while (nbit != 0 && i < sz_buf * ss) {	/* Create a chain */
+					st_dword(buf + i, (nbit > 1) ? clu + 1 : 0xFFFFFFFF);
+					i += 4; clu++; nbit--;
+				}
+				if (nbit == 0 && j < 3) nbit = clen[j++];	/* Get next chain length */
+			} while (nbit != 0 && i < sz_buf * ss);
+			n = (nsect > sz_buf) ? sz_buf : nsect;	/* Write the buffered data */
+			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			sect += n; nsect -= n;
+		} while (nsect);
+
+		/* Initialize the root directory */
+		memset(buf, 0, sz_buf * ss);
+		buf[SZDIRE * 0 + 0] = ET_VLABEL;				/* Volume label entry (no label) */
+		buf[SZDIRE * 1 + 0] = ET_BITMAP;				/* Bitmap entry */
+		st_dword(buf + SZDIRE * 1 + 20, 2);				/*  cluster */
+		st_dword(buf + SZDIRE * 1 + 24, szb_bit);		/*  size */
+		buf[SZDIRE * 2 + 0] = ET_UPCASE;				/* Up-case table entry */
+		st_dword(buf + SZDIRE * 2 + 4, sum);			/*  sum */
+		st_dword(buf + SZDIRE * 2 + 20, 2 + clen[0]);	/*  cluster */
+		st_dword(buf + SZDIRE * 2 + 24, szb_case);		/*  size */
+		sect = b_data + sz_au * (clen[0] + clen[1]); nsect = sz_au;	/* Start of the root directory and number of sectors */
+		do {	/* Fill root directory sectors */
+			n = (nsect > sz_buf) ? sz_buf : nsect;
+			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			memset(buf, 0, ss);	/* Rest of entries are filled with zero */
+			sect += n; nsect -= n;
+		} while (nsect);
+
+		/* Create two set of the exFAT VBR blocks */
+		sect = b_vol;
+		for (n = 0; n < 2; n++) {
+			/* Main record (+0) */
+			memset(buf, 0, ss);
+			memcpy(buf + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11);	/* Boot jump code (x86), OEM name */
+			st_qword(buf + BPB_VolOfsEx, b_vol);					/* Volume offset in the physical drive [sector] */
+			st_qword(buf + BPB_TotSecEx, sz_vol);					/* Volume size [sector] */
+			st_dword(buf + BPB_FatOfsEx, (DWORD)(b_fat - b_vol));	/* FAT offset [sector] */
+			st_dword(buf + BPB_FatSzEx, sz_fat);					/* FAT size [sector] */
+			st_dword(buf + BPB_DataOfsEx, (DWORD)(b_data - b_vol));	/* Data offset [sector] */
+			st_dword(buf + BPB_NumClusEx, n_clst);					/* Number of clusters */
+			st_dword(buf + BPB_RootClusEx, 2 + clen[0] + clen[1]);	/* Root dir cluster # */
+			st_dword(buf + BPB_VolIDEx, vsn);						/* VSN */
+			st_word(buf + BPB_FSVerEx, 0x100);						/* Filesystem version (1.00) */
+			for (buf[BPB_BytsPerSecEx] = 0, i = ss; i >>= 1; buf[BPB_BytsPerSecEx]++) ;	/* Log2 of sector size [byte] */
+			for (buf[BPB_SecPerClusEx] = 0, i = sz_au; i >>= 1; buf[BPB_SecPerClusEx]++) ;	/* Log2 of cluster size [sector] */
+			buf[BPB_NumFATsEx] = 1;					/* Number of FATs */
+			buf[BPB_DrvNumEx] = 0x80;				/* Drive number (for int13) */
+			st_word(buf + BS_BootCodeEx, 0xFEEB);	/* Boot code (x86) */
+			st_word(buf + BS_55AA, 0xAA55);			/* Signature (placed here regardless of sector size) */
+			for (i = sum = 0; i < ss; i++) {		/* VBR checksum */
+				if (i != BPB_VolFlagEx && i != BPB_VolFlagEx + 1 && i != BPB_PercInUseEx) sum = xsum32(buf[i], sum);
+			}
+			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			/* Extended bootstrap record (+1..+8) */
+			memset(buf, 0, ss);
+			st_word(buf + ss - 2, 0xAA55);	/* Signature (placed at end of sector) */
+			for (j = 1; j < 9; j++) {
+				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
+				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			}
+			/* OEM/Reserved record (+9..+10) */
+			memset(buf, 0, ss);
+			for ( ; j < 11; j++) {
+				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
+				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			}
+			/* Sum record (+11) */
+			for (i = 0; i < ss; i += 4) st_dword(buf + i, sum);		/* Fill with checksum value */
+			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+		}
+
+	} else
+#endif	/* FF_FS_EXFAT */
+	{	/* Create an FAT/FAT32 volume */
+		do {
+			pau = sz_au;
+			/* Pre-determine number of clusters and FAT sub-type */
+			if (fsty == FS_FAT32) {	/* FAT32 volume */
+				if (pau == 0) {	/* AU auto-selection */
+					n = (DWORD)sz_vol / 0x20000;	/* Volume size in unit of 128KS */
+					for (i = 0, pau = 1; cst32[i] && cst32[i] <= n; i++, pau <<= 1) ;	/* Get from table */
+				}
+				n_clst = (DWORD)sz_vol / pau;	/* Number of clusters */
+				sz_fat = (n_clst * 4 + 8 + ss - 1) / ss;	/* FAT size [sector] */
+				sz_rsv = 32;	/* Number of reserved sectors */
+				sz_dir = 0;		/* No static directory */
+				if (n_clst <= MAX_FAT16 || n_clst > MAX_FAT32) LEAVE_MKFS(FR_MKFS_ABORTED);
+			} else {				/* FAT volume */
+				if (pau == 0) {	/* au auto-selection */
+					n = (DWORD)sz_vol / 0x1000;	/* Volume size in unit of 4KS */
+					for (i = 0, pau = 1; cst[i] && cst[i] <= n; i++, pau <<= 1) ;	/* Get from table */
+				}
+				n_clst = (DWORD)sz_vol / pau;
+				if (n_clst > MAX_FAT12) {
+					n = n_clst * 2 + 4;		/* FAT size [byte] */
+				} else {
+					fsty = FS_FAT12;
+					n = (n_clst * 3 + 1) / 2 + 3;	/* FAT size [byte] */
+				}
+				sz_fat = (n + ss - 1) / ss;		/* FAT size [sector] */
+				sz_rsv = 1;						/* Number of reserved sectors */
+				sz_dir = (DWORD)n_root * SZDIRE / ss;	/* Root dir size [sector] */
+			}
+			b_fat = b_vol + sz_rsv;						/* FAT base */
+			b_data = b_fat + sz_fat * n_fat + sz_dir;	/* Data base */
+
+			/* Align data area to erase block boundary (for flash memory media) */
+			n = (DWORD)(((b_data + sz_blk - 1) & ~(sz_blk - 1)) - b_data);	/* Sectors to next nearest from current data base */
+			if (fsty == FS_FAT32) {		/* FAT32: Move FAT */
+				sz_rsv += n; b_fat += n;
+			} else {					/* FAT: Expand FAT */
+				if (n % n_fat) {	/* Adjust fractional error if needed */
+					n--; sz_rsv++; b_fat++;
+				}
+				sz_fat += n / n_fat;
+			}
+
+			/* Determine number of clusters and final check of validity of the FAT sub-type */
+			if (sz_vol < b_data + pau * 16 - b_vol) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
+			n_clst = ((DWORD)sz_vol - sz_rsv - sz_fat * n_fat - sz_dir) / pau;
+			if (fsty == FS_FAT32) {
+				if (n_clst <= MAX_FAT16) {	/* Too few clusters for FAT32? */
+					if (sz_au == 0 && (sz_au = pau / 2) != 0) continue;	/* Adjust cluster size and retry */
+					LEAVE_MKFS(FR_MKFS_ABORTED);
+				}
+			}
+			if (fsty == FS_FAT16) {
+				if (n_clst > MAX_FAT16) {	/* Too many clusters for FAT16 */
+					if (sz_au == 0 && (pau * 2) <= 64) {
+						sz_au = pau * 2; continue;	/* Adjust cluster size and retry */
+					}
+					if ((fsopt & FM_FAT32)) {
+						fsty = FS_FAT32; continue;	/* Switch type to FAT32 and retry */
+					}
+					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
+					LEAVE_MKFS(FR_MKFS_ABORTED);
+				}
+				if  (n_clst <= MAX_FAT12) {	/* Too few clusters for FAT16 */
+					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
+					LEAVE_MKFS(FR_MKFS_ABORTED);
+				}
+			}
+			if (fsty == FS_FAT12 && n_clst > MAX_FAT12) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters for FAT12 */
+
+			/* Ok, it is the valid cluster configuration */
+			break;
+		} while (1);
+
+#if FF_USE_TRIM
+		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
+		disk_ioctl(pdrv, CTRL_TRIM, lba);
+#endif
+		/* Create FAT VBR */
+		memset(buf, 0, ss);
+		memcpy(buf + BS_JmpBoot, "\xEB\xFE\x90" "MSDOS5.0", 11);	/* Boot jump code (x86), OEM name */
+		st_word(buf + BPB_BytsPerSec, ss);				/* Sector size [byte] */
+		buf[BPB_SecPerClus] = (BYTE)pau;				/* Cluster size [sector] */
+		st_word(buf + BPB_RsvdSecCnt, (WORD)sz_rsv);	/* Size of reserved area */
+		buf[BPB_NumFATs] = (BYTE)n_fat;					/* Number of FATs */
+		st_word(buf + BPB_RootEntCnt, (WORD)((fsty == FS_FAT32) ? 0 : n_root));	/* Number of root directory entries */
+		if (sz_vol < 0x10000) {
+			st_word(buf + BPB_TotSec16, (WORD)sz_vol);	/* Volume size in 16-bit LBA */
+		} else {
+			st_dword(buf + BPB_TotSec32, (DWORD)sz_vol);	/* Volume size in 32-bit LBA */
+		}
+		buf[BPB_Media] = 0xF8;							/* Media descriptor byte */
+		st_word(buf + BPB_SecPerTrk, 63);				/* Number of sectors per track (for int13) */
+		st_word(buf + BPB_NumHeads, 255);				/* Number of heads (for int13) */
+		st_dword(buf + BPB_HiddSec, (DWORD)b_vol);		/* Volume offset in the physical drive [sector] */
+		if (fsty == FS_FAT32) {
+			st_dword(buf + BS_VolID32, vsn);			/* VSN */
+			st_dword(buf + BPB_FATSz32, sz_fat);		/* FAT size [sector] */
+			st_dword(buf + BPB_RootClus32, 2);			/* Root directory cluster # (2) */
+			st_word(buf + BPB_FSInfo32, 1);				/* Offset of FSINFO sector (VBR + 1) */
+			st_word(buf + BPB_BkBootSec32, 6);			/* Offset of backup VBR (VBR + 6) */
+			buf[BS_DrvNum32] = 0x80;					/* Drive number (for int13) */
+			buf[BS_BootSig32] = 0x29;					/* Extended boot signature */
+			memcpy(buf + BS_VolLab32, "NO NAME    " "FAT32   ", 19);	/* Volume label, FAT signature */
+		} else {
+			st_dword(buf + BS_VolID, vsn);				/* VSN */
+			st_word(buf + BPB_FATSz16, (WORD)sz_fat);	/* FAT size [sector] */
+			buf[BS_DrvNum] = 0x80;						/* Drive number (for int13) */
+			buf[BS_BootSig] = 0x29;						/* Extended boot signature */
+			memcpy(buf + BS_VolLab, "NO NAME    " "FAT     ", 19);	/* Volume label, FAT signature */
+		}
+		st_word(buf + BS_55AA, 0xAA55);					/* Signature (offset is fixed here regardless of sector size) */
+		if (disk_write(pdrv, buf, b_vol, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it to the VBR sector */
+
+		/* Create FSINFO record if needed */
+		if (fsty == FS_FAT32) {
+			disk_write(pdrv, buf, b_vol + 6, 1);		/* Write backup VBR (VBR + 6) */
+			memset(buf, 0, ss);
+			st_dword(buf + FSI_LeadSig, 0x41615252);
+			st_dword(buf + FSI_StrucSig, 0x61417272);
+			st_dword(buf + FSI_Free_Count, n_clst - 1);	/* Number of free clusters */
+			st_dword(buf + FSI_Nxt_Free, 2);			/* Last allocated cluster# */
+			st_word(buf + BS_55AA, 0xAA55);
+			disk_write(pdrv, buf, b_vol + 7, 1);		/* Write backup FSINFO (VBR + 7) */
+			disk_write(pdrv, buf, b_vol + 1, 1);		/* Write original FSINFO (VBR + 1) */
+		}
+
+		/* Initialize FAT area */
+		memset(buf, 0, sz_buf * ss);
+		sect = b_fat;		/* FAT start sector */
+		for (i = 0; i < n_fat; i++) {			/* Initialize FATs each */
+			if (fsty == FS_FAT32) {
+				st_dword(buf + 0, 0xFFFFFFF8);	/* FAT[0] */
+				st_dword(buf + 4, 0xFFFFFFFF);	/* FAT[1] */
+				st_dword(buf + 8, 0x0FFFFFFF);	/* FAT[2] (root directory) */
+			} else {
+				st_dword(buf + 0, (fsty == FS_FAT12) ? 0xFFFFF8 : 0xFFFFFFF8);	/* FAT[0] and FAT[1] */
+			}
+			nsect = sz_fat;		/* Number of FAT sectors */
+			do {	/* Fill FAT sectors */
+				n = (nsect > sz_buf) ? sz_buf : nsect;
+				if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+				memset(buf, 0, ss);	/* Rest of FAT all are cleared */
+				sect += n; nsect -= n;
+			} while (nsect);
+		}
+
+		/* Initialize root directory (fill with zero) */
+		nsect = (fsty == FS_FAT32) ? pau : sz_dir;	/* Number of root directory sectors */
+		do {
+			n = (nsect > sz_buf) ? sz_buf : nsect;
+			if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			sect += n; nsect -= n;
+		} while (nsect);
+	}
+
+	/* A FAT volume has been created here */
+
+	/* Determine system ID in the MBR partition table */
+	if (FF_FS_EXFAT && fsty == FS_EXFAT) {
+		sys = 0x07;			/* exFAT */
+	} else {
+		if (fsty == FS_FAT32) {
+			sys = 0x0C;		/* FAT32X */
+		} else {
+			if (sz_vol >= 0x10000) {
+				sys = 0x06;	/* FAT12/16 (large) */
+			} else {
+				sys = (fsty == FS_FAT16) ? 0x04 : 0x01;	/* FAT16 : FAT12 */
+			}
+		}
+	}
+
+	/* Update partition information */
+	if (FF_MULTI_PARTITION && ipart != 0) {	/* Volume is in the existing partition */
+		if (!FF_LBA64 || !(fsopt & 0x80)) {
+			/* Update system ID in the partition table */
+			if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Read the MBR */
+			buf[MBR_Table + (ipart - 1) * SZ_PTE + PTE_System] = sys;			/* Set system ID */
+			if (disk_write(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it back to the MBR */
+		}
+	} else {								/* Volume as a new single partition */
+		if (!(fsopt & FM_SFD)) {			/* Create partition table if not in SFD */
+			lba[0] = sz_vol; lba[1] = 0;
+			fr = create_partition(pdrv, lba, sys, buf);
+			if (fr != FR_OK) LEAVE_MKFS(fr);
+		}
+	}
+
+	if (disk_ioctl(pdrv, CTRL_SYNC, 0) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+
+	LEAVE_MKFS(FR_OK);
+}
+
+
+
+
+#if FF_MULTI_PARTITION
+/*-----------------------------------------------------------------------*/
+/* Create Partition Table on the Physical Drive                          */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_fdisk (
+	BYTE pdrv,			/* Physical drive number */
+	const LBA_t ptbl[],	/* Pointer to the size table for each partitions */
+	void* work			/* Pointer to the working buffer (null: use heap memory) */
+)
+{
+	BYTE *buf = (BYTE*)work;
+	DSTATUS stat;
+
+
+	stat = disk_initialize(pdrv);
+	if (stat & STA_NOINIT) return FR_NOT_READY;
+	if (stat & STA_PROTECT) return FR_WRITE_PROTECTED;
+#if FF_USE_LFN == 3
+	if (!buf) buf = ff_memalloc(FF_MAX_SS);	/* Use heap memory for working buffer */
+#endif
+	if (!buf) return FR_NOT_ENOUGH_CORE;
+
+	LEAVE_MKFS(create_partition(pdrv, ptbl, 0x07, buf));
+}
+
+#endif /* FF_MULTI_PARTITION */
+#endif /* !FF_FS_READONLY && FF_USE_MKFS */
+
+
+
+
+#if FF_USE_STRFUNC
+#if FF_USE_LFN && FF_LFN_UNICODE && (FF_STRF_ENCODE < 0 || FF_STRF_ENCODE > 3)
+#error Wrong FF_STRF_ENCODE setting
+#endif
+/*-----------------------------------------------------------------------*/
+/* Get a String from the File                                            */
+/*-----------------------------------------------------------------------*/
+
+TCHAR* f_gets (
+	TCHAR* buff,	/* Pointer to the buffer to store read string */
+	int len,		/* Size of string buffer (items) */
+	FIL* fp			/* Pointer to the file object */
+)
+{
+	int nc = 0;
+	TCHAR *p = buff;
+	BYTE s[4];
+	UINT rc;
+	DWORD dc;
+#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE <= 2
+	WCHAR wc;
+#endif
+#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE == 3
+	UINT ct;
+#endif
+
+#if FF_USE_LFN && FF_LFN_UNICODE			/* With code conversion (Unicode API) */
+	/* Make a room for the character and terminator  */
+	if (FF_LFN_UNICODE == 1) len -= (FF_STRF_ENCODE == 0) ? 1 : 2;
+	if (FF_LFN_UNICODE == 2) len -= (FF_STRF_ENCODE == 0) ? 3 : 4;
+	if (FF_LFN_UNICODE == 3) len -= 1;
+	while (nc < len) {
+#if FF_STRF_ENCODE == 0				/* Read a character in ANSI/OEM */
+		f_read(fp, s, 1, &rc);		/* Get a code unit */
+		if (rc != 1) break;			/* EOF? */
+		wc = s[0];
+		if (dbc_1st((BYTE)wc)) {	/* DBC 1st byte? */
+			f_read(fp, s, 1, &rc);	/* Get 2nd byte */
+			if (rc != 1 || !dbc_2nd(s[0])) continue;	/* Wrong code? */
+			wc = wc << 8 | s[0];
+		}
+		dc = ff_oem2uni(wc, CODEPAGE);	/* Convert ANSI/OEM into Unicode */
+		if (dc == 0) continue;		/* Conversion error? */
+#elif FF_STRF_ENCODE == 1 || FF_STRF_ENCODE == 2 	/* Read a character in UTF-16LE/BE */
+		f_read(fp, s, 2, &rc);		/* Get a code unit */
+		if (rc != 2) break;			/* EOF? */
+		dc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
+		if (IsSurrogateL(dc)) continue;	/* Broken surrogate pair? */
+		if (IsSurrogateH(dc)) {		/* High surrogate? */
+			f_read(fp, s, 2, &rc);	/* Get low surrogate */
+			if (rc != 2) break;		/* EOF? */
+			wc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
+			if (!IsSurrogateL(wc)) continue;	/* Broken surrogate pair? */
+			dc = ((dc & 0x3FF) + 0x40) << 10 | (wc & 0x3FF);	/* Merge surrogate pair */
+		}
+#else	/* Read a character in UTF-8 */
+		f_read(fp, s, 1, &rc);		/* Get a code unit */
+		if (rc != 1) break;			/* EOF? */
+		dc = s[0];
+		if (dc >= 0x80) {			/* Multi-byte sequence? */
+			ct = 0;
+			if ((dc & 0xE0) == 0xC0) { dc &= 0x1F; ct = 1; }	/* 2-byte sequence? */
+			if ((dc & 0xF0) == 0xE0) { dc &= 0x0F; ct = 2; }	/* 3-byte sequence? */
+			if ((dc & 0xF8) == 0xF0) { dc &= 0x07; ct = 3; }	/* 4-byte sequence? */
+			if (ct == 0) continue;
+			f_read(fp, s, ct, &rc);	/* Get trailing bytes */
+			if (rc != ct) break;
+			rc = 0;
+			do {	/* Merge the byte sequence */
+				if ((s[rc] & 0xC0) != 0x80) break;
+				dc = dc << 6 | (s[rc] & 0x3F);
+			} while (++rc < ct);
+			if (rc != ct || dc < 0x80 || IsSurrogate(dc) || dc >= 0x110000) continue;	/* Wrong encoding? */
+		}
+#endif
+		/* A code point is avaialble in dc to be output */
+
+		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;	/* Strip \r off if needed */
+#if FF_LFN_UNICODE == 1	|| FF_LFN_UNICODE == 3	/* Output it in UTF-16/32 encoding */
+		if (FF_LFN_UNICODE == 1 && dc >= 0x10000) {	/* Out of BMP at UTF-16? */
+			*p++ = (TCHAR)(0xD800 | ((dc >> 10) - 0x40)); nc++;	/* Make and output high surrogate */
+			dc = 0xDC00 | (dc & 0x3FF);		/* Make low surrogate */
+		}
+		*p++ = (TCHAR)dc; nc++;
+		if (dc == '\n') break;	/* End of line? */
+#elif FF_LFN_UNICODE == 2		/* Output it in UTF-8 encoding */
+		if (dc < 0x80) {	/* Single byte? */
+			*p++ = (TCHAR)dc;
+			nc++;
+			if (dc == '\n') break;	/* End of line? */
+		} else {
+			if (dc < 0x800) {		/* 2-byte sequence? */
+				*p++ = (TCHAR)(0xC0 | (dc >> 6 & 0x1F));
+				*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
+				nc += 2;
+			} else {
+				if (dc < 0x10000) {	/* 3-byte sequence? */
+					*p++ = (TCHAR)(0xE0 | (dc >> 12 & 0x0F));
+					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
+					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
+					nc += 3;
+				} else {			/* 4-byte sequence? */
+					*p++ = (TCHAR)(0xF0 | (dc >> 18 & 0x07));
+					*p++ = (TCHAR)(0x80 | (dc >> 12 & 0x3F));
+					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
+					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
+					nc += 4;
+				}
+			}
+		}
+#endif
+	}
+
+#else			/* Byte-by-byte read without any conversion (ANSI/OEM API) */
+	len -= 1;	/* Make a room for the terminator */
+	while (nc < len) {
+		f_read(fp, s, 1, &rc);	/* Get a byte */
+		if (rc != 1) break;		/* EOF? */
+		dc = s[0];
+		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;
+		*p++ = (TCHAR)dc; nc++;
+		if (dc == '\n') break;
+	}
+#endif
+
+	*p = 0;		/* Terminate the string */
+	return nc ? buff : 0;	/* When no data read due to EOF or error, return with error. */
+}
+
+
+
+
+#if !FF_FS_READONLY
+#include <stdarg.h>
+#define SZ_PUTC_BUF	64
+#define SZ_NUM_BUF	32
+
+/*-----------------------------------------------------------------------*/
+/* Put a Character to the File (with sub-functions)                      */
+/*-----------------------------------------------------------------------*/
+
+/* Output buffer and work area */
+
+typedef struct {
+	FIL *fp;		/* Ptr to the writing file */
+	int idx, nchr;	/* Write index of buf[] (-1:error), number of encoding units written */
+#if FF_USE_LFN && FF_LFN_UNICODE == 1
+	WCHAR hs;
+#elif FF_USE_LFN && FF_LFN_UNICODE == 2
+	BYTE bs[4];
+	UINT wi, ct;
+#endif
+	BYTE buf[SZ_PUTC_BUF];	/* Write buffer */
+} putbuff;
+
+
+/* Buffered file write with code conversion */
+
+static void putc_bfd (putbuff* pb, TCHAR c)
+{
+	UINT n;
+	int i, nc;
+#if FF_USE_LFN && FF_LFN_UNICODE
+	WCHAR hs, wc;
+#if FF_LFN_UNICODE == 2
+	DWORD dc;
+	const TCHAR *tp;
+#endif
+#endif
+
+	if (FF_USE_STRFUNC == 2 && c == '\n') {	 /* LF -> CRLF conversion */
+		putc_bfd(pb, '\r');
+	}
+
+	i = pb->idx;			/* Write index of pb->buf[] */
+	if (i < 0) return;		/* In write error? */
+	nc = pb->nchr;			/* Write unit counter */
+
+#if FF_USE_LFN && FF_LFN_UNICODE
+#if FF_LFN_UNICODE == 1		/* UTF-16 input */
+	if (IsSurrogateH(c)) {	/* High surrogate? */
+		pb->hs = c; return;	/* Save it for next */
+	}
+	hs = pb->hs; pb->hs = 0;
+	if (hs != 0) {			/* There is a leading high surrogate */
+		if (!IsSurrogateL(c)) hs = 0;	/* Discard high surrogate if not a surrogate pair */
+	} else {
+		if (IsSurrogateL(c)) return;	/* Discard stray low surrogate */
+	}
+	wc = c;
+#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
+	for (;;) {
+		if (pb->ct == 0) {	/* Out of multi-byte sequence? */
+			pb->bs[pb->wi = 0] = (BYTE)c;	/* Save 1st byte */
+			if ((BYTE)c < 0x80) break;					/* Single byte? */
+			if (((BYTE)c & 0xE0) == 0xC0) pb->ct = 1;	/* 2-byte sequence? */
+			if (((BYTE)c & 0xF0) == 0xE0) pb->ct = 2;	/* 3-byte sequence? */
+			if (((BYTE)c & 0xF1) == 0xF0) pb->ct = 3;	/* 4-byte sequence? */
+			return;
+		} else {				/* In the multi-byte sequence */
+			if (((BYTE)c & 0xC0) != 0x80) {	/* Broken sequence? */
+				pb->ct = 0; continue;
+			}
+			pb->bs[++pb->wi] = (BYTE)c;	/* Save the trailing byte */
+			if (--pb->ct == 0) break;	/* End of multi-byte sequence? */
+			return;
+		}
+	}
+	tp = (const TCHAR*)pb->bs;
+	dc = tchar2uni(&tp);	/* UTF-8 ==> UTF-16 */
+	if (dc == 0xFFFFFFFF) return;	/* Wrong code? */
+	wc = (WCHAR)dc;
+	hs = (WCHAR)(dc >> 16);
+#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
+	if (IsSurrogate(c) || c >= 0x110000) return;	/* Discard invalid code */
+	if (c >= 0x10000) {		/* Out of BMP? */
+		hs = (WCHAR)(0xD800 | ((c >> 10) - 0x40)); 	/* Make high surrogate */
+		wc = 0xDC00 | (c & 0x3FF);					/* Make low surrogate */
+	} else {
+		hs = 0;
+		wc = (WCHAR)c;
+	}
+#endif
+	/* A code point in UTF-16 is available in hs and wc */
+
+#if FF_STRF_ENCODE == 1		/* Write a code point in UTF-16LE */
+	if (hs != 0) {	/* Surrogate pair? */
+		st_word(&pb->buf[i], hs);
+		i += 2;
+		nc++;
+	}
+	st_word(&pb->buf[i], wc);
+	i += 2;
+#elif FF_STRF_ENCODE == 2	/* Write a code point in UTF-16BE */
+	if (hs != 0) {	/* Surrogate pair? */
+		pb->buf[i++] = (BYTE)(hs >> 8);
+		pb->buf[i++] = (BYTE)hs;
+		nc++;
+	}
+	pb->buf[i++] = (BYTE)(wc >> 8);
+	pb->buf[i++] = (BYTE)wc;
+#elif FF_STRF_ENCODE == 3	/* Write a code point in UTF-8 */
+	if (hs != 0) {	/* 4-byte sequence? */
+		nc += 3;
+		hs = (hs & 0x3FF) + 0x40;
+		pb->buf[i++] = (BYTE)(0xF0 | hs >> 8);
+		pb->buf[i++] = (BYTE)(0x80 | (hs >> 2 & 0x3F));
+		pb->buf[i++] = (BYTE)(0x80 | (hs & 3) << 4 | (wc >> 6 & 0x0F));
+		pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
+	} else {
+		if (wc < 0x80) {	/* Single byte? */
+			pb->buf[i++] = (BYTE)wc;
+		} else {
+			if (wc < 0x800) {	/* 2-byte sequence? */
+				nc += 1;
+				pb->buf[i++] = (BYTE)(0xC0 | wc >> 6);
+			} else {			/* 3-byte sequence */
+				nc += 2;
+				pb->buf[i++] = (BYTE)(0xE0 | wc >> 12);
+				pb->buf[i++] = (BYTE)(0x80 | (wc >> 6 & 0x3F));
+			}
+			pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
+		}
+	}
+#else						/* Write a code point in ANSI/OEM */
+	if (hs != 0) return;
+	wc = ff_uni2oem(wc, CODEPAGE);	/* UTF-16 ==> ANSI/OEM */
+	if (wc == 0) return;
+	if (wc >= 0x100) {
+		pb->buf[i++] = (BYTE)(wc >> 8); nc++;
+	}
+	pb->buf[i++] = (BYTE)wc;
+#endif
+
+#else							/* ANSI/OEM input (without re-encoding) */
+	pb->buf[i++] = (BYTE)c;
+#endif
+
+	if (i >= (int)(sizeof pb->buf) - 4) {	/* Write buffered characters to the file */
+		f_write(pb->fp, pb->buf, (UINT)i, &n);
+		i = (n == (UINT)i) ? 0 : -1;
+	}
+	pb->idx = i;
+	pb->nchr = nc + 1;
+}
+
+
+/* Flush remaining characters in the buffer */
+
+static int putc_flush (putbuff* pb)
+{
+	UINT nw;
+
+	if (   pb->idx >= 0	/* Flush buffered characters to the file */
+		&& f_write(pb->fp, pb->buf, (UINT)pb->idx, &nw) == FR_OK
+		&& (UINT)pb->idx == nw) return pb->nchr;
+	return -1;
+}
+
+
+/* Initialize write buffer */
+
+static void putc_init (putbuff* pb, FIL* fp)
+{
+	memset(pb, 0, sizeof (putbuff));
+	pb->fp = fp;
+}
+
+
+
+int f_putc (
+	TCHAR c,	/* A character to be output */
+	FIL* fp		/* Pointer to the file object */
+)
+{
+	putbuff pb;
+
+
+	putc_init(&pb, fp);
+	putc_bfd(&pb, c);	/* Put the character */
+	return putc_flush(&pb);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Put a String to the File                                              */
+/*-----------------------------------------------------------------------*/
+
+int f_puts (
+	const TCHAR* str,	/* Pointer to the string to be output */
+	FIL* fp				/* Pointer to the file object */
+)
+{
+	putbuff pb;
+
+
+	putc_init(&pb, fp);
+	while (*str) putc_bfd(&pb, *str++);		/* Put the string */
+	return putc_flush(&pb);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Put a Formatted String to the File (with sub-functions)               */
+/*-----------------------------------------------------------------------*/
+#if FF_PRINT_FLOAT && FF_INTDEF == 2
+#include <math.h>
+
+static int ilog10 (double n)	/* Calculate log10(n) in integer output */
+{
+	int rv = 0;
+
+	while (n >= 10) {	/* Decimate digit in right shift */
+		if (n >= 100000) {
+			n /= 100000; rv += 5;
+		} else {
+			n /= 10; rv++;
+		}
+	}
+	while (n < 1) {		/* Decimate digit in left shift */
+		if (n < 0.00001) {
+			n *= 100000; rv -= 5;
+		} else {
+			n *= 10; rv--;
+		}
+	}
+	return rv;
+}
+
+
+static double i10x (int n)	/* Calculate 10^n in integer input */
+{
+	double rv = 1;
+
+	while (n > 0) {		/* Left shift */
+		if (n >= 5) {
+			rv *= 100000; n -= 5;
+		} else {
+			rv *= 10; n--;
+		}
+	}
+	while (n < 0) {		/* Right shift */
+		if (n <= -5) {
+			rv /= 100000; n += 5;
+		} else {
+			rv /= 10; n++;
+		}
+	}
+	return rv;
+}
+
+
+static void ftoa (
+	char* buf,	/* Buffer to output the floating point string */
+	double val,	/* Value to output */
+	int prec,	/* Number of fractional digits */
+	TCHAR fmt	/* Notation */
+)
+{
+	int d;
+	int e = 0, m = 0;
+	char sign = 0;
+	double w;
+	const char *er = 0;
+	const char ds = FF_PRINT_FLOAT == 2 ? ',' : '.';
+
+
+	if (isnan(val)) {			/* Not a number? */
+		er = "NaN";
+	} else {
+		if (prec < 0) prec = 6;	/* Default precision? (6 fractional digits) */
+		if (val < 0) {			/* Nagative? */
+			val = 0 - val; sign = '-';
+		} else {
+			sign = '+';
+		}
+		if (isinf(val)) {		/* Infinite? */
+			er = "INF";
+		} else {
+			if (fmt == 'f') {	/* Decimal notation? */
+				val += i10x(0 - prec) / 2;	/* Round (nearest) */
+				m = ilog10(val);
+				if (m < 0) m = 0;
+				if (m + prec + 3 >= SZ_NUM_BUF) er = "OV";	/* Buffer overflow? */
+			} else {			/* E notation */
+				if (val != 0) {		/* Not a true zero? */
+					val += i10x(ilog10(val) - prec) / 2;	/* Round (nearest) */
+					e = ilog10(val);
+					if (e > 99 || prec + 7 >= SZ_NUM_BUF) {	/* Buffer overflow or E > +99? */
+						er = "OV";
+					} else {
+						if (e < -99) e = -99;
+						val /= i10x(e);	/* Normalize */
+					}
+				}
+			}
+		}
+		if (!er) {	/* Not error condition */
+			if (sign == '-') *buf++ = sign;	/* Add a - if negative value */
+			do {				/* Put decimal number */
+				if (m == -1) *buf++ = ds;	/* Insert a decimal separator when get into fractional part */
+				w = i10x(m);				/* Snip the highest digit d */
+				d = (int)(val / w); val -= d * w;
+				*buf++ = (char)('0' + d);	/* Put the digit */
+			} while (--m >= -prec);			/* Output all digits specified by prec */
+			if (fmt != 'f') {	/* Put exponent if needed */
+				*buf++ = (char)fmt;
+				if (e < 0) {
+					e = 0 - e; *buf++ = '-';
+				} else {
+					*buf++ = '+';
+				}
+				*buf++ = (char)('0' + e / 10);
+				*buf++ = (char)('0' + e % 10);
+			}
+		}
+	}
+	if (er) {	/* Error condition */
+		if (sign) *buf++ = sign;		/* Add sign if needed */
+		do *buf++ = *er++; while (*er);	/* Put error symbol */
+	}
+	*buf = 0;	/* Term */
+}
+#endif	/* FF_PRINT_FLOAT && FF_INTDEF == 2 */
+
+
+
+int f_printf (
+	FIL* fp,			/* Pointer to the file object */
+	const TCHAR* fmt,	/* Pointer to the format string */
+	...					/* Optional arguments... */
+)
+{
+	va_list arp;
+	putbuff pb;
+	UINT i, j, w, f, r;
+	int prec;
+#if FF_PRINT_LLI && FF_INTDEF == 2
+	QWORD v;
+#else
+	DWORD v;
+#endif
+	TCHAR tc, pad, *tp;
+	TCHAR nul = 0;
+	char d, str[SZ_NUM_BUF];
+
+
+	putc_init(&pb, fp);
+
+	va_start(arp, fmt);
+
+	for (;;) {
+		tc = *fmt++;
+		if (tc == 0) break;			/* End of format string */
+		if (tc != '%') {			/* Not an escape character (pass-through) */
+			putc_bfd(&pb, tc);
+			continue;
+		}
+		f = w = 0; pad = ' '; prec = -1;	/* Initialize parms */
+		tc = *fmt++;
+		if (tc == '0') {			/* Flag: '0' padded */
+			pad = '0'; tc = *fmt++;
+		} else if (tc == '-') {		/* Flag: Left aligned */
+			f = 2; tc = *fmt++;
+		}
+		if (tc == '*') {			/* Minimum width from an argument */
+			w = va_arg(arp, int);
+			tc = *fmt++;
+		} else {
+			while (IsDigit(tc)) {	/* Minimum width */
+				w = w * 10 + tc - '0';
+				tc = *fmt++;
+			}
+		}
+		if (tc == '.') {			/* Precision */
+			tc = *fmt++;
+			if (tc == '*') {		/* Precision from an argument */
+				prec = va_arg(arp, int);
+				tc = *fmt++;
+			} else {
+				prec = 0;
+				while (IsDigit(tc)) {	/* Precision */
+					prec = prec * 10 + tc - '0';
+					tc = *fmt++;
+				}
+			}
+		}
+		if (tc == 'l') {			/* Size: long int */
+			f |= 4; tc = *fmt++;
+#if FF_PRINT_LLI && FF_INTDEF == 2
+			if (tc == 'l') {		/* Size: long long int */
+				f |= 8; tc = *fmt++;
+			}
+#endif
+		}
+		if (tc == 0) break;			/* End of format string */
+		switch (tc) {				/* Atgument type is... */
+		case 'b':					/* Unsigned binary */
+			r = 2; break;
+		case 'o':					/* Unsigned octal */
+			r = 8; break;
+		case 'd':					/* Signed decimal */
+		case 'u':					/* Unsigned decimal */
+			r = 10; break;
+		case 'x':					/* Unsigned hexdecimal (lower case) */
+		case 'X':					/* Unsigned hexdecimal (upper case) */
+			r = 16; break;
+		case 'c':					/* Character */
+			putc_bfd(&pb, (TCHAR)va_arg(arp, int));
+			continue;
+		case 's':					/* String */
+			tp = va_arg(arp, TCHAR*);	/* Get a pointer argument */
+			if (!tp) tp = &nul;		/* Null ptr generates a null string */
+			for (j = 0; tp[j]; j++) ;	/* j = tcslen(tp) */
+			if (prec >= 0 && j > (UINT)prec) j = prec;	/* Limited length of string body */
+			for ( ; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
+			while (*tp && prec--) putc_bfd(&pb, *tp++);	/* Body */
+			while (j++ < w) putc_bfd(&pb, ' ');			/* Right pads */
+			continue;
+#if FF_PRINT_FLOAT && FF_INTDEF == 2
+		case 'f':					/* Floating point (decimal) */
+		case 'e':					/* Floating point (e) */
+		case 'E':					/* Floating point (E) */
+			ftoa(str, va_arg(arp, double), prec, tc);	/* Make a flaoting point string */
+			for (j = strlen(str); !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
+			for (i = 0; str[i]; putc_bfd(&pb, str[i++])) ;	/* Body */
+			while (j++ < w) putc_bfd(&pb, ' ');	/* Right pads */
+			continue;
+#endif
+		default:					/* Unknown type (pass-through) */
+			putc_bfd(&pb, tc); continue;
+		}
+
+		/* Get an integer argument and put it in numeral */
+#if FF_PRINT_LLI && FF_INTDEF == 2
+		if (f & 8) {	/* long long argument? */
+			v = (QWORD)va_arg(arp, LONGLONG);
+		} else {
+			if (f & 4) {	/* long argument? */
+				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, long) : (QWORD)va_arg(arp, unsigned long);
+			} else {		/* int/short/char argument */
+				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, int) : (QWORD)va_arg(arp, unsigned int);
+			}
+		}
+		if (tc == 'd' && (v & 0x8000000000000000)) {	/* Negative value? */
+			v = 0 - v; f |= 1;
+		}
+#else
+		if (f & 4) {	/* long argument? */
+			v = (DWORD)va_arg(arp, long);
+		} else {		/* int/short/char argument */
+			v = (tc == 'd') ? (DWORD)(long)va_arg(arp, int) : (DWORD)va_arg(arp, unsigned int);
+		}
+		if (tc == 'd' && (v & 0x80000000)) {	/* Negative value? */
+			v = 0 - v; f |= 1;
+		}
+#endif
+		i = 0;
+		do {	/* Make an integer number string */
+			d = (char)(v % r); v /= r;
+			if (d > 9) d += (tc == 'x') ? 0x27 : 0x07;
+			str[i++] = d + '0';
+		} while (v && i < SZ_NUM_BUF);
+		if (f & 1) str[i++] = '-';	/* Sign */
+		/* Write it */
+		for (j = i; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
+		do putc_bfd(&pb, (TCHAR)str[--i]); while (i);	/* Body */
+		while (j++ < w) putc_bfd(&pb, ' ');		/* Right pads */
+	}
+
+	va_end(arp);
+
+	return putc_flush(&pb);
+}
+
+#endif /* !FF_FS_READONLY */
+#endif /* FF_USE_STRFUNC */
+
+
+
+#if FF_CODE_PAGE == 0
+/*-----------------------------------------------------------------------*/
+/* Set Active Codepage for the Path Name                                 */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_setcp (
+	WORD cp		/* Value to be set as active code page */
+)
+{
+	static const WORD       validcp[22] = {  437,   720,   737,   771,   775,   850,   852,   855,   857,   860,   861,   862,   863,   864,   865,   866,   869,   932,   936,   949,   950, 0};
+	static const BYTE* const tables[22] = {Ct437, Ct720, Ct737, Ct771, Ct775, Ct850, Ct852, Ct855, Ct857, Ct860, Ct861, Ct862, Ct863, Ct864, Ct865, Ct866, Ct869, Dc932, Dc936, Dc949, Dc950, 0};
+	UINT i;
+
+
+	for (i = 0; validcp[i] != 0 && validcp[i] != cp; i++) ;	/* Find the code page */
+	if (validcp[i] != cp) return FR_INVALID_PARAMETER;	/* Not found? */
+
+	CodePage = cp;
+	if (cp >= 900) {	/* DBCS */
+		ExCvt = 0;
+		DbcTbl = tables[i];
+	} else {			/* SBCS */
+		ExCvt = tables[i];
+		DbcTbl = 0;
+	}
+	return FR_OK;
+}
+#endif	/* FF_CODE_PAGE == 0 */
+
-- 
2.43.0


From 44b7859419352150165f911e865e31f3da6b39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 46/71] fix: fatfs: read-only volumes aren't extended by seeks,
 renaming onto a directory itself is an error

---
 libraries/fatfs/source/ff.c | 4 ++--
 src/fatfs_fs.c              | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libraries/fatfs/source/ff.c b/libraries/fatfs/source/ff.c
index 1b8dce6..935a38f 100644
--- a/libraries/fatfs/source/ff.c
+++ b/libraries/fatfs/source/ff.c
@@ -4461,7 +4461,7 @@ FRESULT f_lseek (
 			} else {									/* When seek to back cluster, */
 				clst = fp->obj.sclust;					/* start from the first cluster */
 #if !FF_FS_READONLY
-				if (clst == 0) {						/* If no cluster chain, create a new chain */
+				if (clst == 0 && (fp->flag & FA_WRITE)) {	/* If no cluster chain, create a new chain */
 					clst = create_chain(&fp->obj, 0);
 					if (clst == 1) ABORT(fs, FR_INT_ERR);
 					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
@@ -5125,7 +5125,7 @@ FRESULT f_rename (
 				memcpy(&djn, &djo, sizeof (DIR));		/* Duplicate the directory object */
 				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
 				if (res == FR_OK) {						/* Is new name already in use by any other object? */
-					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) ? FR_NO_FILE : FR_EXIST;
+					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) && !(djn.fn[NSFLAG] & (NS_DOT | NS_NONAME)) ? FR_NO_FILE : FR_EXIST;
 				}
 				if (res == FR_NO_FILE && (buf[DIR_Attr] & AM_DIR)) {	/* A directory cannot be moved into itself */
 					dja.obj.fs = fs;
diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 29349b8..112d581 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -303,6 +303,10 @@ static int fatfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
 
   FatfsData *fs_data = fil->fs_data;
 
+  // Seeking past the end extends files that are writable
+  if(fs_data->cfg_readonly && (fil->fil.flag & FA_WRITE) && (FSIZE_t)offset > f_size(&fil->fil))
+    return EVFS_ERR_DISABLED;
+
   LOCK();
   FRESULT status = f_lseek(&fil->fil, offset);
 
-- 
2.43.0


From 245074682a052f75a63e71ca0f506b72a241be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 47/71] fix: fatfs: a refused truncation doesn't move the file
 position

---
 src/fatfs_fs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 112d581..6a1f37c 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -237,13 +237,13 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
   // f_lseek() can grow files in write mode which we don't want to do here.
   FSIZE_t new_size = MIN((FSIZE_t)size, f_size(&fil->fil));
 
-  if(cur_pos > new_size)
-    cur_pos = new_size;
-
   status = f_lseek(&fil->fil, new_size);
   if(status == FR_OK)
     status = f_truncate(&fil->fil);
 
+  if(status == FR_OK && cur_pos > new_size)
+    cur_pos = new_size;
+
   // Restore original position
   FRESULT seek_status = f_lseek(&fil->fil, cur_pos);
   if(status == FR_OK)
-- 
2.43.0


From 9917059e47c8f1c1c849afd0ef064aa8eb759f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 48/71] fix: fatfs images: sector offsets don't overflow

---
 src/fatfs_image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index d4f4154..4a0162b 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -199,10 +199,11 @@ DSTATUS disk_status(BYTE pdrv) {
 
 // Move to a sector in the image
 static bool seek_sector(FatfsImage *img, LBA_t sector) {
-  evfs_off_t offset = (evfs_off_t)sector * FF_MAX_SS;
+  uint64_t pos = (uint64_t)sector * FF_MAX_SS;
+  evfs_off_t offset = (evfs_off_t)pos;
 
   // Sector may be beyond the largest offset we can represent
-  if((uint64_t)sector * FF_MAX_SS != (uint64_t)offset || offset < 0)
+  if((uint64_t)offset != pos || offset < 0)
     return false;
 
   return evfs_file_seek(img->fh, offset, EVFS_SEEK_TO) == EVFS_OK;
-- 
2.43.0


From 60f088f081a46c35ffd92674c2ddaaae33e7eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 49/71] fix: making a path leaves the range alone, stays inside
 it and reports components that aren't directories

---
 src/evfs.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index a9ec46f..6e4adb6 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -741,24 +741,29 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
-  size_t path_len = range_size(path);
+  size_t path_len = range_strlen(path);
   int rval = EVFS_OK;
 
-  char *cur_path = evfs_malloc(path_len+1); // Buffer to hold sub-paths
+  // Buffer to hold sub-paths with a trailing separator followed by a NUL terminated copy of path
+  char *cur_path = evfs_malloc(2 * (path_len+2));
   if(MEM_CHECK(cur_path)) return EVFS_ERR_ALLOC;
 
+  char *path_pos = cur_path + path_len+2;
+  memcpy(path_pos, path->start, path_len);
+  path_pos[path_len] = '\0';
+
   // Use string range to concatenate each path segment
   AppendRange cur_path_r;
-  range_init(&cur_path_r, cur_path, path_len+1);
+  range_init(&cur_path_r, cur_path, path_len+2);
 
   size_t limit = path_len;
 
   // Add root separator for absolute paths
   StringRange root;
-  bool is_absolute = vfs->m_path_root_component(vfs, path->start, &root);
+  bool is_absolute = vfs->m_path_root_component(vfs, path_pos, &root);
   if(is_absolute) {
     // Skip over the root component
-    path->start += range_size(&root);
+    path_pos += range_size(&root);
     limit -= range_size(&root);
     range_cat_range(&cur_path_r, &root); // Add root component to the buffer
   }
@@ -766,7 +771,7 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
 
   // Iterate over each segment of path creating any non-existant directories
   StringRange token;
-  bool new_tok = range_token_limit(path->start, EVFS_PATH_SEPS, &token, &limit);
+  bool new_tok = range_token_limit(path_pos, EVFS_PATH_SEPS, &token, &limit);
   while(new_tok) {
     range_cat_range(&cur_path_r, &token); // Append new token
     EvfsInfo info;
@@ -781,6 +786,9 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
     } else if(err != EVFS_OK) { // Can't get status of segment
       rval = err;
       goto cleanup;
+    } else if(!(info.type & EVFS_FILE_DIR)) { // Not usable as a directory
+      rval = EVFS_ERR_EXISTS;
+      goto cleanup;
     }
 
     range_cat_char(&cur_path_r, EVFS_DIR_SEP);
-- 
2.43.0


From 7c02545580926e4e038722db296482cfc8768069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 50/71] fix: copying a file copies all of it, uses the given
 buffer and reports failures of closing it

---
 include/evfs.h |  2 +-
 src/evfs.c     | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/evfs.h b/include/evfs.h
index c687258..19ffc8f 100644
--- a/include/evfs.h
+++ b/include/evfs.h
@@ -348,7 +348,7 @@ static inline int evfs_vfs_ctrl(int op, void *arg) {
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name);
 
 static inline int evfs_copy_to_file(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size) {
-  return evfs_copy_to_file_ex(dest_path, fh, NULL, 0, NULL);
+  return evfs_copy_to_file_ex(dest_path, fh, buf, buf_size, NULL);
 }
 
 
diff --git a/src/evfs.c b/src/evfs.c
index 6e4adb6..1ee8d8e 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -950,10 +950,18 @@ Returns:
 */
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name) {
   if(PTR_CHECK(dest_path) || PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
+  if(buf && buf_size == 0) return EVFS_ERR_BAD_ARG;
 
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
+  // Copy everything regardless of the current position
+  evfs_off_t copy_size = evfs_file_size(fh);
+  if(copy_size < 0) return copy_size;
+
+  int seek_status = evfs_file_seek(fh, 0, EVFS_SEEK_TO);
+  if(seek_status != EVFS_OK) return seek_status;
+
   EvfsFile *dest_fh;
   int flags = EVFS_WRITE | EVFS_NO_EXIST;
 
@@ -974,17 +982,15 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     alloc_buf = true;
   }
 
-  size_t copy_size = evfs_file_size(fh);
-
   while(copy_size > 0) {
-    size_t read_size = MIN(copy_size, buf_size);
-    int read = evfs_file_read(fh, buf, read_size);
+    size_t read_size = (uint64_t)copy_size < buf_size ? (size_t)copy_size : buf_size;
+    ptrdiff_t read = evfs_file_read(fh, buf, read_size);
     if(read <= 0) {
       rval = read < 0 ? read : EVFS_ERR_IO;
       break;
     }
 
-    int wrote = evfs_file_write(dest_fh, buf, read);
+    ptrdiff_t wrote = evfs_file_write(dest_fh, buf, read);
     if(wrote != read) {
       rval = wrote < 0 ? wrote : EVFS_ERR_IO;
       break;
@@ -997,8 +1003,10 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
   if(alloc_buf)
     evfs_free(buf);
 
-cleanup:
-  evfs_file_close(dest_fh);
+cleanup: ;
+  int close_status = evfs_file_close(dest_fh);
+  if(rval == EVFS_OK) // The copy is only complete once it is closed
+    rval = close_status;
 
   return rval;
 }
-- 
2.43.0


From dbf6e8f343eb2588bcc582b473893eebbf921bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 51/71] fix: formatted output with NULs is written completely,
 missing handles and strings are reported

---
 src/evfs.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 1ee8d8e..ce632e1 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1213,6 +1213,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_file_ctrl(EvfsFile *fh, int cmd, void *arg) {
+  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   return fh->methods->m_ctrl(fh, cmd, arg);
 }
 
@@ -1505,6 +1506,13 @@ int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
   va_list args;
   char *buf;
 
+  if(PTR_CHECK(fh) || PTR_CHECK(fmt)) return EVFS_ERR_BAD_ARG;
+
+  // The formatted text can contain NULs
+  va_start(args, fmt);
+  int size = vsnprintf(NULL, 0, fmt, args);
+  va_end(args);
+
   // Print into malloc'ed buffer
   va_start(args, fmt);
   buf = evfs__vmprintf(fmt, args);
@@ -1512,7 +1520,7 @@ int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
 
   int status = EVFS_ERR_ALLOC;
   if(buf) {
-    status = evfs_file_write(fh, buf, strlen(buf));
+    status = evfs_file_write(fh, buf, size);
     evfs_free(buf);
   }
 
@@ -1531,6 +1539,7 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_puts(EvfsFile *fh, const char *str) {
+  if(PTR_CHECK(fh) || PTR_CHECK(str)) return EVFS_ERR_BAD_ARG;
   return evfs_file_write(fh, str, strlen(str));
 }
 
-- 
2.43.0


From 07ee6de8ac0d472b252152b16711ca9bd8dc4592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 52/71] fix: a root component can't be found without a VFS

---
 src/evfs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index ce632e1..90319fe 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1033,9 +1033,11 @@ Returns:
   true when the path is absolute
 */
 bool evfs_path_root_component_ex(const char *path, StringRange *root, const char *vfs_name) {
-  if(PTR_CHECK(path) || PTR_CHECK(root)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(path) || PTR_CHECK(root)) return false;
+  range_init(root, (char *)path, 0);
+
   Evfs *vfs = evfs__get_vfs(vfs_name);
-  if(!vfs) THROW(EVFS_ERR_NO_VFS);
+  if(!vfs) THROW(false);
 
   return vfs->m_path_root_component(vfs, path, root);
 }
-- 
2.43.0


From 1e116495b3a6fcbb8daca816ee9af4900a4eb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 53/71] fix: glob sets stay inside both strings, spans up to
 0xFF end, stars never absorb a separator

---
 src/util/glob.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index efda6d7..51cbd75 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -62,13 +62,13 @@ typedef struct {
   uint32_t chars[8]; // 256 bits
 } CharSet;
 
-#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1 << ( ((uint8_t)(c)) % 32)) )
-#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1 << ( ((uint8_t)(c)) % 32)) )
+#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1u << ( ((uint8_t)(c)) % 32)) )
+#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1u << ( ((uint8_t)(c)) % 32)) )
 #define COUNT_OF(a)            (sizeof(a) / sizeof(*a))
 
 static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   const char *rng_pos;
-  char ch, end_ch;
+  char end_ch;
   bool invert = false;
 
   if(*(pat_pos+1) == '!') {
@@ -85,7 +85,7 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
         break;
       }
 
-      for(ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
+      for(unsigned ch = (uint8_t)*rng_pos; ch <= (uint8_t)end_ch; ch++) { // Add all chars in span
         ADD_TO_SET(cs, ch);
       }
       rng_pos += 2;
@@ -168,9 +168,10 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
       case '[': // Character range
         memset(&cs, 0, sizeof(cs));
         pat_pos = parse_range_def(pat_pos, &cs);
-        if(CHAR_IS_IN_SET(&cs, s_ch)) {
+        if(s_ch != '\0' && CHAR_IS_IN_SET(&cs, s_ch)) {
           str_pos++;
-          pat_pos++;
+          if(*pat_pos != '\0') // Set may be unterminated
+            pat_pos++;
           continue;
         }
         break;
@@ -187,7 +188,8 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
     }
 
     // Mismatch; Recover with backtracking or fail
-    if(pat_star && s_ch != '\0' && !char_match(s_ch, dir_separators)) {
+    // The star absorbs one more char which can't be a directory separator
+    if(pat_star && *(str_star-1) != '\0' && !char_match(*(str_star-1), dir_separators)) {
       str_pos = str_star;
       pat_pos = pat_star;
       continue;
-- 
2.43.0


From 7718220df2cefb4636da240dbb1092f7b9fd7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 54/71] fix: hash table keeps caller's values and keys, bounds
 value copies to the item size, removes without tombstones and leaves the
 table alone when an insertion fails

---
 include/evfs/util/dhash.h |   3 +-
 src/util/dhash.c          | 269 +++++++++++++++++---------------------
 2 files changed, 125 insertions(+), 147 deletions(-)

diff --git a/include/evfs/util/dhash.h b/include/evfs/util/dhash.h
index e432506..bbddfbb 100644
--- a/include/evfs/util/dhash.h
+++ b/include/evfs/util/dhash.h
@@ -108,7 +108,8 @@ typedef struct dhash {
 #endif
 
   // Configuration
-  size_t          value_size;   // Bytes per entry value
+  size_t          value_size;   // Bytes per entry value with padding
+  size_t          item_size;    // Bytes per entry value
   size_t          max_storage;  // Max bytes to use for bucket array
 
   // Callbacks
diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a57bf2..d2c303e 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -99,23 +99,22 @@ typedef struct dhBucketEntry {
 #endif
 
   uint16_t probe_count:   PROBE_COUNT_BITS; // Number of probes. 0 indicates unused
-  uint16_t deleted:       1;                // Mark tombstoned entries
 
   uintptr_t value_obj[]; // Additional space of value_size bytes
 } dhBucketEntry;
 
 
 
+// Largest bucket count that can be indexed
+#define MAX_BUCKETS   DH_MAX_HASH_ENTRIES
+
+
 #define DH_ERR_KEY_NOT_FOUND    -1
 #define DH_ERR_TOO_MANY_PROBES  -2
 
 
 
-#define SET_DELETED(entry)    ((entry)->deleted = 1)
-#define CLEAR_DELETED(entry)  ((entry)->deleted = 0)
-
 #define IN_USE(entry)         ((entry)->probe_count != 0)
-#define WAS_DELETED(entry)    ((entry)->deleted)
 #define PROBE_COUNT(entry)    ((entry)->probe_count)
 #define SET_PROBE_COUNT(entry, probes)  ((entry)->probe_count = (probes))
 
@@ -348,7 +347,8 @@ static bool dh__alloc_buckets(dhash *hash, size_t new_num_buckets) {
 static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_hash) {
 #ifndef DH_USE_2X_GROWTH
   // Find closest prime to init_buckets
-  dhBucketIndex prime_ix    = get_closest_prime_index(config->init_buckets);
+  dhBucketIndex init_buckets = config->init_buckets < MAX_BUCKETS ? config->init_buckets : MAX_BUCKETS;
+  dhBucketIndex prime_ix    = get_closest_prime_index(init_buckets);
   dhBucketIndex num_buckets = get_prime(prime_ix);
   //printf("## dh_init(): %d %zu --> %zu\n", prime_ix, config->init_buckets, num_buckets);
 #else
@@ -360,6 +360,9 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
   // Bucket entries need to stay aligned so we pad out the value object
   size_t value_size = ROUND_UP_ALIGN(config->value_size, uintptr_t);
 
+  if(config->init_buckets > (size_t)num_buckets) // Too large for the bucket index
+    return false;
+
   // Restrict memory usage
   if(config->max_storage > 0 && !config->ext_storage) {
     size_t max_buckets = config->max_storage / (sizeof(dhBucketEntry) + value_size);
@@ -391,6 +394,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       .prime_ix     = prime_ix,
 #endif
       .value_size   = value_size,
+      .item_size    = config->value_size,
       .max_storage  = config->max_storage,
       .ctx          = ctx,
       .destroy_item = config->destroy_item,
@@ -410,11 +414,18 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
 
       // Set largest bucket count for our growth scheme
 #ifndef DH_USE_2X_GROWTH
-      hash->prime_ix = get_closest_prime_index_below(ext_buckets);
+      dhBucketIndex num_ext = ext_buckets < MAX_BUCKETS ? ext_buckets : MAX_BUCKETS;
+      hash->prime_ix = get_closest_prime_index_below(num_ext);
       hash->num_buckets = get_prime(hash->prime_ix);
 #else
-      hash->num_buckets = prev_po2(ext_buckets);
+      hash->num_buckets = ext_buckets > 0 ? prev_po2(ext_buckets) : DH_MIN_BUCKETS;
 #endif
+      if((size_t)hash->num_buckets > ext_buckets) { // Not enough space for the smallest table
+        hash->buckets = NULL;
+        hash->num_buckets = 0;
+        return false;
+      }
+
       hash->static_buckets = true;
 
       //printf("## EXT SIZE: %d  bsz: %d  num: %d\n", config->max_storage, bucket_size, ext_buckets);
@@ -480,7 +491,7 @@ void dh_free(dhash *hash) {
   for(dhBucketIndex b = 0; b < num_buckets; b++) {
     entry = dh__get_entry_unsafe(hash, b);
 
-    if(!IN_USE(entry) || WAS_DELETED(entry))
+    if(!IN_USE(entry))
       continue;
 
     //uintptr_t value = entry->value_obj[0];
@@ -493,6 +504,7 @@ void dh_free(dhash *hash) {
 
   hash->buckets = NULL;
   hash->num_buckets = 0;
+  hash->used_buckets = 0;
 }
 
 
@@ -591,7 +603,7 @@ Returns:
 bool dh_equal_hash_keys_string(dhKey key1, dhKey key2, void *ctx) {
   (void)ctx;
   if(key1.length != key2.length) return false;
-  return !strncmp(key1.data, key2.data, key1.length);
+  return key1.length == 0 || !memcmp(key1.data, key2.data, key1.length);
 }
 
 
@@ -655,7 +667,7 @@ static inline dhBucketIndex dh__find_bucket(dhash *hash, dhKey key, dhBucketEntr
     if(!IN_USE(entry) || (probes > PROBE_COUNT(entry))) {
       return DH_ERR_KEY_NOT_FOUND; // Key not found, invalid bucket
 
-    } else if(!WAS_DELETED(entry) &&
+    } else if(
 #ifdef DH_USE_MEMOIZED_HASH
               entry->ikey == ikey && 
 #endif
@@ -699,9 +711,9 @@ bool dh_lookup(dhash *hash, dhKey key, void *value) {
   //dhBucketIndex b = dh__find_bucket(hash, key, &entry);
   //printf("## GOT BUCKET: %d\n", b);
 
-  if(entry && !WAS_DELETED(entry)) { // Found match
+  if(entry) { // Found match
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
     return true;
   }
 
@@ -714,7 +726,7 @@ Search for a hash entry
 
 This version of dh_lookup() returns a direct pointer to the bucket value data
 rather than a copy. Never save the pointer returned for the value since it
-will become invalid when the dhash grows or the entry is removed.
+will become invalid when an entry is inserted or removed.
 
 Args:
   hash:   Hash to search
@@ -730,7 +742,7 @@ bool dh_lookup_in_place(dhash *hash, dhKey key, void **value) {
   dh__find_bucket(hash, key, &entry);
   //printf("## GOT BUCKET: %d\n", b);
 
-  if(entry && !WAS_DELETED(entry)) { // Found match
+  if(entry) { // Found match
     if(value)
       *value = &entry->value_obj;
     return true;
@@ -746,130 +758,69 @@ bool dh_lookup_in_place(dhash *hash, dhKey key, void **value) {
 
 // ******************** Storage ********************
 
-// Exchange value objects for Robin Hood algo.
-static inline void swap_values(uintptr_t * restrict v1, uintptr_t * restrict v2, size_t value_size) {
-  uintptr_t temp;
-
-  // The value size is rounded up to a multiple of uintptr_t alignment so this
-  // will never have a remainder.
-  value_size /= sizeof(uintptr_t);
-
-  for(size_t i = 0; i < value_size; i++) {
-    temp = v1[i];
-    v1[i] = v2[i];
-    v2[i] = temp;
-  }
-}
-
-
-static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ikey) {
-  dhBucketEntry titem;
-  dhBucketEntry *entry;
-  dhBucketIndex b;
+// Add an item whose key isn't in the hash
+static inline bool dh__insert_ex(dhash *hash, dhKey key, const void *value, dhIKey ikey) {
+  const size_t bucket_size = sizeof(dhBucketEntry) + hash->value_size;
   uint16_t probes = 1;
 
-  //printf("## dh__insert_ex(): %p  %ld\n", value, hash->value_size);
-
-  b = dh__initial_probe(hash, ikey);
-  entry = dh__get_entry_unsafe(hash, b);
-
-  while(1) {
-    if(!IN_USE(entry)) { // Fresh bucket
-      // Add new entry
-
-#ifdef DH_USE_MEMOIZED_HASH
-      entry->ikey = ikey;
-#endif
-      entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
-
-      SET_PROBE_COUNT(entry, probes);
-      hash->used_buckets++;
-      return true;
-    }
-
-    if(
-#ifdef DH_USE_MEMOIZED_HASH
-        entry->ikey == ikey &&
-#endif
-                                hash->is_equal(entry->key, key, hash->ctx)) {
-       // Match to existing key: Replace value
-      bool replace_ok = true;
-      if(hash->replace_item)
-        replace_ok = hash->replace_item(entry->key, &entry->value_obj, value, hash->ctx);
-
-      if(!replace_ok)
-        return false;
-
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
-      entry->key = key;
-      memcpy(&entry->value_obj, value, hash->value_size);
-      return true;
-    }
-
-    if(PROBE_COUNT(entry) < probes) {
-      if(WAS_DELETED(entry)) { // Tombstone can be reused
-        // Add new entry
-#ifdef DH_USE_MEMOIZED_HASH
-        entry->ikey = ikey;
-#endif
-        entry->key = key;
-        memcpy(&entry->value_obj, value, hash->value_size);
-
-        CLEAR_DELETED(entry); // Clear tombstone
-        SET_PROBE_COUNT(entry, probes);
-        hash->used_buckets++;
-        return true;
-      }
-
-      // Time to steal from the rich
-      // Swap with the current bucket and find a new home for the evicted item
-
-      titem = *entry;
-
-#ifdef DH_USE_MEMOIZED_HASH
-      entry->ikey        = ikey;
-#endif
-      entry->key         = key;
-      SET_PROBE_COUNT(entry, probes);
-
-#ifdef DH_USE_MEMOIZED_HASH
-      ikey   = titem.ikey;
-#endif
-      key    = titem.key;
-      probes = PROBE_COUNT(&titem);
+  dhBucketIndex b = dh__initial_probe(hash, ikey);
+  dhBucketEntry *entry = dh__get_entry_unsafe(hash, b);
 
-      swap_values((uintptr_t *)&entry->value_obj, (uintptr_t *)value, hash->value_size);
-    }
+  // Find the first bucket that is unused or belongs to an item with fewer probes
+  while(IN_USE(entry) && PROBE_COUNT(entry) >= probes) {
+    if(probes >= MAX_PROBE_COUNT)
+      return false;
+    probes++;
 
-    // Continue linear probe
     b = next_bucket(hash, b);
     entry = dh__get_entry_unsafe(hash, b);
+  }
 
-    if(probes < MAX_PROBE_COUNT)
-      probes++;
-    else
+  // Time to steal from the rich
+  // This item and all that follow it move up by one bucket. Nothing is changed
+  // until it is known that all of them can be moved.
+  dhBucketIndex end = b;
+  while(IN_USE(dh__get_entry_unsafe(hash, end))) {
+    if(PROBE_COUNT(dh__get_entry_unsafe(hash, end)) >= MAX_PROBE_COUNT)
       return false;
+    end = next_bucket(hash, end);
   }
 
-}
+  while(end != b) {
+    dhBucketIndex prev = end > 0 ? end-1 : hash->num_buckets-1;
+    dhBucketEntry *moved = dh__get_entry_unsafe(hash, end);
 
+    memcpy(moved, dh__get_entry_unsafe(hash, prev), bucket_size);
+    SET_PROBE_COUNT(moved, PROBE_COUNT(moved) + 1);
+    end = prev;
+  }
 
-// Insert without existing ikey
-static inline bool dh__insert(dhash *hash, dhKey key, void *value) {
-  return dh__insert_ex(hash, key, value, dh__hash(hash, key));
+  // Add new entry
+#ifdef DH_USE_MEMOIZED_HASH
+  entry->ikey = ikey;
+#endif
+  entry->key = key;
+  memcpy(&entry->value_obj, value, hash->item_size);
+
+  SET_PROBE_COUNT(entry, probes);
+  hash->used_buckets++;
+  return true;
 }
 
 
 
 // Expand size of hash bucket array
-static inline bool dh__grow(dhash *hash, dhBucketIndex new_buckets) {
+static inline bool dh__grow(dhash *hash, size_t new_buckets) {
   if(hash->static_buckets)
     return false;
 
   dhBucketIndex num_old_buckets = hash->num_buckets;
+  dhBucketIndex num_old_items = hash->used_buckets;
+#ifndef DH_USE_2X_GROWTH
+  dhBucketIndex old_prime_ix = hash->prime_ix;
+#endif
 
-  if(new_buckets <= num_old_buckets)
+  if(new_buckets <= (size_t)num_old_buckets)
     new_buckets = num_old_buckets+1; // This will round up to the next prime size
 
   //printf("## GROW HASH: %lu\n", new_buckets);
@@ -880,7 +831,7 @@ static inline bool dh__grow(dhash *hash, dhBucketIndex new_buckets) {
 
   dhConfig cfg = {
     .init_buckets = new_buckets,
-    .value_size   = hash->value_size,
+    .value_size   = hash->item_size,
     .max_storage  = hash->max_storage,
     .destroy_item = hash->destroy_item,
     .gen_hash     = hash->gen_hash,
@@ -904,14 +855,24 @@ static inline bool dh__grow(dhash *hash, dhBucketIndex new_buckets) {
   for(dhBucketIndex b = 0; b < num_old_buckets; b++) {
     dhBucketEntry *item = (dhBucketEntry *)((uint8_t *)old_buckets + bkt_off);
 
-    if(IN_USE(item) && !WAS_DELETED(item)) {
+    if(IN_USE(item)) {
 #ifdef DH_USE_MEMOIZED_HASH
 //      printf("## INS %lu: %08lX = %08X  @ %u\n", b, item->ikey, (uintptr_t)&item->value_obj,
 //              bkt_off);
-      dh__insert_ex(hash, item->key, &item->value_obj, item->ikey); // Skip rehash of key
+      dhIKey ikey = item->ikey; // Skip rehash of key
 #else
-      dh__insert(hash, item->key, &item->value_obj);
+      dhIKey ikey = dh__hash(hash, item->key);
 #endif
+      if(!dh__insert_ex(hash, item->key, &item->value_obj, ikey)) { // Too many probes; Keep old buckets
+        dh__free(hash->buckets);
+        hash->buckets = old_buckets;
+        hash->num_buckets = num_old_buckets;
+        hash->used_buckets = num_old_items;
+#ifndef DH_USE_2X_GROWTH
+        hash->prime_ix = old_prime_ix;
+#endif
+        return false;
+      }
     }
 
     bkt_off += sizeof(dhBucketEntry) + hash->value_size;
@@ -938,6 +899,19 @@ Returns:
   true on success
 */
 bool dh_insert(dhash *hash, dhKey key, void *value) {
+  dhBucketEntry *entry = NULL;
+  dh__find_bucket(hash, key, &entry);
+
+  if(entry) { // Match to existing key: Replace value
+    if(hash->replace_item && !hash->replace_item(entry->key, &entry->value_obj, value, hash->ctx))
+      return false;
+
+    hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
+    entry->key = key;
+    memcpy(&entry->value_obj, value, hash->item_size);
+    return true;
+  }
+
   // Check if we have too much load
   dhBucketIndex max_buckets = MAX_LOAD_FACTOR(hash->num_buckets); // ~ 90%
 
@@ -947,7 +921,7 @@ bool dh_insert(dhash *hash, dhKey key, void *value) {
     if(!dh__grow(hash, 0)) return false;
   }
 
-  return dh__insert(hash, key, value);
+  return dh__insert_ex(hash, key, value, dh__hash(hash, key));
 }
 
 
@@ -968,29 +942,32 @@ Returns:
 */
 bool dh_remove(dhash *hash, dhKey key, void *value) {
   dhBucketEntry *entry = NULL;
-  dh__find_bucket(hash, key, &entry);
+  dhBucketIndex b = dh__find_bucket(hash, key, &entry);
 
   if(entry) { // Bucket found with matching key
     // Return removed value if caller wants to manage it, otherwise destroy it
-    // after we finish internal bookkeeping.
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
+    else
+      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
 
-#ifdef DH_USE_MEMOIZED_HASH
-    entry->ikey = 0;
-#endif
-    entry->key.data = NULL;
-    entry->key.length = 0;
+    // Move following items back until one is in its initial bucket so that no
+    // probe sequence is interrupted.
+    const size_t bucket_size = sizeof(dhBucketEntry) + hash->value_size;
+    b = next_bucket(hash, b);
+    dhBucketEntry *next = dh__get_entry_unsafe(hash, b);
+    while(PROBE_COUNT(next) > 1) {
+      memcpy(entry, next, bucket_size);
+      SET_PROBE_COUNT(entry, PROBE_COUNT(entry) - 1);
+
+      entry = next;
+      b = next_bucket(hash, b);
+      next = dh__get_entry_unsafe(hash, b);
+    }
 
-    // We need to preserve the probe count so turn this into a tombstone
-    SET_DELETED(entry);
+    memset(entry, 0, bucket_size); // Unused now
     hash->used_buckets--;
 
-    if(!value)
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
-
-    memset(&entry->value_obj, 0, hash->value_size);
-
     return true;
   }
 
@@ -1077,7 +1054,9 @@ bool dh_reserve_capacity(dhash *hash, size_t add_capacity) {
 
   // Add space for extra buckets
   const size_t lfactor = MAX_LOAD_FACTOR(128UL); // Get the numerator
-  size_t new_buckets = (hash_capacity + add_capacity) * 128UL / lfactor;
+  if(add_capacity > MAX_BUCKETS) // Can't be indexed
+    return false;
+  size_t new_buckets = ((hash_capacity + add_capacity) * 128UL + lfactor-1) / lfactor;
 
   return dh__grow(hash, new_buckets);
 }
@@ -1104,7 +1083,7 @@ int dh_mean_probe_count(dhash *hash) {
 
   for(dhBucketIndex b = 0; b < num_buckets; b++ ) {
     entry = dh__get_entry_unsafe(hash, b);
-    if(!IN_USE(entry) || WAS_DELETED(entry)) continue; // Skip unused and tombstones
+    if(!IN_USE(entry)) continue; // Skip unused
 
     total += PROBE_COUNT(entry);
   }
@@ -1134,7 +1113,7 @@ int dh_max_probe_count(dhash *hash) {
 
   for(dhBucketIndex b = 0; b < num_buckets; b++ ) {
     entry = dh__get_entry_unsafe(hash, b);
-    if(!IN_USE(entry) || WAS_DELETED(entry)) continue; // Skip unused and tombstones
+    if(!IN_USE(entry)) continue; // Skip unused
 
     max_probes = MAX(max_probes, PROBE_COUNT(entry));
   }
@@ -1144,7 +1123,7 @@ int dh_max_probe_count(dhash *hash) {
 
 
 static void dh__dump_entry(dhash *hash, dhBucketEntry *entry, dhBucketIndex b) {
-    printf("  %3" PRIBkt ": k=%08" PRIX32 " v=%p (%08" PRIXPTR "), flag=%01X probes=%d init=%" PRIBkt "\n", b, 
+    printf("  %3" PRIBkt ": k=%08" PRIX32 " v=%p (%08" PRIXPTR "), probes=%d init=%" PRIBkt "\n", b, 
 #ifdef DH_USE_MEMOIZED_HASH
       entry->ikey,
 #else
@@ -1152,8 +1131,6 @@ static void dh__dump_entry(dhash *hash, dhBucketEntry *entry, dhBucketIndex b) {
 #endif
       (void *)&entry->value_obj[0],
       (uintptr_t)entry->value_obj[0],
-      //entry->flags,
-      entry->deleted,
       PROBE_COUNT(entry),
 #ifdef DH_USE_MEMOIZED_HASH
       dh__initial_probe(hash, entry->ikey)
@@ -1184,7 +1161,7 @@ void dh_dump(dhash *hash, HashVisitor print_item, void *ctx) {
 
     dh__dump_entry(hash, entry, b);
 
-    if(print_item && !WAS_DELETED(entry))
+    if(print_item)
       print_item(entry->key, &entry->value_obj, ctx);
   }
 
@@ -1207,7 +1184,7 @@ void dh_foreach(dhash *hash, HashVisitor visitor, void *ctx) {
   dhBucketEntry *entry;
   for(dhBucketIndex b = 0; b < num_buckets; b++) {
     entry = dh__get_entry_unsafe(hash, b);
-    if(!IN_USE(entry) || WAS_DELETED(entry))  // Skip unused and tombstones
+    if(!IN_USE(entry))  // Skip unused
       continue;
 
     if(!visitor(entry->key, &entry->value_obj, ctx))
@@ -1260,7 +1237,7 @@ bool dh_iter_next(dhIter *it, dhKey *key, void **value) {
   // Search for next used bucket
   while(it->bucket < num_buckets) {
     entry = dh__get_entry_unsafe(it->hash, it->bucket);
-    if(IN_USE(entry) && !WAS_DELETED(entry)) {
+    if(IN_USE(entry)) {
       *key = entry->key;
       *value = &entry->value_obj;
       return true;
-- 
2.43.0


From 44eb39e8e30b849165bd71b34ce6c2dc6baef5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:15 +0000
Subject: [PATCH 55/71] fix: searching below a key in an empty array examines
 nothing

---
 src/util/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/search.c b/src/util/search.c
index 40aa1f5..92e667f 100644
--- a/src/util/search.c
+++ b/src/util/search.c
@@ -224,7 +224,7 @@ size_t search_nearest_below(const void *key, const void *base, size_t num, size_
   size_t ix = search_nearest(key, base, num, item_size, compare_near);
 
   // Coerce down if not at end of array
-  if(ix > 0 && compare_near(key, (char *)base + ix*item_size) < 0)
+  if(ix > 0 && ix < num && compare_near(key, (char *)base + ix*item_size) < 0)
     ix--;
 
   return ix;
-- 
2.43.0


From 8482511a398e9d96d2c7fe68f1e5638c89d0db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 56/71] fix: getopt: operands taken as option arguments after
 permutation, reads past the argument list, usage text overflow

---
 src/util/getopt_r.c | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index dd79602..a97e9ca 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -124,20 +124,25 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
 
   int rval = -1;
 
-  if(!optstring || !state)
+  if(!argv || !optstring || !state)
     return -1;
 
-  // Initialize state if it looks dirty
-  if(state->optind < 1) {
-    state->optind = 1;
-    state->next_char = NULL;
-  }
-
   // Wipe out previous results
   state->optarg = NULL;
   state->optopt = '\0';
   state->long_index = -1;
 
+  // Initialize state if it looks dirty
+  if(state->optind < 1) {
+    state->optind = 0;
+    state->next_char = NULL;
+
+    if(!argv[0])  // Empty list without a command name
+      return -1;
+
+    state->optind = 1;
+  }
+
 
   // Scan for non-options
   int non_opts = 0;
@@ -174,8 +179,10 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
   if(CUR_OPT[1] == '-') {  // Parse long option
     state->next_char = NULL;
 
-    if(!long_options)
+    if(!long_options) {
+      state->optind -= non_opts; // Correct optind so it points to first non-option
       return -1;
+    }
 
     char *long_opt = &CUR_OPT[2];
     state->optind++;
@@ -225,7 +232,9 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
           // Indicate equivalent short option that caused error
           state->optopt = long_options[long_match].flag ? '\0' : long_options[long_match].val;
           state->optind--;  // Revert to this option's arg position
-          rval = ERR_UNKNOWN_OPT;
+
+          // Leading ':' in optstring affects error condition but not error reporting
+          rval = optstring[0] == ':' ? ERR_MISSING_OPT : ERR_UNKNOWN_OPT;
         }
         break;
 
@@ -268,7 +277,8 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
     rval = state->optopt;
 
     // Search optstring for the current option
-    const char *opt_def = strchr(optstring, state->optopt);
+    // A ':' in optstring is never an option itself
+    const char *opt_def = state->optopt != ':' ? strchr(optstring, state->optopt) : NULL;
 
     if(opt_def) {
 
@@ -284,6 +294,7 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
               state->optarg = CUR_OPT;
             } else { // Exhausted all options without finding an argument
               state->optarg = NULL;
+              state->optind--;  // Revert to this option's arg position
 
               if(state->report_errors)
                 fprintf(stderr, "ERROR: getopt_r() Missing required argument to option '-%c'\n",
@@ -322,6 +333,10 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
       state->next_char++;
       if(*state->next_char == '\0') {
         state->optind++;
+      } else { // Permute once all options in this arg are consumed so that the arg stays
+               // next to the argument of its last option
+        state->optind -= non_opts;
+        return rval;
       }
     }
   }
@@ -345,6 +360,12 @@ static const OptionHelp *find_help(const char *name, const OptionHelp *opt_help)
 }
 
 
+// Check if a long option has an equivalent short option
+static bool has_short_option(const struct option *long_opt) {
+  return !long_opt->flag && long_opt->val > 0 && long_opt->val <= UINT8_MAX && isgraph(long_opt->val);
+}
+
+
 static const struct option *find_long_option(char short_opt, const struct option *long_options) {
   for(int lo = 0; long_options[lo].name; lo++) {
     if(!long_options[lo].flag && long_options[lo].val == short_opt)
@@ -444,11 +465,13 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
   int indent = 7 + strlen(app_name);
 
   // Print short summary
+  if(max_columns < 0)
+    max_columns = 0;
   char *buf = malloc(max_columns+1);
   AppendRange buf_r;
   if(buf) {
     buf[0] = '\0';
-    range_init(&buf_r, buf, max_columns+1 - indent); // Shorten first line
+    range_init(&buf_r, buf, indent < max_columns ? max_columns+1 - indent : 1); // Shorten first line
     // Long options
     if(long_options) {
       for(int lo = 0; long_options[lo].name; lo++) {
@@ -456,7 +479,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
         bool required = help && (help->flags & OPT_REQUIRED);
 
         const char *fmt;
-        if(!long_options[lo].flag && isgraph(long_options[lo].val)) { // Have short option
+        if(has_short_option(&long_options[lo])) { // Have short option
           fmt = required ? " -%c|--%s%s" : " [-%c|--%s%s]";
           append_option(buf, &buf_r, indent, max_columns,
                         fmt, long_options[lo].val, long_options[lo].name,
@@ -499,7 +522,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
       }
     }
   }
-  if(strlen(buf) > 0)
+  if(buf && strlen(buf) > 0)
     puts(buf);
   free(buf);
   puts("");
@@ -539,7 +562,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
   // Print detailed long options
   if(long_options) {
     for(int lo = 0; long_options[lo].name; lo++) {
-      if(!long_options[lo].flag && isgraph(long_options[lo].val)) {  // Have short option
+      if(has_short_option(&long_options[lo])) {  // Have short option
         printf("  -%c, --%s", long_options[lo].val, long_options[lo].name);
       } else { // No short option
         printf("      --%s", long_options[lo].name);
-- 
2.43.0


From 3a2cf69312587509977cbd43bf2dba358ea8fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 57/71] fix: range_strings: fixed-point conversion errors and
 unreported truncation, bounds in strlcat()/strxcpy()

---
 src/util/bsd_string.c    |   9 +-
 src/util/intmath.c       |  36 +++--
 src/util/range_strings.c | 323 +++++++++++----------------------------
 3 files changed, 115 insertions(+), 253 deletions(-)

diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 354aa91..fb1bd51 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -83,7 +83,7 @@ size_t strxcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--;
-    while(*src != '\0' && copied < size) {
+    while(copied < size && *src != '\0') {
       *dst++ = *src++;
       copied++;
     }
@@ -112,8 +112,11 @@ Returns:
 size_t strlcat(char *dst, const char *src, size_t size) {
   size_t cat_len = 0;
 
-  if(size > 0) {
-    while(*dst != '\0' && cat_len < size) {
+  if(size == 0) { // Nothing to append to
+    cat_len = strlen(src);
+
+  } else {
+    while(cat_len < size && *dst != '\0') {
       dst++;
       cat_len++;
     }
diff --git a/src/util/intmath.c b/src/util/intmath.c
index d5eb0d0..bc2e5a2 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -252,22 +252,29 @@ int to_fixed_base10_parts(long value, unsigned long fp_scale, long *integer, lon
   }
 
   long vi = value / (long)fp_scale;
-  int vf = value % (long)fp_scale;
+  long long vf = value % (long)fp_scale;
 
   if(vf < 0)  vf = -vf; // Remove sign on fraction to simplify rounding
 
   // If fp_scale is already a power of 10 we don't want to grow by an extra digit so
   // decrement when taking log.
   unsigned frac_digits = base10_digits(fp_scale-1);
+  if(frac_digits > 9) // Limit to what fits in 32-bits
+    frac_digits = 9;
 
   // get 10 ^ base10_digits(fp_scale)
-  int scale_b10 = 1;
+  long scale_b10 = 1;
   for(unsigned i = 0; i < frac_digits; i++) {
     scale_b10 *= 10;
   }
 
   // Convert fraction to base-10 rounded to +/- infinity
-  vf = ((long long)vf * scale_b10 + fp_scale/2) / (long)fp_scale;
+  vf = (vf * scale_b10 + (long)(fp_scale/2)) / (long)fp_scale;
+
+  if(vf >= scale_b10) { // Rounded into integer
+    vi += (value < 0) ? -1 : 1;
+    vf = 0;
+  }
 
   if(value < 0) vf = -vf; // Restore sign on fraction
   *integer  = vi;
@@ -293,6 +300,7 @@ Returns:
 int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_places) {
   long vi = *integer;
   long vf = *frac;
+  bool negative = vi < 0 || vf < 0;
 
   if(vf < 0)  vf = -vf; // Remove sign on fraction to simplify rounding
 
@@ -307,27 +315,27 @@ int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_pla
     // Reduce digits if fraction is larger than requested decimal places
     while(frac_digits > frac_places+1) { // Initial scale down without rounding
       vf /= 10;
+      scale_b10 /= 10;
       frac_digits--;
     }
 
     if(frac_digits > frac_places) { // Final adjust with rounding
       vf += 5;  // Start round to +/- infinity in last decimal place
 
-      if(vf > scale_b10) { // Rounded into integer
-        vi++;
+      if(vf >= scale_b10) { // Rounded into integer
+        vi += negative ? -1 : 1;
         vf = 0; // No fraction part
-        frac_digits = 0;
-
-      } else {  // Finish last adjustment
-        vf /= 10;
-        frac_digits--;
       }
+
+      // Finish last adjustment
+      vf /= 10;
+      frac_digits--;
     }
 
   } else if(frac_places == 0) { // No fraction part
     // Check for rounding into integer
-    if(vf + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
-      vi += (vi < 0 ? -1 : 1);  // Overflow into integer
+    if(scale_b10 > 1 && vf + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
+      vi += (negative ? -1 : 1);  // Overflow into integer
 
     vf = 0;
     frac_digits = 0;
@@ -335,7 +343,7 @@ int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_pla
 
   *integer = vi;
 
-  if(vi < 0) vf = -vf; // Restore sign on fraction
+  if(negative) vf = -vf; // Restore sign on fraction
   *frac = vf;
   return frac_digits;
 }
@@ -362,7 +370,7 @@ long to_fixed_base10(long value, unsigned long fp_scale, int frac_places, int *b
     frac_digits = fixed_base10_adjust(&integer, &frac, frac_digits, frac_places);
 
   // Convert exponent to scaling
-  int scale_b10 = 1;
+  long scale_b10 = 1;
   for(int i = 0; i < frac_digits; i++) {
     scale_b10 *= 10;
   }
diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2954a1a..e3e3815 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -239,51 +239,31 @@ Returns:
 */
 int range_cat_fmt(AppendRange *rng, const char *fmt, ...) {
   va_list args;
-  int rval = 0;
-
-  if(rng->start < rng->end) { // Range is valid?
-    va_start(args, fmt);
-    size_t len = range_size(rng);
-    if(len <= 1)  // Force single byte range to zero for formatted length query
-      len = 0;
-    rval = vsnprintf(rng->start, len, fmt, args);
-    va_end(args);
-
-    if(rval > 0) {
-      if(rval < range_size(rng)) { // Success
-        rng->start += rval;
-      } else { // Truncated
-        if(rng->start)
-          *rng->start = '\0'; // Wipe partial string
-        rval = -rval;
-      }
-    }
 
-  }
+  va_start(args, fmt);
+  int rval = range_cat_vfmt(rng, fmt, args);
+  va_end(args);
 
   return rval;
 }
 
-
 int range_cat_vfmt(AppendRange *rng, const char *fmt, va_list args) {
-  int rval = 0;
-
-  if(rng->start < rng->end) { // Range is valid?
-    size_t len = range_size(rng);
-    if(len <= 1)  // Force single byte range to zero for formatted length query
-      len = 0;
-    rval = vsnprintf(rng->start, len, fmt, args);
-
-    if(rval > 0) {
-      if(rval < range_size(rng)) { // Success
-        rng->start += rval;
-      } else { // Truncated
-        if(rng->start)
-          *rng->start = '\0'; // Wipe partial string
-        rval = -rval;
-      }
-    }
+  bool valid = rng->start < rng->end; // Range is valid?
+  size_t len = valid ? range_size(rng) : 0;
+
+  // A NULL buffer is used for a length query when there is no room for any text
+  int rval = vsnprintf(len > 1 ? rng->start : NULL, len > 1 ? len : 0, fmt, args);
+
+  if(rval >= 0) {
+    if((size_t)rval < len) { // Success
+      rng->start += rval;
+      *rng->start = '\0';
+    } else { // Truncated
+      if(valid)
+        *rng->start = '\0'; // Wipe partial string
 
+      rval = -rval;
+    }
   }
 
   return rval;
@@ -508,6 +488,20 @@ int range_cat_char_no_nul(AppendRange *rng, char ch) {
 }
 
 
+// Format an integer backwards from the end of a buffer
+static char *format_uint(char *buf_end, uint32_t n) {
+  char *pos = buf_end;
+
+  *pos = '\0';
+  do {
+    *--pos = (char)(n % 10) + '0';
+    n /= 10;
+  } while(n);
+
+  return pos;
+}
+
+
 /*
 Concatenate an unsigned integer to a range
 
@@ -523,21 +517,8 @@ Returns:
   Number of bytes needed if negative
 */
 int range_cat_uint(AppendRange *rng, uint32_t n) {
-  if(n == 0)
-    return range_cat_char(rng, '0');
-
   char buf[10+1]; // log10(2^32) --> 10 digits max
-  char *pos = &buf[9];
-  buf[10] = '\0';
-
-  while(n) {
-    char digit = (char)(n % 10) + '0';
-    n /= 10;
-    *pos-- = digit;
-  }
-  pos++;
-
-  return range_cat_str(rng, pos);
+  return range_cat_str(rng, format_uint(&buf[10], n));
 }
 
 
@@ -556,18 +537,49 @@ Returns:
   Number of bytes needed if negative
 */
 int range_cat_int(AppendRange *rng, int32_t n) {
-  int s_chars = 0;
+  char buf[1+10+1]; // Sign and 10 digits max
   uint32_t magnitude = (uint32_t)n;
-  if(n < 0) {
+  if(n < 0)
     magnitude = -magnitude; // Unsigned negation is defined for INT_MIN
-    s_chars = range_cat_char(rng, '-');
+
+  char *pos = format_uint(&buf[1+10], magnitude);
+  if(n < 0)
+    *--pos = '-';
+
+  return range_cat_str(rng, pos);
+}
+
+
+// Append a fixed point number rounded to the nearest value with frac_digits decimal places
+static int cat_fixed(AppendRange *rng, bool negative, unsigned long value, unsigned scale,
+                     unsigned frac_digits, signed pad_digits) {
+  char buf[1+20+1+9+1]; // Sign, integer, point and fraction
+  unsigned long integer = value / scale;
+  uint64_t scale_b10 = 1;
+
+  if(frac_digits > 9) // Limit to what fits in 32-bits
+    frac_digits = 9;
+
+  for(unsigned i = 0; i < frac_digits; i++) {
+    scale_b10 *= 10;
+  }
+
+  // Convert fraction to base-10 rounded to +/- infinity
+  uint64_t frac = ((value % scale) * scale_b10 + scale/2) / scale;
+  if(frac >= scale_b10) { // Rounded into integer
+    integer++;
+    frac = 0;
   }
 
-  int n_chars = range_cat_uint(rng, magnitude);
-  if(n_chars < 0 && s_chars > 0)
-    s_chars = -s_chars;
+  if(integer == 0 && frac == 0)
+    negative = false;
 
-  return s_chars + n_chars;
+  if(frac_digits > 0)
+    snprintf(buf, sizeof buf, "%s%lu.%0*lu", negative ? "-" : "", integer, (int)frac_digits, (unsigned long)frac);
+  else
+    snprintf(buf, sizeof buf, "%s%lu", negative ? "-" : "", integer);
+
+  return range_cat_fmt(rng, "%*s", pad_digits, buf);
 }
 
 
@@ -587,110 +599,15 @@ Returns:
 */
 int range_cat_ufixed_padded(AppendRange *rng, unsigned value, unsigned scale, unsigned places,
                             signed pad_digits) {
-  unsigned integer = value / scale;
-  unsigned frac = value % scale;
-  int status = 0;
-  int len;
-
-  // Give ourselves an extra digit for initial rounding
-  unsigned scale_b10_digits = base10_digits(scale) + 1;
+  // Decimal places that can be represented by scale
+  unsigned frac_digits = base10_digits(scale) - 1;
+  if(frac_digits < 1)
+    frac_digits = 1;
 
-  // get 10 ^ (base10_digits(scale)+1)
-  unsigned scale_b10 = 1;
-  for(unsigned i = 0; i < scale_b10_digits-1; i++) {
-    scale_b10 *= 10;
-  }
+  if(frac_digits > places)
+    frac_digits = places;
 
-  // Convert fraction to base-10
-  frac = frac * scale_b10 / scale;
-
-  // Round up and remove extra digit
-  frac = (frac + 5) / 10;
-  scale_b10 /= 10;  // Set to true base-10 scale
-
-  unsigned frac_digits = scale_b10_digits - 2;  // Remove extra digit for round
-
-  if(places > 0) {
-    // Reduce digits if fraction is larger than requested decimal places
-    while(frac_digits > places+1) { // Initial scale down without rounding
-      frac /= 10;
-      frac_digits--;
-    }
-
-    if(frac_digits > places) { // Final adjust with rounding
-      frac += 5;  // Start round up in last decimal place
-
-      if(frac > scale_b10) { // Rounded into integer
-        integer++;
-        frac = 0; // No fraction part
-        frac_digits = 1;
-
-      } else {  // Finish last adjustment
-        frac /= 10;
-        frac_digits--;
-      }
-    }
-
-    status = 0;
-    if(pad_digits > 0) { // Handle right justification here
-      // Get length of formatted string
-      len = snprintf(NULL, 0, "%u.%0*u", integer, frac_digits, frac);
-
-      if(pad_digits > len) {
-        pad_digits -= len;
-
-        for(int i = 0; i < pad_digits; i++) {
-          if(range_cat_char(rng, ' ') < 0) {
-            status = -pad_digits;
-            break;
-          }
-          status++;
-        }
-      }
-    }
-
-    if(status >= 0) { // Padding was ok
-      len = range_cat_fmt(rng, "%u.%0*u", integer, frac_digits, frac);
-      if(len >= 0)
-        status += len;
-      else // Won't fit
-        status = -status + len;
-    }
-
-  } else {  // places == 0; No fraction part
-    // Check for rounding into integer
-    if(frac + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
-      integer++;
-
-    // Handle right justification here
-    int justify = (pad_digits < 0) ? 0 : pad_digits;
-    status = range_cat_fmt(rng, "%*u", justify, integer);
-  }
-
-  if(pad_digits < 0) {
-    if(status >= 0) {  // Left justify by padding on right
-      len = 0;
-      for(int i = pad_digits; i < 0; i++) {
-        if(range_cat_char(rng, ' ') < 0) {
-          len = pad_digits;
-          break;
-        }
-
-        len++;
-      }
-
-      if(len >= 0)
-        status += len;
-      else  // Won't fit
-        status = -status + len;
-
-    } else { // Number didn't fit
-      if(pad_digits < status) // Both are negative
-        status = pad_digits;
-    }
-  }
-
-  return status;
+  return cat_fixed(rng, false, value, scale, frac_digits, pad_digits);
 }
 
 
@@ -710,84 +627,18 @@ Returns:
 */
 int range_cat_fixed_padded(AppendRange *rng, long value, unsigned fp_scale, int frac_places,
                             signed pad_digits) {
+  // Decimal places needed to represent fp_scale. When it is already a power of 10 we don't
+  // want an extra digit so decrement when taking log.
+  int frac_digits = (fp_scale > 1) ? base10_digits(fp_scale-1) : 0;
 
-  long integer;
-  long frac;
-
-  int frac_digits = to_fixed_base10_parts(value, fp_scale, &integer, &frac);
-  if(frac_places >= 0)  // Rescale
-    frac_digits = fixed_base10_adjust(&integer, &frac, frac_digits, frac_places);
-
-  if(frac < 0) frac = -frac;
-
-  // Convert exponent to scaling
-  int scale_b10 = 1;
-  for(int i = 0; i < frac_digits; i++) {
-    scale_b10 *= 10;
-  }
-
-  int status = 0;
-  int len;
-
-  // Apply justification padding
-  if(frac_digits > 0) {
-    status = 0;
-    if(pad_digits > 0) { // Handle right justification here (Padding on left side)
-      // Get length of formatted string
-      len = snprintf(NULL, 0, "%ld.%0*ld", integer, frac_digits, frac);
-
-      if(pad_digits > len) {
-        pad_digits -= len;
-
-        for(int i = 0; i < pad_digits; i++) { // Add padding
-          if(range_cat_char(rng, ' ') < 0) {
-            status = -pad_digits;
-            break;
-          }
-          status++;
-        }
-      }
-    }
-
-    if(status >= 0) { // Left padding was ok
-      len = range_cat_fmt(rng, "%ld.%0*ld", integer, frac_digits, frac);
-      if(len >= 0)
-        status += len;
-      else // Won't fit
-        status = -status + len;
-    }
-
-  } else {  // No fraction part
-    // Handle right justification here (Padding on left side)
-    int justify = (pad_digits < 0) ? 0 : pad_digits;
-    status = range_cat_fmt(rng, "%*ld", justify, integer);
-  }
+  if(frac_places >= 0 && frac_digits > frac_places)
+    frac_digits = frac_places;
 
-  if(pad_digits < 0) {
-    pad_digits = -pad_digits;
-    if(status >= 0 && pad_digits > status) {  // Left justify by padding on right
-      len = 0;
-      for(int i = status - pad_digits; i < 0; i++) {
-        if(range_cat_char(rng, ' ') < 0) {
-          len = status - pad_digits;
-          break;
-        }
-
-        len++;
-      }
-
-      if(len >= 0)
-        status += len;
-      else  // Won't fit
-        status = -status + len;
-
-    } else { // Number didn't fit
-      if(pad_digits < status) // Both are negative
-        status = pad_digits;
-    }
-  }
+  unsigned long magnitude = value;
+  if(value < 0)
+    magnitude = -magnitude; // Unsigned negation is defined for LONG_MIN
 
-  return status;
+  return cat_fixed(rng, value < 0, magnitude, fp_scale > 1 ? fp_scale : 1, frac_digits, pad_digits);
 }
 
 
-- 
2.43.0


From 15130696f29c7b587954d1834280778416287093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:36 +0000
Subject: [PATCH 58/71] fix: remove a new rotate container when it cannot be
 opened

---
 src/shim_rotate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 80f61a7..3e90d24 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1381,6 +1381,8 @@ static const EvfsDirMethods s_rotate_dir_methods = {
 // ******************** FS access methods ********************
 
 
+static int rotate__delete(Evfs *vfs, const char *path);
+
 static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   RotateFile *fil = (RotateFile *)fh;
   RotateData *shim_data = (RotateData *)vfs->fs_data;
@@ -1418,9 +1420,13 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     else if(!exists) // Create new container
       status = init_rotate_container(base_vfs, path, &shim_data->cfg);
 
-    if(status == EVFS_OK)
+    if(status == EVFS_OK) {
       status = open_rotate_container(vfs, path, fil, flags);
 
+      if(status != EVFS_OK && !exists) // Don't leave a new container behind
+        rotate__delete(vfs, path);
+    }
+
   }
 
   if(status == EVFS_OK) {
-- 
2.43.0


From 7e632d766f8715ca615c68a7bb6dbda7f68dc807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 59/71] fix: evfs_vfs_path_absolute: an overlapping relative
 path is joined to one working directory

---
 src/evfs_path.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index f611696..4666a42 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -540,9 +540,8 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
     path:       [rpp0]
     absolute:   [rpp0...........]
 
-    Get CWD:    [rpp0cccc0......]  (This step gives us CWD len)
-    Move path:  [r.....pp0......]
-    Get CWD:    [rcccc0pp0......]
+    Get CWD:    [rpp0cccc0......]
+    Swap:       [rcccc0pp0......]
     Add sep:    [rcccc/pp0......]
     Normalize:  [rcc/pp0........]
 
@@ -635,6 +634,14 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
   return rval;
 }
 
+static void reverse_bytes(char *start, size_t len) {
+  for(char *end = start + len; start < end && start < --end; start++) {
+    char temp = *start;
+    *start = *end;
+    *end = temp;
+  }
+}
+
 // Construct absolute path that overlaps relative input path
 static int path_absolute_from_rel_overlap(Evfs *vfs, const char *path, StringRange *absolute) {
 /*
@@ -642,9 +649,8 @@ static int path_absolute_from_rel_overlap(Evfs *vfs, const char *path, StringRan
     path:       [rpp0]
     absolute:   [rpp0...........]
 
-    Get CWD:    [rpp0cccc0......]  (This step gives us CWD len)
-    Move path:  [r.....pp0......]
-    Get CWD:    [rcccc0pp0......]
+    Get CWD:    [rpp0cccc0......]
+    Swap:       [rcccc0pp0......]
     Add sep:    [rcccc/pp0......]
     Normalize:  [rcc/pp0........]
 */
@@ -683,17 +689,14 @@ static int path_absolute_from_rel_overlap(Evfs *vfs, const char *path, StringRan
 
   size_t cwd_len = range_strlen((StringRange *)&cwd_r);
 
-  // Move path
-  memmove(path_start + cwd_len+1, path_start, path_len+1);
-  range_init(&cwd_r, path_start, cwd_len+1); // Change CWD to newly opened gap at start
-
-  // Get current directory
-  rval = vfs->m_get_cur_dir(vfs, (StringRange *)&cwd_r);
-  if(rval != EVFS_OK)
-    return rval;
+  // Swap path and CWD. Getting the CWD again could return a different one when
+  // another thread changes it.
+  reverse_bytes(path_start, path_len+1);
+  reverse_bytes(path_start + path_len+1, cwd_len+1);
+  reverse_bytes(path_start, path_len+1 + cwd_len+1);
 
   // Add sep
-  *(cwd_r.end-1) = EVFS_DIR_SEP; // Overwrite the NUL in CWD
+  path_start[cwd_len] = EVFS_DIR_SEP; // Overwrite the NUL in CWD
 
   /*
   Current dir may have a DOS-style drive letter
-- 
2.43.0


From 6c9a4bf32fdcd7bed4956636f222dbe754370041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 60/71] fix: handle every overlap between a path and its
 absolute form

---
 src/evfs_path.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 4666a42..63dbd98 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -498,9 +498,23 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
   if(ASSERT(range_size(absolute) <= EVFS_MAX_PATH, "Absolute range too long")) return EVFS_ERR_OVERFLOW;
 #endif
 
+  // Test for overlap
+  const char *path_end = path + strlen(path)+1;
+  bool overlap = absolute->start < path_end && absolute->end > path;
+
   // Check if already absolute
-  if(evfs_vfs_path_is_absolute(vfs, path))
+  if(evfs_vfs_path_is_absolute(vfs, path)) {
+    // Normalizing in place can't write ahead of the position it reads from
+    if(overlap && path < absolute->start) {
+      if(path_end - path > range_size(absolute)) // Give up if we can't fit
+        return EVFS_ERR_OVERFLOW;
+
+      memmove((char *)absolute->start, path, path_end - path);
+      path = absolute->start;
+    }
+
     return evfs_vfs_path_normalize(vfs, path, absolute); // Just apply normalization
+  }
 
   /*
   Join relative path to current directory and normalize:
@@ -547,9 +561,7 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
 
   */
 
-  // Test for overlap
-  const char *path_end = path + strlen(path)+1;
-  if(absolute->start < path_end && absolute->end >= path_end) // Overlap with absolute
+  if(overlap) // Overlap with absolute
     return path_absolute_from_rel_overlap(vfs, path, absolute);
 
 
@@ -663,10 +675,10 @@ static int path_absolute_from_rel_overlap(Evfs *vfs, const char *path, StringRan
   We don't want to deal with this scenario below so just move path to align
   with absolute.
   */
-  if(path != absolute->start) {
-    if(path_len+1 > (size_t)range_size(absolute)) // Give up if we can't fit
-      return EVFS_ERR_OVERFLOW;
+  if(path_len+1 > (size_t)range_size(absolute)) // Give up if we can't fit
+    return EVFS_ERR_OVERFLOW;
 
+  if(path != absolute->start) {
     memmove((char *)absolute->start, path, path_len+1);
     path = absolute->start;
   }
-- 
2.43.0


From ca515d23e2f90441bbd1ab73c8c1c84e66306d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 61/71] fix: jail: both paths of a rename use one working
 directory

---
 src/shim_jail.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index e1046d1..2521e7f 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -460,12 +460,15 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, full_path))
       return EVFS_ERR_NO_PATH;
 
-    // Overwrite old cur_dir unless another thread has moved a relative base
+    // Overwrite old cur_dir unless another thread has moved a relative base.
+    // The jail lock keeps it in place while an operation converts two paths.
+    LOCK();
     CWD_LOCK();
     changed = !is_absolute && strcmp(old_dir, shim_data->cur_dir) != 0;
     if(!changed)
       strcpy(shim_data->cur_dir, new_dir);
     CWD_UNLOCK();
+    UNLOCK();
   } while(changed);
 
   return EVFS_OK;
-- 
2.43.0


From f22f15aa00aa3e076e1b1cc4deff8ae5cf0e5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 62/71] fix: fatfs images: timestamps before 1980 and after
 2043

---
 src/fatfs_image.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 4a0162b..90ce876 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -299,7 +299,10 @@ DWORD get_fattime(void) {
   time(&now_secs);
   localtime_r(&now_secs, &now);
 
-  DWORD fat_time = ((now.tm_year-80) << 25) | ((now.tm_mon+1) << 21) |
+  if(now.tm_year < 80)  // FAT timestamps start in 1980
+    return (1ul << 21) | (1ul << 16);
+
+  DWORD fat_time = ((DWORD)(now.tm_year-80) << 25) | ((now.tm_mon+1) << 21) |
     (now.tm_mday << 16) | (now.tm_hour << 11) |
     (now.tm_min << 5) | (now.tm_sec >> 1);
 
-- 
2.43.0


From 2fbaf37f9eb7b95068b09b058fe78583bf350a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 63/71] fix: fatfs: directory listings account for daylight
 saving time

---
 src/fatfs_fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 6a1f37c..6dd2ed0 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -418,6 +418,8 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
     mtime.tm_hour = dir->info.ftime & 0x1F;
 
+    mtime.tm_isdst = -1; // FAT has local time with any daylight saving time applied
+
     info->mtime = mktime(&mtime);
 
   } else { // End of entries
-- 
2.43.0


From 5427c496651b687bdf69bab7b026a1043e33e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 64/71] fix: stdio: sizes and positions beyond the offset type
 are errors

---
 src/stdio_fs.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index d03ece7..1ff608b 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -183,6 +183,7 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
   if(fstat(fileno(fil->fp), &s) != 0)
     return EVFS_ERR_IO;
 
+  if((evfs_off_t)s.st_size != s.st_size) return EVFS_ERR_OVERFLOW;
   return s.st_size;
 #else
 
@@ -216,7 +217,11 @@ static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
 
 static evfs_off_t stdio__file_tell(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  return ftell(fil->fp);
+  long pos = ftell(fil->fp);
+
+  if(pos < 0) return EVFS_ERR_IO;
+  if((evfs_off_t)pos != pos) return EVFS_ERR_OVERFLOW;
+  return pos;
 }
 
 static bool stdio__file_eof(EvfsFile *fh) {
@@ -224,8 +229,8 @@ static bool stdio__file_eof(EvfsFile *fh) {
   if(feof(fil->fp)) return true;
 
   // feof() is only set after an attempt to read past the end
-  evfs_off_t pos = evfs_file_tell(fh);
-  return pos >= 0 && pos >= evfs_file_size(fh);
+  evfs_off_t size = evfs_file_size(fh);
+  return size >= 0 && evfs_file_tell(fh) >= size;
 }
 
 
@@ -392,6 +397,8 @@ static int stdio__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   memset(info, 0, sizeof(*info));
 
   if(err == 0) {
+    if((evfs_off_t)s.st_size != s.st_size) return EVFS_ERR_OVERFLOW;
+
     info->size = s.st_size;
     info->mtime = s.st_mtime;
 
-- 
2.43.0


From 7547561d846fd7408fe0670efb7b8e3bb1f24440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 65/71] fix: fatfs: keep the line endings of ff.c as they were

---
 libraries/fatfs/source/ff.c | 13986 +++++++++++++++++-----------------
 1 file changed, 6993 insertions(+), 6993 deletions(-)

diff --git a/libraries/fatfs/source/ff.c b/libraries/fatfs/source/ff.c
index 935a38f..cbfd2d2 100644
--- a/libraries/fatfs/source/ff.c
+++ b/libraries/fatfs/source/ff.c
@@ -1,6993 +1,6993 @@
-/*----------------------------------------------------------------------------/
-/  FatFs - Generic FAT Filesystem Module  R0.14b                              /
-/-----------------------------------------------------------------------------/
-/
-/ Copyright (C) 2021, ChaN, all right reserved.
-/
-/ FatFs module is an open source software. Redistribution and use of FatFs in
-/ source and binary forms, with or without modification, are permitted provided
-/ that the following condition is met:
-/
-/ 1. Redistributions of source code must retain the above copyright notice,
-/    this condition and the following disclaimer.
-/
-/ This software is provided by the copyright holder and contributors "AS IS"
-/ and any warranties related to this software are DISCLAIMED.
-/ The copyright owner or contributors be NOT LIABLE for any damages caused
-/ by use of this software.
-/
-/----------------------------------------------------------------------------*/
-
-
-#include <string.h>
-#include "ff.h"			/* Declarations of FatFs API */
-#include "diskio.h"		/* Declarations of device I/O functions */
-
-
-/*--------------------------------------------------------------------------
-
-   Module Private Definitions
-
----------------------------------------------------------------------------*/
-
-#if FF_DEFINED != 86631	/* Revision ID */
-#error Wrong include file (ff.h).
-#endif
-
-
-/* Limits and boundaries */
-#define MAX_DIR		0x200000		/* Max size of FAT directory */
-#define MAX_DIR_EX	0x10000000		/* Max size of exFAT directory */
-#define MAX_FAT12	0xFF5			/* Max FAT12 clusters (differs from specs, but right for real DOS/Windows behavior) */
-#define MAX_FAT16	0xFFF5			/* Max FAT16 clusters (differs from specs, but right for real DOS/Windows behavior) */
-#define MAX_FAT32	0x0FFFFFF5		/* Max FAT32 clusters (not specified, practical limit) */
-#define MAX_EXFAT	0x7FFFFFFD		/* Max exFAT clusters (differs from specs, implementation limit) */
-
-
-/* Character code support macros */
-#define IsUpper(c)		((c) >= 'A' && (c) <= 'Z')
-#define IsLower(c)		((c) >= 'a' && (c) <= 'z')
-#define IsDigit(c)		((c) >= '0' && (c) <= '9')
-#define IsSeparator(c)	((c) == '/' || (c) == '\\')
-#define IsTerminator(c)	((UINT)(c) < (FF_USE_LFN ? ' ' : '!'))
-#define IsSurrogate(c)	((c) >= 0xD800 && (c) <= 0xDFFF)
-#define IsSurrogateH(c)	((c) >= 0xD800 && (c) <= 0xDBFF)
-#define IsSurrogateL(c)	((c) >= 0xDC00 && (c) <= 0xDFFF)
-
-
-/* Additional file access control and file status flags for internal use */
-#define FA_SEEKEND	0x20	/* Seek to end of the file on file open */
-#define FA_MODIFIED	0x40	/* File has been modified */
-#define FA_DIRTY	0x80	/* FIL.buf[] needs to be written-back */
-
-
-/* Additional file attribute bits for internal use */
-#define AM_VOL		0x08	/* Volume label */
-#define AM_LFN		0x0F	/* LFN entry */
-#define AM_MASK		0x3F	/* Mask of defined bits in FAT */
-#define AM_MASKX	0x37	/* Mask of defined bits in exFAT */
-
-
-/* Name status flags in fn[11] */
-#define NSFLAG		11		/* Index of the name status byte */
-#define NS_LOSS		0x01	/* Out of 8.3 format */
-#define NS_LFN		0x02	/* Force to create LFN entry */
-#define NS_LAST		0x04	/* Last segment */
-#define NS_BODY		0x08	/* Lower case flag (body) */
-#define NS_EXT		0x10	/* Lower case flag (ext) */
-#define NS_DOT		0x20	/* Dot entry */
-#define NS_NOLFN	0x40	/* Do not find LFN */
-#define NS_NONAME	0x80	/* Not followed */
-
-
-/* exFAT directory entry types */
-#define	ET_BITMAP	0x81	/* Allocation bitmap */
-#define	ET_UPCASE	0x82	/* Up-case table */
-#define	ET_VLABEL	0x83	/* Volume label */
-#define	ET_FILEDIR	0x85	/* File and directory */
-#define	ET_STREAM	0xC0	/* Stream extension */
-#define	ET_FILENAME	0xC1	/* Name extension */
-
-
-/* FatFs refers the FAT structure as simple byte array instead of structure member
-/ because the C structure is not binary compatible between different platforms */
-
-#define BS_JmpBoot			0		/* x86 jump instruction (3-byte) */
-#define BS_OEMName			3		/* OEM name (8-byte) */
-#define BPB_BytsPerSec		11		/* Sector size [byte] (WORD) */
-#define BPB_SecPerClus		13		/* Cluster size [sector] (BYTE) */
-#define BPB_RsvdSecCnt		14		/* Size of reserved area [sector] (WORD) */
-#define BPB_NumFATs			16		/* Number of FATs (BYTE) */
-#define BPB_RootEntCnt		17		/* Size of root directory area for FAT [entry] (WORD) */
-#define BPB_TotSec16		19		/* Volume size (16-bit) [sector] (WORD) */
-#define BPB_Media			21		/* Media descriptor byte (BYTE) */
-#define BPB_FATSz16			22		/* FAT size (16-bit) [sector] (WORD) */
-#define BPB_SecPerTrk		24		/* Number of sectors per track for int13h [sector] (WORD) */
-#define BPB_NumHeads		26		/* Number of heads for int13h (WORD) */
-#define BPB_HiddSec			28		/* Volume offset from top of the drive (DWORD) */
-#define BPB_TotSec32		32		/* Volume size (32-bit) [sector] (DWORD) */
-#define BS_DrvNum			36		/* Physical drive number for int13h (BYTE) */
-#define BS_NTres			37		/* WindowsNT error flag (BYTE) */
-#define BS_BootSig			38		/* Extended boot signature (BYTE) */
-#define BS_VolID			39		/* Volume serial number (DWORD) */
-#define BS_VolLab			43		/* Volume label string (8-byte) */
-#define BS_FilSysType		54		/* Filesystem type string (8-byte) */
-#define BS_BootCode			62		/* Boot code (448-byte) */
-#define BS_55AA				510		/* Signature word (WORD) */
-
-#define BPB_FATSz32			36		/* FAT32: FAT size [sector] (DWORD) */
-#define BPB_ExtFlags32		40		/* FAT32: Extended flags (WORD) */
-#define BPB_FSVer32			42		/* FAT32: Filesystem version (WORD) */
-#define BPB_RootClus32		44		/* FAT32: Root directory cluster (DWORD) */
-#define BPB_FSInfo32		48		/* FAT32: Offset of FSINFO sector (WORD) */
-#define BPB_BkBootSec32		50		/* FAT32: Offset of backup boot sector (WORD) */
-#define BS_DrvNum32			64		/* FAT32: Physical drive number for int13h (BYTE) */
-#define BS_NTres32			65		/* FAT32: Error flag (BYTE) */
-#define BS_BootSig32		66		/* FAT32: Extended boot signature (BYTE) */
-#define BS_VolID32			67		/* FAT32: Volume serial number (DWORD) */
-#define BS_VolLab32			71		/* FAT32: Volume label string (8-byte) */
-#define BS_FilSysType32		82		/* FAT32: Filesystem type string (8-byte) */
-#define BS_BootCode32		90		/* FAT32: Boot code (420-byte) */
-
-#define BPB_ZeroedEx		11		/* exFAT: MBZ field (53-byte) */
-#define BPB_VolOfsEx		64		/* exFAT: Volume offset from top of the drive [sector] (QWORD) */
-#define BPB_TotSecEx		72		/* exFAT: Volume size [sector] (QWORD) */
-#define BPB_FatOfsEx		80		/* exFAT: FAT offset from top of the volume [sector] (DWORD) */
-#define BPB_FatSzEx			84		/* exFAT: FAT size [sector] (DWORD) */
-#define BPB_DataOfsEx		88		/* exFAT: Data offset from top of the volume [sector] (DWORD) */
-#define BPB_NumClusEx		92		/* exFAT: Number of clusters (DWORD) */
-#define BPB_RootClusEx		96		/* exFAT: Root directory start cluster (DWORD) */
-#define BPB_VolIDEx			100		/* exFAT: Volume serial number (DWORD) */
-#define BPB_FSVerEx			104		/* exFAT: Filesystem version (WORD) */
-#define BPB_VolFlagEx		106		/* exFAT: Volume flags (WORD) */
-#define BPB_BytsPerSecEx	108		/* exFAT: Log2 of sector size in unit of byte (BYTE) */
-#define BPB_SecPerClusEx	109		/* exFAT: Log2 of cluster size in unit of sector (BYTE) */
-#define BPB_NumFATsEx		110		/* exFAT: Number of FATs (BYTE) */
-#define BPB_DrvNumEx		111		/* exFAT: Physical drive number for int13h (BYTE) */
-#define BPB_PercInUseEx		112		/* exFAT: Percent in use (BYTE) */
-#define BPB_RsvdEx			113		/* exFAT: Reserved (7-byte) */
-#define BS_BootCodeEx		120		/* exFAT: Boot code (390-byte) */
-
-#define DIR_Name			0		/* Short file name (11-byte) */
-#define DIR_Attr			11		/* Attribute (BYTE) */
-#define DIR_NTres			12		/* Lower case flag (BYTE) */
-#define DIR_CrtTime10		13		/* Created time sub-second (BYTE) */
-#define DIR_CrtTime			14		/* Created time (DWORD) */
-#define DIR_LstAccDate		18		/* Last accessed date (WORD) */
-#define DIR_FstClusHI		20		/* Higher 16-bit of first cluster (WORD) */
-#define DIR_ModTime			22		/* Modified time (DWORD) */
-#define DIR_FstClusLO		26		/* Lower 16-bit of first cluster (WORD) */
-#define DIR_FileSize		28		/* File size (DWORD) */
-#define LDIR_Ord			0		/* LFN: LFN order and LLE flag (BYTE) */
-#define LDIR_Attr			11		/* LFN: LFN attribute (BYTE) */
-#define LDIR_Type			12		/* LFN: Entry type (BYTE) */
-#define LDIR_Chksum			13		/* LFN: Checksum of the SFN (BYTE) */
-#define LDIR_FstClusLO		26		/* LFN: MBZ field (WORD) */
-#define XDIR_Type			0		/* exFAT: Type of exFAT directory entry (BYTE) */
-#define XDIR_NumLabel		1		/* exFAT: Number of volume label characters (BYTE) */
-#define XDIR_Label			2		/* exFAT: Volume label (11-WORD) */
-#define XDIR_CaseSum		4		/* exFAT: Sum of case conversion table (DWORD) */
-#define XDIR_NumSec			1		/* exFAT: Number of secondary entries (BYTE) */
-#define XDIR_SetSum			2		/* exFAT: Sum of the set of directory entries (WORD) */
-#define XDIR_Attr			4		/* exFAT: File attribute (WORD) */
-#define XDIR_CrtTime		8		/* exFAT: Created time (DWORD) */
-#define XDIR_ModTime		12		/* exFAT: Modified time (DWORD) */
-#define XDIR_AccTime		16		/* exFAT: Last accessed time (DWORD) */
-#define XDIR_CrtTime10		20		/* exFAT: Created time subsecond (BYTE) */
-#define XDIR_ModTime10		21		/* exFAT: Modified time subsecond (BYTE) */
-#define XDIR_CrtTZ			22		/* exFAT: Created timezone (BYTE) */
-#define XDIR_ModTZ			23		/* exFAT: Modified timezone (BYTE) */
-#define XDIR_AccTZ			24		/* exFAT: Last accessed timezone (BYTE) */
-#define XDIR_GenFlags		33		/* exFAT: General secondary flags (BYTE) */
-#define XDIR_NumName		35		/* exFAT: Number of file name characters (BYTE) */
-#define XDIR_NameHash		36		/* exFAT: Hash of file name (WORD) */
-#define XDIR_ValidFileSize	40		/* exFAT: Valid file size (QWORD) */
-#define XDIR_FstClus		52		/* exFAT: First cluster of the file data (DWORD) */
-#define XDIR_FileSize		56		/* exFAT: File/Directory size (QWORD) */
-
-#define SZDIRE				32		/* Size of a directory entry */
-#define DDEM				0xE5	/* Deleted directory entry mark set to DIR_Name[0] */
-#define RDDEM				0x05	/* Replacement of the character collides with DDEM */
-#define LLEF				0x40	/* Last long entry flag in LDIR_Ord */
-
-#define FSI_LeadSig			0		/* FAT32 FSI: Leading signature (DWORD) */
-#define FSI_StrucSig		484		/* FAT32 FSI: Structure signature (DWORD) */
-#define FSI_Free_Count		488		/* FAT32 FSI: Number of free clusters (DWORD) */
-#define FSI_Nxt_Free		492		/* FAT32 FSI: Last allocated cluster (DWORD) */
-
-#define MBR_Table			446		/* MBR: Offset of partition table in the MBR */
-#define SZ_PTE				16		/* MBR: Size of a partition table entry */
-#define PTE_Boot			0		/* MBR PTE: Boot indicator */
-#define PTE_StHead			1		/* MBR PTE: Start head */
-#define PTE_StSec			2		/* MBR PTE: Start sector */
-#define PTE_StCyl			3		/* MBR PTE: Start cylinder */
-#define PTE_System			4		/* MBR PTE: System ID */
-#define PTE_EdHead			5		/* MBR PTE: End head */
-#define PTE_EdSec			6		/* MBR PTE: End sector */
-#define PTE_EdCyl			7		/* MBR PTE: End cylinder */
-#define PTE_StLba			8		/* MBR PTE: Start in LBA */
-#define PTE_SizLba			12		/* MBR PTE: Size in LBA */
-
-#define GPTH_Sign			0		/* GPT: Header signature (8-byte) */
-#define GPTH_Rev			8		/* GPT: Revision (DWORD) */
-#define GPTH_Size			12		/* GPT: Header size (DWORD) */
-#define GPTH_Bcc			16		/* GPT: Header BCC (DWORD) */
-#define GPTH_CurLba			24		/* GPT: Main header LBA (QWORD) */
-#define GPTH_BakLba			32		/* GPT: Backup header LBA (QWORD) */
-#define GPTH_FstLba			40		/* GPT: First LBA for partitions (QWORD) */
-#define GPTH_LstLba			48		/* GPT: Last LBA for partitions (QWORD) */
-#define GPTH_DskGuid		56		/* GPT: Disk GUID (16-byte) */
-#define GPTH_PtOfs			72		/* GPT: Partation table LBA (QWORD) */
-#define GPTH_PtNum			80		/* GPT: Number of table entries (DWORD) */
-#define GPTH_PteSize		84		/* GPT: Size of table entry (DWORD) */
-#define GPTH_PtBcc			88		/* GPT: Partation table BCC (DWORD) */
-#define SZ_GPTE				128		/* GPT: Size of partition table entry */
-#define GPTE_PtGuid			0		/* GPT PTE: Partition type GUID (16-byte) */
-#define GPTE_UpGuid			16		/* GPT PTE: Partition unique GUID (16-byte) */
-#define GPTE_FstLba			32		/* GPT PTE: First LBA (QWORD) */
-#define GPTE_LstLba			40		/* GPT PTE: Last LBA inclusive (QWORD) */
-#define GPTE_Flags			48		/* GPT PTE: Flags (QWORD) */
-#define GPTE_Name			56		/* GPT PTE: Name */
-
-
-/* Post process on fatal error in the file operations */
-#define ABORT(fs, res)		{ fp->err = (BYTE)(res); LEAVE_FF(fs, res); }
-
-
-/* Re-entrancy related */
-#if FF_FS_REENTRANT
-#if FF_USE_LFN == 1
-#error Static LFN work area cannot be used in thread-safe configuration
-#endif
-#define LEAVE_FF(fs, res)	{ unlock_fs(fs, res); return res; }
-#else
-#define LEAVE_FF(fs, res)	return res
-#endif
-
-
-/* Definitions of logical drive - physical location conversion */
-#if FF_MULTI_PARTITION
-#define LD2PD(vol) VolToPart[vol].pd	/* Get physical drive number */
-#define LD2PT(vol) VolToPart[vol].pt	/* Get partition number (0:auto search, 1..:forced partition number) */
-#else
-#define LD2PD(vol) (BYTE)(vol)	/* Each logical drive is associated with the same physical drive number */
-#define LD2PT(vol) 0			/* Auto partition search */
-#endif
-
-
-/* Definitions of sector size */
-#if (FF_MAX_SS < FF_MIN_SS) || (FF_MAX_SS != 512 && FF_MAX_SS != 1024 && FF_MAX_SS != 2048 && FF_MAX_SS != 4096) || (FF_MIN_SS != 512 && FF_MIN_SS != 1024 && FF_MIN_SS != 2048 && FF_MIN_SS != 4096)
-#error Wrong sector size configuration
-#endif
-#if FF_MAX_SS == FF_MIN_SS
-#define SS(fs)	((UINT)FF_MAX_SS)	/* Fixed sector size */
-#else
-#define SS(fs)	((fs)->ssize)	/* Variable sector size */
-#endif
-
-
-/* Timestamp */
-#if FF_FS_NORTC == 1
-#if FF_NORTC_YEAR < 1980 || FF_NORTC_YEAR > 2107 || FF_NORTC_MON < 1 || FF_NORTC_MON > 12 || FF_NORTC_MDAY < 1 || FF_NORTC_MDAY > 31
-#error Invalid FF_FS_NORTC settings
-#endif
-#define GET_FATTIME()	((DWORD)(FF_NORTC_YEAR - 1980) << 25 | (DWORD)FF_NORTC_MON << 21 | (DWORD)FF_NORTC_MDAY << 16)
-#else
-#define GET_FATTIME()	get_fattime()
-#endif
-
-
-/* File lock controls */
-#if FF_FS_LOCK != 0
-#if FF_FS_READONLY
-#error FF_FS_LOCK must be 0 at read-only configuration
-#endif
-typedef struct {
-	FATFS *fs;		/* Object ID 1, volume (NULL:blank entry) */
-	DWORD clu;		/* Object ID 2, containing directory (0:root) */
-	DWORD ofs;		/* Object ID 3, offset in the directory */
-	WORD ctr;		/* Object open counter, 0:none, 0x01..0xFF:read mode open count, 0x100:write mode */
-} FILESEM;
-#endif
-
-
-/* SBCS up-case tables (\x80-\xFF) */
-#define TBL_CT437  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT720  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT737  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x92,0x92,0x93,0x94,0x95,0x96,0x97,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87, \
-					0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0xAA,0x92,0x93,0x94,0x95,0x96, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0x97,0xEA,0xEB,0xEC,0xE4,0xED,0xEE,0xEF,0xF5,0xF0,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT771  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDC,0xDE,0xDE, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFE,0xFF}
-#define TBL_CT775  {0x80,0x9A,0x91,0xA0,0x8E,0x95,0x8F,0x80,0xAD,0xED,0x8A,0x8A,0xA1,0x8D,0x8E,0x8F, \
-					0x90,0x92,0x92,0xE2,0x99,0x95,0x96,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
-					0xA0,0xA1,0xE0,0xA3,0xA3,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xA5,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE3,0xE8,0xE8,0xEA,0xEA,0xEE,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT850  {0x43,0x55,0x45,0x41,0x41,0x41,0x41,0x43,0x45,0x45,0x45,0x49,0x49,0x49,0x41,0x41, \
-					0x45,0x92,0x92,0x4F,0x4F,0x4F,0x55,0x55,0x59,0x4F,0x55,0x4F,0x9C,0x4F,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0x41,0x41,0x41,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0x41,0x41,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD1,0xD1,0x45,0x45,0x45,0x49,0x49,0x49,0x49,0xD9,0xDA,0xDB,0xDC,0xDD,0x49,0xDF, \
-					0x4F,0xE1,0x4F,0x4F,0x4F,0x4F,0xE6,0xE8,0xE8,0x55,0x55,0x55,0x59,0x59,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT852  {0x80,0x9A,0x90,0xB6,0x8E,0xDE,0x8F,0x80,0x9D,0xD3,0x8A,0x8A,0xD7,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x91,0xE2,0x99,0x95,0x95,0x97,0x97,0x99,0x9A,0x9B,0x9B,0x9D,0x9E,0xAC, \
-					0xB5,0xD6,0xE0,0xE9,0xA4,0xA4,0xA6,0xA6,0xA8,0xA8,0xAA,0x8D,0xAC,0xB8,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBD,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC6,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD1,0xD1,0xD2,0xD3,0xD2,0xD5,0xD6,0xD7,0xB7,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE3,0xD5,0xE6,0xE6,0xE8,0xE9,0xE8,0xEB,0xED,0xED,0xDD,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xEB,0xFC,0xFC,0xFE,0xFF}
-#define TBL_CT855  {0x81,0x81,0x83,0x83,0x85,0x85,0x87,0x87,0x89,0x89,0x8B,0x8B,0x8D,0x8D,0x8F,0x8F, \
-					0x91,0x91,0x93,0x93,0x95,0x95,0x97,0x97,0x99,0x99,0x9B,0x9B,0x9D,0x9D,0x9F,0x9F, \
-					0xA1,0xA1,0xA3,0xA3,0xA5,0xA5,0xA7,0xA7,0xA9,0xA9,0xAB,0xAB,0xAD,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB6,0xB6,0xB8,0xB8,0xB9,0xBA,0xBB,0xBC,0xBE,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD1,0xD1,0xD3,0xD3,0xD5,0xD5,0xD7,0xD7,0xDD,0xD9,0xDA,0xDB,0xDC,0xDD,0xE0,0xDF, \
-					0xE0,0xE2,0xE2,0xE4,0xE4,0xE6,0xE6,0xE8,0xE8,0xEA,0xEA,0xEC,0xEC,0xEE,0xEE,0xEF, \
-					0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT857  {0x80,0x9A,0x90,0xB6,0x8E,0xB7,0x8F,0x80,0xD2,0xD3,0xD4,0xD8,0xD7,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0xE2,0x99,0xE3,0xEA,0xEB,0x98,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9E, \
-					0xB5,0xD6,0xE0,0xE9,0xA5,0xA5,0xA6,0xA6,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0x49,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xDE,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT860  {0x80,0x9A,0x90,0x8F,0x8E,0x91,0x86,0x80,0x89,0x89,0x92,0x8B,0x8C,0x98,0x8E,0x8F, \
-					0x90,0x91,0x92,0x8C,0x99,0xA9,0x96,0x9D,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x86,0x8B,0x9F,0x96,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT861  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x8B,0x8B,0x8D,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x8D,0x55,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
-					0xA4,0xA5,0xA6,0xA7,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT862  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT863  {0x43,0x55,0x45,0x41,0x41,0x41,0x86,0x43,0x45,0x45,0x45,0x49,0x49,0x8D,0x41,0x8F, \
-					0x45,0x45,0x45,0x4F,0x45,0x49,0x55,0x55,0x98,0x4F,0x55,0x9B,0x9C,0x55,0x55,0x9F, \
-					0xA0,0xA1,0x4F,0x55,0xA4,0xA5,0xA6,0xA7,0x49,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT864  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT865  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
-					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
-					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT866  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
-					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
-#define TBL_CT869  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
-					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x86,0x9C,0x8D,0x8F,0x90, \
-					0x91,0x90,0x92,0x95,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
-					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
-					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
-					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xA4,0xA5,0xA6,0xD9,0xDA,0xDB,0xDC,0xA7,0xA8,0xDF, \
-					0xA9,0xAA,0xAC,0xAD,0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xCF,0xCF,0xD0,0xEF, \
-					0xF0,0xF1,0xD1,0xD2,0xD3,0xF5,0xD4,0xF7,0xF8,0xF9,0xD5,0x96,0x95,0x98,0xFE,0xFF}
-
-
-/* DBCS code range |----- 1st byte -----|  |----------- 2nd byte -----------| */
-/*                  <------>    <------>    <------>    <------>    <------>  */
-#define TBL_DC932 {0x81, 0x9F, 0xE0, 0xFC, 0x40, 0x7E, 0x80, 0xFC, 0x00, 0x00}
-#define TBL_DC936 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0x80, 0xFE, 0x00, 0x00}
-#define TBL_DC949 {0x81, 0xFE, 0x00, 0x00, 0x41, 0x5A, 0x61, 0x7A, 0x81, 0xFE}
-#define TBL_DC950 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0xA1, 0xFE, 0x00, 0x00}
-
-
-/* Macros for table definitions */
-#define MERGE_2STR(a, b) a ## b
-#define MKCVTBL(hd, cp) MERGE_2STR(hd, cp)
-
-
-
-
-/*--------------------------------------------------------------------------
-
-   Module Private Work Area
-
----------------------------------------------------------------------------*/
-/* Remark: Variables defined here without initial value shall be guaranteed
-/  zero/null at start-up. If not, the linker option or start-up routine is
-/  not compliance with C standard. */
-
-/*--------------------------------*/
-/* File/Volume controls           */
-/*--------------------------------*/
-
-#if FF_VOLUMES < 1 || FF_VOLUMES > 10
-#error Wrong FF_VOLUMES setting
-#endif
-static FATFS* FatFs[FF_VOLUMES];	/* Pointer to the filesystem objects (logical drives) */
-static WORD Fsid;					/* Filesystem mount ID */
-
-#if FF_FS_RPATH != 0
-static BYTE CurrVol;				/* Current drive */
-#endif
-
-#if FF_FS_LOCK != 0
-static FILESEM Files[FF_FS_LOCK];	/* Open object lock semaphores */
-#endif
-
-#if FF_STR_VOLUME_ID
-#ifdef FF_VOLUME_STRS
-static const char* const VolumeStr[FF_VOLUMES] = {FF_VOLUME_STRS};	/* Pre-defined volume ID */
-#endif
-#endif
-
-#if FF_LBA64
-#if FF_MIN_GPT > 0x100000000
-#error Wrong FF_MIN_GPT setting
-#endif
-static const BYTE GUID_MS_Basic[16] = {0xA2,0xA0,0xD0,0xEB,0xE5,0xB9,0x33,0x44,0x87,0xC0,0x68,0xB6,0xB7,0x26,0x99,0xC7};
-#endif
-
-
-
-/*--------------------------------*/
-/* LFN/Directory working buffer   */
-/*--------------------------------*/
-
-#if FF_USE_LFN == 0		/* Non-LFN configuration */
-#if FF_FS_EXFAT
-#error LFN must be enabled when enable exFAT
-#endif
-#define DEF_NAMBUF
-#define INIT_NAMBUF(fs)
-#define FREE_NAMBUF()
-#define LEAVE_MKFS(res)	return res
-
-#else					/* LFN configurations */
-#if FF_MAX_LFN < 12 || FF_MAX_LFN > 255
-#error Wrong setting of FF_MAX_LFN
-#endif
-#if FF_LFN_BUF < FF_SFN_BUF || FF_SFN_BUF < 12
-#error Wrong setting of FF_LFN_BUF or FF_SFN_BUF
-#endif
-#if FF_LFN_UNICODE < 0 || FF_LFN_UNICODE > 3
-#error Wrong setting of FF_LFN_UNICODE
-#endif
-static const BYTE LfnOfs[] = {1,3,5,7,9,14,16,18,20,22,24,28,30};	/* FAT: Offset of LFN characters in the directory entry */
-#define MAXDIRB(nc)	((nc + 44U) / 15 * SZDIRE)	/* exFAT: Size of directory entry block scratchpad buffer needed for the name length */
-
-#if FF_USE_LFN == 1		/* LFN enabled with static working buffer */
-#if FF_FS_EXFAT
-static BYTE	DirBuf[MAXDIRB(FF_MAX_LFN)];	/* Directory entry block scratchpad buffer */
-#endif
-static WCHAR LfnBuf[FF_MAX_LFN + 1];		/* LFN working buffer */
-#define DEF_NAMBUF
-#define INIT_NAMBUF(fs)
-#define FREE_NAMBUF()
-#define LEAVE_MKFS(res)	return res
-
-#elif FF_USE_LFN == 2 	/* LFN enabled with dynamic working buffer on the stack */
-#if FF_FS_EXFAT
-#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1]; BYTE dbuf[MAXDIRB(FF_MAX_LFN)];	/* LFN working buffer and directory entry block scratchpad buffer */
-#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; (fs)->dirbuf = dbuf; }
-#define FREE_NAMBUF()
-#else
-#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1];	/* LFN working buffer */
-#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; }
-#define FREE_NAMBUF()
-#endif
-#define LEAVE_MKFS(res)	return res
-
-#elif FF_USE_LFN == 3 	/* LFN enabled with dynamic working buffer on the heap */
-#if FF_FS_EXFAT
-#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer and directory entry block scratchpad buffer */
-#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2 + MAXDIRB(FF_MAX_LFN)); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; (fs)->dirbuf = (BYTE*)(lfn+FF_MAX_LFN+1); }
-#define FREE_NAMBUF()	ff_memfree(lfn)
-#else
-#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer */
-#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; }
-#define FREE_NAMBUF()	ff_memfree(lfn)
-#endif
-#define LEAVE_MKFS(res)	{ if (!work) ff_memfree(buf); return res; }
-#define MAX_MALLOC	0x8000	/* Must be >=FF_MAX_SS */
-
-#else
-#error Wrong setting of FF_USE_LFN
-
-#endif	/* FF_USE_LFN == 1 */
-#endif	/* FF_USE_LFN == 0 */
-
-
-
-/*--------------------------------*/
-/* Code conversion tables         */
-/*--------------------------------*/
-
-#if FF_CODE_PAGE == 0	/* Run-time code page configuration */
-#define CODEPAGE CodePage
-static WORD CodePage;	/* Current code page */
-static const BYTE *ExCvt, *DbcTbl;	/* Pointer to current SBCS up-case table and DBCS code range table below */
-
-static const BYTE Ct437[] = TBL_CT437;
-static const BYTE Ct720[] = TBL_CT720;
-static const BYTE Ct737[] = TBL_CT737;
-static const BYTE Ct771[] = TBL_CT771;
-static const BYTE Ct775[] = TBL_CT775;
-static const BYTE Ct850[] = TBL_CT850;
-static const BYTE Ct852[] = TBL_CT852;
-static const BYTE Ct855[] = TBL_CT855;
-static const BYTE Ct857[] = TBL_CT857;
-static const BYTE Ct860[] = TBL_CT860;
-static const BYTE Ct861[] = TBL_CT861;
-static const BYTE Ct862[] = TBL_CT862;
-static const BYTE Ct863[] = TBL_CT863;
-static const BYTE Ct864[] = TBL_CT864;
-static const BYTE Ct865[] = TBL_CT865;
-static const BYTE Ct866[] = TBL_CT866;
-static const BYTE Ct869[] = TBL_CT869;
-static const BYTE Dc932[] = TBL_DC932;
-static const BYTE Dc936[] = TBL_DC936;
-static const BYTE Dc949[] = TBL_DC949;
-static const BYTE Dc950[] = TBL_DC950;
-
-#elif FF_CODE_PAGE < 900	/* Static code page configuration (SBCS) */
-#define CODEPAGE FF_CODE_PAGE
-static const BYTE ExCvt[] = MKCVTBL(TBL_CT, FF_CODE_PAGE);
-
-#else					/* Static code page configuration (DBCS) */
-#define CODEPAGE FF_CODE_PAGE
-static const BYTE DbcTbl[] = MKCVTBL(TBL_DC, FF_CODE_PAGE);
-
-#endif
-
-
-
-
-/*--------------------------------------------------------------------------
-
-   Module Private Functions
-
----------------------------------------------------------------------------*/
-
-
-/*-----------------------------------------------------------------------*/
-/* Load/Store multi-byte word in the FAT structure                       */
-/*-----------------------------------------------------------------------*/
-
-static WORD ld_word (const BYTE* ptr)	/*	 Load a 2-byte little-endian word */
-{
-	WORD rv;
-
-	rv = ptr[1];
-	rv = rv << 8 | ptr[0];
-	return rv;
-}
-
-static DWORD ld_dword (const BYTE* ptr)	/* Load a 4-byte little-endian word */
-{
-	DWORD rv;
-
-	rv = ptr[3];
-	rv = rv << 8 | ptr[2];
-	rv = rv << 8 | ptr[1];
-	rv = rv << 8 | ptr[0];
-	return rv;
-}
-
-#if FF_FS_EXFAT
-static QWORD ld_qword (const BYTE* ptr)	/* Load an 8-byte little-endian word */
-{
-	QWORD rv;
-
-	rv = ptr[7];
-	rv = rv << 8 | ptr[6];
-	rv = rv << 8 | ptr[5];
-	rv = rv << 8 | ptr[4];
-	rv = rv << 8 | ptr[3];
-	rv = rv << 8 | ptr[2];
-	rv = rv << 8 | ptr[1];
-	rv = rv << 8 | ptr[0];
-	return rv;
-}
-#endif
-
-#if !FF_FS_READONLY
-static void st_word (BYTE* ptr, WORD val)	/* Store a 2-byte word in little-endian */
-{
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val;
-}
-
-static void st_dword (BYTE* ptr, DWORD val)	/* Store a 4-byte word in little-endian */
-{
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val;
-}
-
-#if FF_FS_EXFAT
-static void st_qword (BYTE* ptr, QWORD val)	/* Store an 8-byte word in little-endian */
-{
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val; val >>= 8;
-	*ptr++ = (BYTE)val;
-}
-#endif
-#endif	/* !FF_FS_READONLY */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* String functions                                                      */
-/*-----------------------------------------------------------------------*/
-
-/* Test if the byte is DBC 1st byte */
-static int dbc_1st (BYTE c)
-{
-#if FF_CODE_PAGE == 0		/* Variable code page */
-	if (DbcTbl && c >= DbcTbl[0]) {
-		if (c <= DbcTbl[1]) return 1;					/* 1st byte range 1 */
-		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;	/* 1st byte range 2 */
-	}
-#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
-	if (c >= DbcTbl[0]) {
-		if (c <= DbcTbl[1]) return 1;
-		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;
-	}
-#else						/* SBCS fixed code page */
-	if (c != 0) return 0;	/* Always false */
-#endif
-	return 0;
-}
-
-
-/* Test if the byte is DBC 2nd byte */
-static int dbc_2nd (BYTE c)
-{
-#if FF_CODE_PAGE == 0		/* Variable code page */
-	if (DbcTbl && c >= DbcTbl[4]) {
-		if (c <= DbcTbl[5]) return 1;					/* 2nd byte range 1 */
-		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;	/* 2nd byte range 2 */
-		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;	/* 2nd byte range 3 */
-	}
-#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
-	if (c >= DbcTbl[4]) {
-		if (c <= DbcTbl[5]) return 1;
-		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;
-		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;
-	}
-#else						/* SBCS fixed code page */
-	if (c != 0) return 0;	/* Always false */
-#endif
-	return 0;
-}
-
-
-#if FF_USE_LFN
-
-/* Get a Unicode code point from the TCHAR string in defined API encodeing */
-static DWORD tchar2uni (	/* Returns a character in UTF-16 encoding (>=0x10000 on surrogate pair, 0xFFFFFFFF on decode error) */
-	const TCHAR** str		/* Pointer to pointer to TCHAR string in configured encoding */
-)
-{
-	DWORD uc;
-	const TCHAR *p = *str;
-
-#if FF_LFN_UNICODE == 1		/* UTF-16 input */
-	WCHAR wc;
-
-	uc = *p++;	/* Get a unit */
-	if (IsSurrogate(uc)) {	/* Surrogate? */
-		wc = *p++;		/* Get low surrogate */
-		if (!IsSurrogateH(uc) || !IsSurrogateL(wc)) return 0xFFFFFFFF;	/* Wrong surrogate? */
-		uc = uc << 16 | wc;
-	}
-
-#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
-	BYTE b;
-	int nf;
-
-	uc = (BYTE)*p++;	/* Get an encoding unit */
-	if (uc & 0x80) {	/* Multiple byte code? */
-		if        ((uc & 0xE0) == 0xC0) {	/* 2-byte sequence? */
-			uc &= 0x1F; nf = 1;
-		} else if ((uc & 0xF0) == 0xE0) {	/* 3-byte sequence? */
-			uc &= 0x0F; nf = 2;
-		} else if ((uc & 0xF8) == 0xF0) {	/* 4-byte sequence? */
-			uc &= 0x07; nf = 3;
-		} else {							/* Wrong sequence */
-			return 0xFFFFFFFF;
-		}
-		do {	/* Get trailing bytes */
-			b = (BYTE)*p++;
-			if ((b & 0xC0) != 0x80) return 0xFFFFFFFF;	/* Wrong sequence? */
-			uc = uc << 6 | (b & 0x3F);
-		} while (--nf != 0);
-		if (uc < 0x80 || IsSurrogate(uc) || uc >= 0x110000) return 0xFFFFFFFF;	/* Wrong code? */
-		if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
-	}
-
-#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
-	uc = (TCHAR)*p++;	/* Get a unit */
-	if (uc >= 0x110000 || IsSurrogate(uc)) return 0xFFFFFFFF;	/* Wrong code? */
-	if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
-
-#else		/* ANSI/OEM input */
-	BYTE b;
-	WCHAR wc;
-
-	wc = (BYTE)*p++;			/* Get a byte */
-	if (dbc_1st((BYTE)wc)) {	/* Is it a DBC 1st byte? */
-		b = (BYTE)*p++;			/* Get 2nd byte */
-		if (!dbc_2nd(b)) return 0xFFFFFFFF;	/* Invalid code? */
-		wc = (wc << 8) + b;		/* Make a DBC */
-	}
-	if (wc != 0) {
-		wc = ff_oem2uni(wc, CODEPAGE);	/* ANSI/OEM ==> Unicode */
-		if (wc == 0) return 0xFFFFFFFF;	/* Invalid code? */
-	}
-	uc = wc;
-
-#endif
-	*str = p;	/* Next read pointer */
-	return uc;
-}
-
-
-/* Store a Unicode char in defined API encoding */
-static UINT put_utf (	/* Returns number of encoding units written (0:buffer overflow or wrong encoding) */
-	DWORD chr,	/* UTF-16 encoded character (Surrogate pair if >=0x10000) */
-	TCHAR* buf,	/* Output buffer */
-	UINT szb	/* Size of the buffer */
-)
-{
-#if FF_LFN_UNICODE == 1	/* UTF-16 output */
-	WCHAR hs, wc;
-
-	hs = (WCHAR)(chr >> 16);
-	wc = (WCHAR)chr;
-	if (hs == 0) {	/* Single encoding unit? */
-		if (szb < 1 || IsSurrogate(wc)) return 0;	/* Buffer overflow or wrong code? */
-		*buf = wc;
-		return 1;
-	}
-	if (szb < 2 || !IsSurrogateH(hs) || !IsSurrogateL(wc)) return 0;	/* Buffer overflow or wrong surrogate? */
-	*buf++ = hs;
-	*buf++ = wc;
-	return 2;
-
-#elif FF_LFN_UNICODE == 2	/* UTF-8 output */
-	DWORD hc;
-
-	if (chr < 0x80) {	/* Single byte code? */
-		if (szb < 1) return 0;	/* Buffer overflow? */
-		*buf = (TCHAR)chr;
-		return 1;
-	}
-	if (chr < 0x800) {	/* 2-byte sequence? */
-		if (szb < 2) return 0;	/* Buffer overflow? */
-		*buf++ = (TCHAR)(0xC0 | (chr >> 6 & 0x1F));
-		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
-		return 2;
-	}
-	if (chr < 0x10000) {	/* 3-byte sequence? */
-		if (szb < 3 || IsSurrogate(chr)) return 0;	/* Buffer overflow or wrong code? */
-		*buf++ = (TCHAR)(0xE0 | (chr >> 12 & 0x0F));
-		*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
-		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
-		return 3;
-	}
-	/* 4-byte sequence */
-	if (szb < 4) return 0;	/* Buffer overflow? */
-	hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
-	chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
-	if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
-	chr = (hc | chr) + 0x10000;
-	*buf++ = (TCHAR)(0xF0 | (chr >> 18 & 0x07));
-	*buf++ = (TCHAR)(0x80 | (chr >> 12 & 0x3F));
-	*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
-	*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
-	return 4;
-
-#elif FF_LFN_UNICODE == 3	/* UTF-32 output */
-	DWORD hc;
-
-	if (szb < 1) return 0;	/* Buffer overflow? */
-	if (chr >= 0x10000) {	/* Out of BMP? */
-		hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
-		chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
-		if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
-		chr = (hc | chr) + 0x10000;
-	}
-	*buf++ = (TCHAR)chr;
-	return 1;
-
-#else						/* ANSI/OEM output */
-	WCHAR wc;
-
-	wc = ff_uni2oem(chr, CODEPAGE);
-	if (wc >= 0x100) {	/* Is this a DBC? */
-		if (szb < 2) return 0;
-		*buf++ = (char)(wc >> 8);	/* Store DBC 1st byte */
-		*buf++ = (TCHAR)wc;			/* Store DBC 2nd byte */
-		return 2;
-	}
-	if (wc == 0 || szb < 1) return 0;	/* Invalid char or buffer overflow? */
-	*buf++ = (TCHAR)wc;					/* Store the character */
-	return 1;
-#endif
-}
-#endif	/* FF_USE_LFN */
-
-
-#if FF_FS_REENTRANT
-/*-----------------------------------------------------------------------*/
-/* Request/Release grant to access the volume                            */
-/*-----------------------------------------------------------------------*/
-static int lock_fs (		/* 1:Ok, 0:timeout */
-	FATFS* fs		/* Filesystem object */
-)
-{
-	return ff_req_grant(fs->sobj);
-}
-
-
-static void unlock_fs (
-	FATFS* fs,		/* Filesystem object */
-	FRESULT res		/* Result code to be returned */
-)
-{
-	if (fs && res != FR_NOT_ENABLED && res != FR_INVALID_DRIVE && res != FR_TIMEOUT) {
-		ff_rel_grant(fs->sobj);
-	}
-}
-
-#endif
-
-
-
-#if FF_FS_LOCK != 0
-/*-----------------------------------------------------------------------*/
-/* File lock control functions                                           */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT chk_lock (	/* Check if the file can be accessed */
-	DIR* dp,		/* Directory object pointing the file to be checked */
-	int acc			/* Desired access type (0:Read mode open, 1:Write mode open, 2:Delete or rename) */
-)
-{
-	UINT i, be;
-
-	/* Search open object table for the object */
-	be = 0;
-	for (i = 0; i < FF_FS_LOCK; i++) {
-		if (Files[i].fs) {	/* Existing entry */
-			if (Files[i].fs == dp->obj.fs &&	 	/* Check if the object matches with an open object */
-				Files[i].clu == dp->obj.sclust &&
-				Files[i].ofs == dp->dptr) break;
-		} else {			/* Blank entry */
-			be = 1;
-		}
-	}
-	if (i == FF_FS_LOCK) {	/* The object has not been opened */
-		return (!be && acc != 2) ? FR_TOO_MANY_OPEN_FILES : FR_OK;	/* Is there a blank entry for new object? */
-	}
-
-	/* The object was opened. Reject any open against writing file and all write mode open */
-	return (acc != 0 || Files[i].ctr == 0x100) ? FR_LOCKED : FR_OK;
-}
-
-
-static int enq_lock (void)	/* Check if an entry is available for a new object */
-{
-	UINT i;
-
-	for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
-	return (i == FF_FS_LOCK) ? 0 : 1;
-}
-
-
-static UINT inc_lock (	/* Increment object open counter and returns its index (0:Internal error) */
-	DIR* dp,	/* Directory object pointing the file to register or increment */
-	int acc		/* Desired access (0:Read, 1:Write, 2:Delete/Rename) */
-)
-{
-	UINT i;
-
-
-	for (i = 0; i < FF_FS_LOCK; i++) {	/* Find the object */
-		if (Files[i].fs == dp->obj.fs
-		 && Files[i].clu == dp->obj.sclust
-		 && Files[i].ofs == dp->dptr) break;
-	}
-
-	if (i == FF_FS_LOCK) {			/* Not opened. Register it as new. */
-		for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
-		if (i == FF_FS_LOCK) return 0;	/* No free entry to register (int err) */
-		Files[i].fs = dp->obj.fs;
-		Files[i].clu = dp->obj.sclust;
-		Files[i].ofs = dp->dptr;
-		Files[i].ctr = 0;
-	}
-
-	if (acc >= 1 && Files[i].ctr) return 0;	/* Access violation (int err) */
-
-	Files[i].ctr = acc ? 0x100 : Files[i].ctr + 1;	/* Set semaphore value */
-
-	return i + 1;	/* Index number origin from 1 */
-}
-
-
-static FRESULT dec_lock (	/* Decrement object open counter */
-	UINT i			/* Semaphore index (1..) */
-)
-{
-	WORD n;
-	FRESULT res;
-
-
-	if (--i < FF_FS_LOCK) {	/* Index number origin from 0 */
-		n = Files[i].ctr;
-		if (n == 0x100) n = 0;	/* If write mode open, delete the entry */
-		if (n > 0) n--;			/* Decrement read mode open count */
-		Files[i].ctr = n;
-		if (n == 0) Files[i].fs = 0;	/* Delete the entry if open count gets zero */
-		res = FR_OK;
-	} else {
-		res = FR_INT_ERR;		/* Invalid index nunber */
-	}
-	return res;
-}
-
-
-static void clear_lock (	/* Clear lock entries of the volume */
-	FATFS *fs
-)
-{
-	UINT i;
-
-	for (i = 0; i < FF_FS_LOCK; i++) {
-		if (Files[i].fs == fs) Files[i].fs = 0;
-	}
-}
-
-#endif	/* FF_FS_LOCK != 0 */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Move/Flush disk access window in the filesystem object                */
-/*-----------------------------------------------------------------------*/
-#if !FF_FS_READONLY
-static FRESULT sync_window (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS* fs			/* Filesystem object */
-)
-{
-	FRESULT res = FR_OK;
-
-
-	if (fs->wflag) {	/* Is the disk access window dirty? */
-		if (disk_write(fs->pdrv, fs->win, fs->winsect, 1) == RES_OK) {	/* Write it back into the volume */
-			fs->wflag = 0;	/* Clear window dirty flag */
-			if (fs->winsect - fs->fatbase < fs->fsize) {	/* Is it in the 1st FAT? */
-				if (fs->n_fats == 2) disk_write(fs->pdrv, fs->win, fs->winsect + fs->fsize, 1);	/* Reflect it to 2nd FAT if needed */
-			}
-		} else {
-			res = FR_DISK_ERR;
-		}
-	}
-	return res;
-}
-#endif
-
-
-static FRESULT move_window (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS* fs,		/* Filesystem object */
-	LBA_t sect		/* Sector LBA to make appearance in the fs->win[] */
-)
-{
-	FRESULT res = FR_OK;
-
-
-	if (sect != fs->winsect) {	/* Window offset changed? */
-#if !FF_FS_READONLY
-		res = sync_window(fs);		/* Flush the window */
-#endif
-		if (res == FR_OK) {			/* Fill sector window with new data */
-			if (disk_read(fs->pdrv, fs->win, sect, 1) != RES_OK) {
-				sect = (LBA_t)0 - 1;	/* Invalidate window if read data is not valid */
-				res = FR_DISK_ERR;
-			}
-			fs->winsect = sect;
-		}
-	}
-	return res;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Synchronize filesystem and data on the storage                        */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT sync_fs (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS* fs		/* Filesystem object */
-)
-{
-	FRESULT res;
-
-
-	res = sync_window(fs);
-	if (res == FR_OK) {
-		if (fs->fs_type == FS_FAT32 && fs->fsi_flag == 1) {	/* FAT32: Update FSInfo sector if needed */
-			/* Create FSInfo structure */
-			memset(fs->win, 0, sizeof fs->win);
-			st_word(fs->win + BS_55AA, 0xAA55);					/* Boot signature */
-			st_dword(fs->win + FSI_LeadSig, 0x41615252);		/* Leading signature */
-			st_dword(fs->win + FSI_StrucSig, 0x61417272);		/* Structure signature */
-			st_dword(fs->win + FSI_Free_Count, fs->free_clst);	/* Number of free clusters */
-			st_dword(fs->win + FSI_Nxt_Free, fs->last_clst);	/* Last allocated culuster */
-			fs->winsect = fs->volbase + 1;						/* Write it into the FSInfo sector (Next to VBR) */
-			disk_write(fs->pdrv, fs->win, fs->winsect, 1);
-			fs->fsi_flag = 0;
-		}
-		/* Make sure that no pending write process in the lower layer */
-		if (disk_ioctl(fs->pdrv, CTRL_SYNC, 0) != RES_OK) res = FR_DISK_ERR;
-	}
-
-	return res;
-}
-
-#endif
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Get physical sector number from cluster number                        */
-/*-----------------------------------------------------------------------*/
-
-static LBA_t clst2sect (	/* !=0:Sector number, 0:Failed (invalid cluster#) */
-	FATFS* fs,		/* Filesystem object */
-	DWORD clst		/* Cluster# to be converted */
-)
-{
-	clst -= 2;		/* Cluster number is origin from 2 */
-	if (clst >= fs->n_fatent - 2) return 0;		/* Is it invalid cluster number? */
-	return fs->database + (LBA_t)fs->csize * clst;	/* Start sector number of the cluster */
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* FAT access - Read value of an FAT entry                               */
-/*-----------------------------------------------------------------------*/
-
-static DWORD get_fat (		/* 0xFFFFFFFF:Disk error, 1:Internal error, 2..0x7FFFFFFF:Cluster status */
-	FFOBJID* obj,	/* Corresponding object */
-	DWORD clst		/* Cluster number to get the value */
-)
-{
-	UINT wc, bc;
-	DWORD val;
-	FATFS *fs = obj->fs;
-
-
-	if (clst < 2 || clst >= fs->n_fatent) {	/* Check if in valid range */
-		val = 1;	/* Internal error */
-
-	} else {
-		val = 0xFFFFFFFF;	/* Default value falls on disk error */
-
-		switch (fs->fs_type) {
-		case FS_FAT12 :
-			bc = (UINT)clst; bc += bc / 2;
-			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
-			wc = fs->win[bc++ % SS(fs)];		/* Get 1st byte of the entry */
-			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
-			wc |= fs->win[bc % SS(fs)] << 8;	/* Merge 2nd byte of the entry */
-			val = (clst & 1) ? (wc >> 4) : (wc & 0xFFF);	/* Adjust bit position */
-			break;
-
-		case FS_FAT16 :
-			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 2))) != FR_OK) break;
-			val = ld_word(fs->win + clst * 2 % SS(fs));		/* Simple WORD array */
-			break;
-
-		case FS_FAT32 :
-			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
-			val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x0FFFFFFF;	/* Simple DWORD array but mask out upper 4 bits */
-			break;
-#if FF_FS_EXFAT
-		case FS_EXFAT :
-			if ((obj->objsize != 0 && obj->sclust != 0) || obj->stat == 0) {	/* Object except root dir must have valid data length */
-				DWORD cofs = clst - obj->sclust;	/* Offset from start cluster */
-				DWORD clen = (DWORD)((LBA_t)((obj->objsize - 1) / SS(fs)) / fs->csize);	/* Number of clusters - 1 */
-
-				if (obj->stat == 2 && cofs <= clen) {	/* Is it a contiguous chain? */
-					val = (cofs == clen) ? 0x7FFFFFFF : clst + 1;	/* No data on the FAT, generate the value */
-					break;
-				}
-				if (obj->stat == 3 && cofs < obj->n_cont) {	/* Is it in the 1st fragment? */
-					val = clst + 1; 	/* Generate the value */
-					break;
-				}
-				if (obj->stat != 2) {	/* Get value from FAT if FAT chain is valid */
-					if (obj->n_frag != 0) {	/* Is it on the growing edge? */
-						val = 0x7FFFFFFF;	/* Generate EOC */
-					} else {
-						if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
-						val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x7FFFFFFF;
-					}
-					break;
-				}
-			}
-			val = 1;	/* Internal error */
-			break;
-#endif
-		default:
-			val = 1;	/* Internal error */
-		}
-	}
-
-	return val;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* FAT access - Change value of an FAT entry                             */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT put_fat (	/* FR_OK(0):succeeded, !=0:error */
-	FATFS* fs,		/* Corresponding filesystem object */
-	DWORD clst,		/* FAT index number (cluster number) to be changed */
-	DWORD val		/* New value to be set to the entry */
-)
-{
-	UINT bc;
-	BYTE *p;
-	FRESULT res = FR_INT_ERR;
-
-
-	if (clst >= 2 && clst < fs->n_fatent) {	/* Check if in valid range */
-		switch (fs->fs_type) {
-		case FS_FAT12:
-			bc = (UINT)clst; bc += bc / 2;	/* bc: byte offset of the entry */
-			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
-			if (res != FR_OK) break;
-			p = fs->win + bc++ % SS(fs);
-			*p = (clst & 1) ? ((*p & 0x0F) | ((BYTE)val << 4)) : (BYTE)val;	/* Update 1st byte */
-			fs->wflag = 1;
-			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
-			if (res != FR_OK) break;
-			p = fs->win + bc % SS(fs);
-			*p = (clst & 1) ? (BYTE)(val >> 4) : ((*p & 0xF0) | ((BYTE)(val >> 8) & 0x0F));	/* Update 2nd byte */
-			fs->wflag = 1;
-			break;
-
-		case FS_FAT16:
-			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 2)));
-			if (res != FR_OK) break;
-			st_word(fs->win + clst * 2 % SS(fs), (WORD)val);	/* Simple WORD array */
-			fs->wflag = 1;
-			break;
-
-		case FS_FAT32:
-#if FF_FS_EXFAT
-		case FS_EXFAT:
-#endif
-			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 4)));
-			if (res != FR_OK) break;
-			if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
-				val = (val & 0x0FFFFFFF) | (ld_dword(fs->win + clst * 4 % SS(fs)) & 0xF0000000);
-			}
-			st_dword(fs->win + clst * 4 % SS(fs), val);
-			fs->wflag = 1;
-			break;
-		}
-	}
-	return res;
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-
-#if FF_FS_EXFAT && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* exFAT: Accessing FAT and Allocation Bitmap                            */
-/*-----------------------------------------------------------------------*/
-
-/*--------------------------------------*/
-/* Find a contiguous free cluster block */
-/*--------------------------------------*/
-
-static DWORD find_bitmap (	/* 0:Not found, 2..:Cluster block found, 0xFFFFFFFF:Disk error */
-	FATFS* fs,	/* Filesystem object */
-	DWORD clst,	/* Cluster number to scan from */
-	DWORD ncl	/* Number of contiguous clusters to find (1..) */
-)
-{
-	BYTE bm, bv;
-	UINT i;
-	DWORD val, scl, ctr;
-
-
-	clst -= 2;	/* The first bit in the bitmap corresponds to cluster #2 */
-	if (clst >= fs->n_fatent - 2) clst = 0;
-	scl = val = clst; ctr = 0;
-	for (;;) {
-		if (move_window(fs, fs->bitbase + val / 8 / SS(fs)) != FR_OK) return 0xFFFFFFFF;
-		i = val / 8 % SS(fs); bm = 1 << (val % 8);
-		do {
-			do {
-				bv = fs->win[i] & bm; bm <<= 1;		/* Get bit value */
-				if (++val >= fs->n_fatent - 2) {	/* Next cluster (with wrap-around) */
-					val = 0; bm = 0; i = SS(fs);
-				}
-				if (bv == 0) {	/* Is it a free cluster? */
-					if (++ctr == ncl) return scl + 2;	/* Check if run length is sufficient for required */
-				} else {
-					scl = val; ctr = 0;		/* Encountered a cluster in-use, restart to scan */
-				}
-				if (val == clst) return 0;	/* All cluster scanned? */
-			} while (bm != 0);
-			bm = 1;
-		} while (++i < SS(fs));
-	}
-}
-
-
-/*----------------------------------------*/
-/* Set/Clear a block of allocation bitmap */
-/*----------------------------------------*/
-
-static FRESULT change_bitmap (
-	FATFS* fs,	/* Filesystem object */
-	DWORD clst,	/* Cluster number to change from */
-	DWORD ncl,	/* Number of clusters to be changed */
-	int bv		/* bit value to be set (0 or 1) */
-)
-{
-	BYTE bm;
-	UINT i;
-	LBA_t sect;
-
-
-	clst -= 2;	/* The first bit corresponds to cluster #2 */
-	sect = fs->bitbase + clst / 8 / SS(fs);	/* Sector address */
-	i = clst / 8 % SS(fs);					/* Byte offset in the sector */
-	bm = 1 << (clst % 8);					/* Bit mask in the byte */
-	for (;;) {
-		if (move_window(fs, sect++) != FR_OK) return FR_DISK_ERR;
-		do {
-			do {
-				if (bv == (int)((fs->win[i] & bm) != 0)) return FR_INT_ERR;	/* Is the bit expected value? */
-				fs->win[i] ^= bm;	/* Flip the bit */
-				fs->wflag = 1;
-				if (--ncl == 0) return FR_OK;	/* All bits processed? */
-			} while (bm <<= 1);		/* Next bit */
-			bm = 1;
-		} while (++i < SS(fs));		/* Next byte */
-		i = 0;
-	}
-}
-
-
-/*---------------------------------------------*/
-/* Fill the first fragment of the FAT chain    */
-/*---------------------------------------------*/
-
-static FRESULT fill_first_frag (
-	FFOBJID* obj	/* Pointer to the corresponding object */
-)
-{
-	FRESULT res;
-	DWORD cl, n;
-
-
-	if (obj->stat == 3) {	/* Has the object been changed 'fragmented' in this session? */
-		for (cl = obj->sclust, n = obj->n_cont; n; cl++, n--) {	/* Create cluster chain on the FAT */
-			res = put_fat(obj->fs, cl, cl + 1);
-			if (res != FR_OK) return res;
-		}
-		obj->stat = 0;	/* Change status 'FAT chain is valid' */
-	}
-	return FR_OK;
-}
-
-
-/*---------------------------------------------*/
-/* Fill the last fragment of the FAT chain     */
-/*---------------------------------------------*/
-
-static FRESULT fill_last_frag (
-	FFOBJID* obj,	/* Pointer to the corresponding object */
-	DWORD lcl,		/* Last cluster of the fragment */
-	DWORD term		/* Value to set the last FAT entry */
-)
-{
-	FRESULT res;
-
-
-	while (obj->n_frag > 0) {	/* Create the chain of last fragment */
-		res = put_fat(obj->fs, lcl - obj->n_frag + 1, (obj->n_frag > 1) ? lcl - obj->n_frag + 2 : term);
-		if (res != FR_OK) return res;
-		obj->n_frag--;
-	}
-	return FR_OK;
-}
-
-#endif	/* FF_FS_EXFAT && !FF_FS_READONLY */
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* FAT handling - Remove a cluster chain                                 */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT remove_chain (	/* FR_OK(0):succeeded, !=0:error */
-	FFOBJID* obj,		/* Corresponding object */
-	DWORD clst,			/* Cluster to remove a chain from */
-	DWORD pclst			/* Previous cluster of clst (0 if entire chain) */
-)
-{
-	FRESULT res = FR_OK;
-	DWORD nxt;
-	FATFS *fs = obj->fs;
-#if FF_FS_EXFAT || FF_USE_TRIM
-	DWORD scl = clst, ecl = clst;
-#endif
-#if FF_USE_TRIM
-	LBA_t rt[2];
-#endif
-
-	if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Check if in valid range */
-
-	/* Mark the previous cluster 'EOC' on the FAT if it exists */
-	if (pclst != 0 && (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT || obj->stat != 2)) {
-		res = put_fat(fs, pclst, 0xFFFFFFFF);
-		if (res != FR_OK) return res;
-	}
-
-	/* Remove the chain */
-	do {
-		nxt = get_fat(obj, clst);			/* Get cluster status */
-		if (nxt == 0) break;				/* Empty cluster? */
-		if (nxt == 1) return FR_INT_ERR;	/* Internal error? */
-		if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error? */
-		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
-			res = put_fat(fs, clst, 0);		/* Mark the cluster 'free' on the FAT */
-			if (res != FR_OK) return res;
-		}
-		if (fs->free_clst < fs->n_fatent - 2) {	/* Update FSINFO */
-			fs->free_clst++;
-			fs->fsi_flag |= 1;
-		}
-#if FF_FS_EXFAT || FF_USE_TRIM
-		if (ecl + 1 == nxt) {	/* Is next cluster contiguous? */
-			ecl = nxt;
-		} else {				/* End of contiguous cluster block */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				res = change_bitmap(fs, scl, ecl - scl + 1, 0);	/* Mark the cluster block 'free' on the bitmap */
-				if (res != FR_OK) return res;
-			}
-#endif
-#if FF_USE_TRIM
-			rt[0] = clst2sect(fs, scl);					/* Start of data area to be freed */
-			rt[1] = clst2sect(fs, ecl) + fs->csize - 1;	/* End of data area to be freed */
-			disk_ioctl(fs->pdrv, CTRL_TRIM, rt);		/* Inform storage device that the data in the block may be erased */
-#endif
-			scl = ecl = nxt;
-		}
-#endif
-		clst = nxt;					/* Next cluster */
-	} while (clst < fs->n_fatent);	/* Repeat while not the last link */
-
-#if FF_FS_EXFAT
-	/* Some post processes for chain status */
-	if (fs->fs_type == FS_EXFAT) {
-		if (pclst == 0) {	/* Has the entire chain been removed? */
-			obj->stat = 0;		/* Change the chain status 'initial' */
-		} else {
-			if (obj->stat == 0) {	/* Is it a fragmented chain from the beginning of this session? */
-				clst = obj->sclust;		/* Follow the chain to check if it gets contiguous */
-				while (clst != pclst) {
-					nxt = get_fat(obj, clst);
-					if (nxt < 2) return FR_INT_ERR;
-					if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;
-					if (nxt != clst + 1) break;	/* Not contiguous? */
-					clst++;
-				}
-				if (clst == pclst) {	/* Has the chain got contiguous again? */
-					obj->stat = 2;		/* Change the chain status 'contiguous' */
-				}
-			} else {
-				if (obj->stat == 3 && pclst >= obj->sclust && pclst <= obj->sclust + obj->n_cont) {	/* Was the chain fragmented in this session and got contiguous again? */
-					obj->stat = 2;	/* Change the chain status 'contiguous' */
-				}
-			}
-		}
-	}
-#endif
-	return FR_OK;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* FAT handling - Stretch a chain or Create a new chain                  */
-/*-----------------------------------------------------------------------*/
-
-static DWORD create_chain (	/* 0:No free cluster, 1:Internal error, 0xFFFFFFFF:Disk error, >=2:New cluster# */
-	FFOBJID* obj,		/* Corresponding object */
-	DWORD clst			/* Cluster# to stretch, 0:Create a new chain */
-)
-{
-	DWORD cs, ncl, scl;
-	FRESULT res;
-	FATFS *fs = obj->fs;
-
-
-	if (clst == 0) {	/* Create a new chain */
-		scl = fs->last_clst;				/* Suggested cluster to start to find */
-		if (scl == 0 || scl >= fs->n_fatent) scl = 1;
-	}
-	else {				/* Stretch a chain */
-		cs = get_fat(obj, clst);			/* Check the cluster status */
-		if (cs < 2) return 1;				/* Test for insanity */
-		if (cs == 0xFFFFFFFF) return cs;	/* Test for disk error */
-		if (cs < fs->n_fatent) return cs;	/* It is already followed by next cluster */
-		scl = clst;							/* Cluster to start to find */
-	}
-	if (fs->free_clst == 0) return 0;		/* No free cluster */
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		ncl = find_bitmap(fs, scl, 1);				/* Find a free cluster */
-		if (ncl == 0 || ncl == 0xFFFFFFFF) return ncl;	/* No free cluster or hard error? */
-		res = change_bitmap(fs, ncl, 1, 1);			/* Mark the cluster 'in use' */
-		if (res == FR_INT_ERR) return 1;
-		if (res == FR_DISK_ERR) return 0xFFFFFFFF;
-		if (clst == 0) {							/* Is it a new chain? */
-			obj->stat = 2;							/* Set status 'contiguous' */
-		} else {									/* It is a stretched chain */
-			if (obj->stat == 2 && ncl != scl + 1) {	/* Is the chain got fragmented? */
-				obj->n_cont = scl - obj->sclust;	/* Set size of the contiguous part */
-				obj->stat = 3;						/* Change status 'just fragmented' */
-			}
-		}
-		if (obj->stat != 2) {	/* Is the file non-contiguous? */
-			if (ncl == clst + 1) {	/* Is the cluster next to previous one? */
-				obj->n_frag = obj->n_frag ? obj->n_frag + 1 : 2;	/* Increment size of last framgent */
-			} else {				/* New fragment */
-				if (obj->n_frag == 0) obj->n_frag = 1;
-				res = fill_last_frag(obj, clst, ncl);	/* Fill last fragment on the FAT and link it to new one */
-				if (res == FR_OK) obj->n_frag = 1;
-			}
-		}
-	} else
-#endif
-	{	/* On the FAT/FAT32 volume */
-		ncl = 0;
-		if (scl == clst) {						/* Stretching an existing chain? */
-			ncl = scl + 1;						/* Test if next cluster is free */
-			if (ncl >= fs->n_fatent) ncl = 2;
-			cs = get_fat(obj, ncl);				/* Get next cluster status */
-			if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
-			if (cs != 0) {						/* Not free? */
-				cs = fs->last_clst;				/* Start at suggested cluster if it is valid */
-				if (cs >= 2 && cs < fs->n_fatent) scl = cs;
-				ncl = 0;
-			}
-		}
-		if (ncl == 0) {	/* The new cluster cannot be contiguous and find another fragment */
-			ncl = scl;	/* Start cluster */
-			for (;;) {
-				ncl++;							/* Next cluster */
-				if (ncl >= fs->n_fatent) {		/* Check wrap-around */
-					ncl = 2;
-					if (ncl > scl) return 0;	/* No free cluster found? */
-				}
-				cs = get_fat(obj, ncl);			/* Get the cluster status */
-				if (cs == 0) break;				/* Found a free cluster? */
-				if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
-				if (ncl == scl) return 0;		/* No free cluster found? */
-			}
-		}
-		res = put_fat(fs, ncl, 0xFFFFFFFF);		/* Mark the new cluster 'EOC' */
-		if (res == FR_OK && clst != 0) {
-			res = put_fat(fs, clst, ncl);		/* Link it from the previous one if needed */
-		}
-	}
-
-	if (res == FR_OK) {			/* Update FSINFO if function succeeded. */
-		fs->last_clst = ncl;
-		if (fs->free_clst <= fs->n_fatent - 2) fs->free_clst--;
-		fs->fsi_flag |= 1;
-	} else {
-		ncl = (res == FR_DISK_ERR) ? 0xFFFFFFFF : 1;	/* Failed. Generate error status */
-	}
-
-	return ncl;		/* Return new cluster number or error status */
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-
-#if FF_USE_FASTSEEK
-/*-----------------------------------------------------------------------*/
-/* FAT handling - Convert offset into cluster with link map table        */
-/*-----------------------------------------------------------------------*/
-
-static DWORD clmt_clust (	/* <2:Error, >=2:Cluster number */
-	FIL* fp,		/* Pointer to the file object */
-	FSIZE_t ofs		/* File offset to be converted to cluster# */
-)
-{
-	DWORD cl, ncl, *tbl;
-	FATFS *fs = fp->obj.fs;
-
-
-	tbl = fp->cltbl + 1;	/* Top of CLMT */
-	cl = (DWORD)(ofs / SS(fs) / fs->csize);	/* Cluster order from top of the file */
-	for (;;) {
-		ncl = *tbl++;			/* Number of cluters in the fragment */
-		if (ncl == 0) return 0;	/* End of table? (error) */
-		if (cl < ncl) break;	/* In this fragment? */
-		cl -= ncl; tbl++;		/* Next fragment */
-	}
-	return cl + *tbl;	/* Return the cluster number */
-}
-
-#endif	/* FF_USE_FASTSEEK */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Fill a cluster with zeros                        */
-/*-----------------------------------------------------------------------*/
-
-#if !FF_FS_READONLY
-static FRESULT dir_clear (	/* Returns FR_OK or FR_DISK_ERR */
-	FATFS *fs,		/* Filesystem object */
-	DWORD clst		/* Directory table to clear */
-)
-{
-	LBA_t sect;
-	UINT n, szb;
-	BYTE *ibuf;
-
-
-	if (sync_window(fs) != FR_OK) return FR_DISK_ERR;	/* Flush disk access window */
-	sect = clst2sect(fs, clst);		/* Top of the cluster */
-	fs->winsect = sect;				/* Set window to top of the cluster */
-	memset(fs->win, 0, sizeof fs->win);	/* Clear window buffer */
-#if FF_USE_LFN == 3		/* Quick table clear by using multi-secter write */
-	/* Allocate a temporary buffer */
-	for (szb = ((DWORD)fs->csize * SS(fs) >= MAX_MALLOC) ? MAX_MALLOC : fs->csize * SS(fs), ibuf = 0; szb > SS(fs) && (ibuf = ff_memalloc(szb)) == 0; szb /= 2) ;
-	if (szb > SS(fs)) {		/* Buffer allocated? */
-		memset(ibuf, 0, szb);
-		szb /= SS(fs);		/* Bytes -> Sectors */
-		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
-		ff_memfree(ibuf);
-	} else
-#endif
-	{
-		ibuf = fs->win; szb = 1;	/* Use window buffer (many single-sector writes may take a time) */
-		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
-	}
-	return (n == fs->csize) ? FR_OK : FR_DISK_ERR;
-}
-#endif	/* !FF_FS_READONLY */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Set directory index                              */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_sdi (	/* FR_OK(0):succeeded, !=0:error */
-	DIR* dp,		/* Pointer to directory object */
-	DWORD ofs		/* Offset of directory table */
-)
-{
-	DWORD csz, clst;
-	FATFS *fs = dp->obj.fs;
-
-
-	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR) || ofs % SZDIRE) {	/* Check range of offset and alignment */
-		return FR_INT_ERR;
-	}
-	dp->dptr = ofs;				/* Set current offset */
-	clst = dp->obj.sclust;		/* Table start cluster (0:root) */
-	if (clst == 0 && fs->fs_type >= FS_FAT32) {	/* Replace cluster# 0 with root cluster# */
-		clst = (DWORD)fs->dirbase;
-		if (FF_FS_EXFAT) dp->obj.stat = 0;	/* exFAT: Root dir has an FAT chain */
-	}
-
-	if (clst == 0) {	/* Static table (root-directory on the FAT volume) */
-		if (ofs / SZDIRE >= fs->n_rootdir) return FR_INT_ERR;	/* Is index out of range? */
-		dp->sect = fs->dirbase;
-
-	} else {			/* Dynamic table (sub-directory or root-directory on the FAT32/exFAT volume) */
-		csz = (DWORD)fs->csize * SS(fs);	/* Bytes per cluster */
-		while (ofs >= csz) {				/* Follow cluster chain */
-			clst = get_fat(&dp->obj, clst);				/* Get next cluster */
-			if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
-			if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Reached to end of table or internal error */
-			ofs -= csz;
-		}
-		dp->sect = clst2sect(fs, clst);
-	}
-	dp->clust = clst;					/* Current cluster# */
-	if (dp->sect == 0) return FR_INT_ERR;
-	dp->sect += ofs / SS(fs);			/* Sector# of the directory entry */
-	dp->dir = fs->win + (ofs % SS(fs));	/* Pointer to the entry in the win[] */
-
-	return FR_OK;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Move directory table index next                  */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_next (	/* FR_OK(0):succeeded, FR_NO_FILE:End of table, FR_DENIED:Could not stretch */
-	DIR* dp,				/* Pointer to the directory object */
-	int stretch				/* 0: Do not stretch table, 1: Stretch table if needed */
-)
-{
-	DWORD ofs, clst;
-	FATFS *fs = dp->obj.fs;
-
-
-	ofs = dp->dptr + SZDIRE;	/* Next entry */
-	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR)) dp->sect = 0;	/* Disable it if the offset reached the max value */
-	if (dp->sect == 0) return FR_NO_FILE;	/* Report EOT if it has been disabled */
-
-	if (ofs % SS(fs) == 0) {	/* Sector changed? */
-		dp->sect++;				/* Next sector */
-
-		if (dp->clust == 0) {	/* Static table */
-			if (ofs / SZDIRE >= fs->n_rootdir) {	/* Report EOT if it reached end of static table */
-				dp->sect = 0; return FR_NO_FILE;
-			}
-		}
-		else {					/* Dynamic table */
-			if ((ofs / SS(fs) & (fs->csize - 1)) == 0) {	/* Cluster changed? */
-				clst = get_fat(&dp->obj, dp->clust);		/* Get next cluster */
-				if (clst <= 1) return FR_INT_ERR;			/* Internal error */
-				if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
-				if (clst >= fs->n_fatent) {					/* It reached end of dynamic table */
-#if !FF_FS_READONLY
-					if (!stretch) {								/* If no stretch, report EOT */
-						dp->sect = 0; return FR_NO_FILE;
-					}
-					clst = create_chain(&dp->obj, dp->clust);	/* Allocate a cluster */
-					if (clst == 0) return FR_DENIED;			/* No free cluster */
-					if (clst == 1) return FR_INT_ERR;			/* Internal error */
-					if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
-					if (dir_clear(fs, clst) != FR_OK) return FR_DISK_ERR;	/* Clean up the stretched table */
-					if (FF_FS_EXFAT) dp->obj.stat |= 4;			/* exFAT: The directory has been stretched */
-#else
-					if (!stretch) dp->sect = 0;					/* (this line is to suppress compiler warning) */
-					dp->sect = 0; return FR_NO_FILE;			/* Report EOT */
-#endif
-				}
-				dp->clust = clst;		/* Initialize data for new cluster */
-				dp->sect = clst2sect(fs, clst);
-			}
-		}
-	}
-	dp->dptr = ofs;						/* Current entry */
-	dp->dir = fs->win + ofs % SS(fs);	/* Pointer to the entry in the win[] */
-
-	return FR_OK;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Reserve a block of directory entries             */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_alloc (	/* FR_OK(0):succeeded, !=0:error */
-	DIR* dp,				/* Pointer to the directory object */
-	UINT n_ent				/* Number of contiguous entries to allocate */
-)
-{
-	FRESULT res;
-	UINT n;
-	FATFS *fs = dp->obj.fs;
-
-
-	res = dir_sdi(dp, 0);
-	if (res == FR_OK) {
-		n = 0;
-		do {
-			res = move_window(fs, dp->sect);
-			if (res != FR_OK) break;
-#if FF_FS_EXFAT
-			if ((fs->fs_type == FS_EXFAT) ? (int)((dp->dir[XDIR_Type] & 0x80) == 0) : (int)(dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0)) {	/* Is the entry free? */
-#else
-			if (dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0) {	/* Is the entry free? */
-#endif
-				if (++n == n_ent) break;	/* Is a block of contiguous free entries found? */
-			} else {
-				n = 0;				/* Not a free entry, restart to search */
-			}
-			res = dir_next(dp, 1);	/* Next entry with table stretch enabled */
-		} while (res == FR_OK);
-	}
-
-	if (res == FR_NO_FILE) res = FR_DENIED;	/* No directory entry to allocate */
-	return res;
-}
-
-#endif	/* !FF_FS_READONLY */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* FAT: Directory handling - Load/Store start cluster number             */
-/*-----------------------------------------------------------------------*/
-
-static DWORD ld_clust (	/* Returns the top cluster value of the SFN entry */
-	FATFS* fs,			/* Pointer to the fs object */
-	const BYTE* dir		/* Pointer to the key entry */
-)
-{
-	DWORD cl;
-
-	cl = ld_word(dir + DIR_FstClusLO);
-	if (fs->fs_type == FS_FAT32) {
-		cl |= (DWORD)ld_word(dir + DIR_FstClusHI) << 16;
-	}
-
-	return cl;
-}
-
-
-#if !FF_FS_READONLY
-static void st_clust (
-	FATFS* fs,	/* Pointer to the fs object */
-	BYTE* dir,	/* Pointer to the key entry */
-	DWORD cl	/* Value to be set */
-)
-{
-	st_word(dir + DIR_FstClusLO, (WORD)cl);
-	if (fs->fs_type == FS_FAT32) {
-		st_word(dir + DIR_FstClusHI, (WORD)(cl >> 16));
-	}
-}
-#endif
-
-
-
-#if FF_USE_LFN
-/*--------------------------------------------------------*/
-/* FAT-LFN: Compare a part of file name with an LFN entry */
-/*--------------------------------------------------------*/
-
-static int cmp_lfn (		/* 1:matched, 0:not matched */
-	const WCHAR* lfnbuf,	/* Pointer to the LFN working buffer to be compared */
-	BYTE* dir				/* Pointer to the directory entry containing the part of LFN */
-)
-{
-	UINT i, s;
-	WCHAR wc, uc;
-
-
-	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO */
-
-	i = ((dir[LDIR_Ord] & 0x3F) - 1) * 13;	/* Offset in the LFN buffer */
-
-	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
-		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
-		if (wc != 0) {
-			if (i >= FF_MAX_LFN + 1 || ff_wtoupper(uc) != ff_wtoupper(lfnbuf[i++])) {	/* Compare it */
-				return 0;					/* Not matched */
-			}
-			wc = uc;
-		} else {
-			if (uc != 0xFFFF) return 0;		/* Check filler */
-		}
-	}
-
-	if ((dir[LDIR_Ord] & LLEF) && wc && lfnbuf[i]) return 0;	/* Last segment matched but different length */
-
-	return 1;		/* The part of LFN matched */
-}
-
-
-#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
-/*-----------------------------------------------------*/
-/* FAT-LFN: Pick a part of file name from an LFN entry */
-/*-----------------------------------------------------*/
-
-static int pick_lfn (	/* 1:succeeded, 0:buffer overflow or invalid LFN entry */
-	WCHAR* lfnbuf,		/* Pointer to the LFN working buffer */
-	BYTE* dir			/* Pointer to the LFN entry */
-)
-{
-	UINT i, s;
-	WCHAR wc, uc;
-
-
-	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO is 0 */
-
-	i = ((dir[LDIR_Ord] & ~LLEF) - 1) * 13;	/* Offset in the LFN buffer */
-
-	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
-		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
-		if (wc != 0) {
-			if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
-			lfnbuf[i++] = wc = uc;			/* Store it */
-		} else {
-			if (uc != 0xFFFF) return 0;		/* Check filler */
-		}
-	}
-
-	if (dir[LDIR_Ord] & LLEF && wc != 0) {	/* Put terminator if it is the last LFN part and not terminated */
-		if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
-		lfnbuf[i] = 0;
-	}
-
-	return 1;		/* The part of LFN is valid */
-}
-#endif
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------*/
-/* FAT-LFN: Create an entry of LFN entries */
-/*-----------------------------------------*/
-
-static void put_lfn (
-	const WCHAR* lfn,	/* Pointer to the LFN */
-	BYTE* dir,			/* Pointer to the LFN entry to be created */
-	BYTE ord,			/* LFN order (1-20) */
-	BYTE sum			/* Checksum of the corresponding SFN */
-)
-{
-	UINT i, s;
-	WCHAR wc;
-
-
-	dir[LDIR_Chksum] = sum;			/* Set checksum */
-	dir[LDIR_Attr] = AM_LFN;		/* Set attribute. LFN entry */
-	dir[LDIR_Type] = 0;
-	st_word(dir + LDIR_FstClusLO, 0);
-
-	i = (ord - 1) * 13;				/* Get offset in the LFN working buffer */
-	s = wc = 0;
-	do {
-		if (wc != 0xFFFF) wc = lfn[i++];	/* Get an effective character */
-		st_word(dir + LfnOfs[s], wc);		/* Put it */
-		if (wc == 0) wc = 0xFFFF;			/* Padding characters for following items */
-	} while (++s < 13);
-	if (wc == 0xFFFF || !lfn[i]) ord |= LLEF;	/* Last LFN part is the start of LFN sequence */
-	dir[LDIR_Ord] = ord;			/* Set the LFN order */
-}
-
-#endif	/* !FF_FS_READONLY */
-#endif	/* FF_USE_LFN */
-
-
-
-#if FF_USE_LFN && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* FAT-LFN: Create a Numbered SFN                                        */
-/*-----------------------------------------------------------------------*/
-
-static void gen_numname (
-	BYTE* dst,			/* Pointer to the buffer to store numbered SFN */
-	const BYTE* src,	/* Pointer to SFN in directory form */
-	const WCHAR* lfn,	/* Pointer to LFN */
-	UINT seq			/* Sequence number */
-)
-{
-	BYTE ns[8], c;
-	UINT i, j;
-	WCHAR wc;
-	DWORD sreg;
-
-
-	memcpy(dst, src, 11);	/* Prepare the SFN to be modified */
-
-	if (seq > 5) {	/* In case of many collisions, generate a hash number instead of sequential number */
-		sreg = seq;
-		while (*lfn) {	/* Create a CRC as hash value */
-			wc = *lfn++;
-			for (i = 0; i < 16; i++) {
-				sreg = (sreg << 1) + (wc & 1);
-				wc >>= 1;
-				if (sreg & 0x10000) sreg ^= 0x11021;
-			}
-		}
-		seq = (UINT)sreg;
-	}
-
-	/* Make suffix (~ + hexdecimal) */
-	i = 7;
-	do {
-		c = (BYTE)((seq % 16) + '0'); seq /= 16;
-		if (c > '9') c += 7;
-		ns[i--] = c;
-	} while (i && seq);
-	ns[i] = '~';
-
-	/* Append the suffix to the SFN body */
-	for (j = 0; j < i && dst[j] != ' '; j++) {	/* Find the offset to append */
-		if (dbc_1st(dst[j])) {	/* To avoid DBC break up */
-			if (j == i - 1) break;
-			j++;
-		}
-	}
-	do {	/* Append the suffix */
-		dst[j++] = (i < 8) ? ns[i++] : ' ';
-	} while (j < 8);
-}
-#endif	/* FF_USE_LFN && !FF_FS_READONLY */
-
-
-
-#if FF_USE_LFN
-/*-----------------------------------------------------------------------*/
-/* FAT-LFN: Calculate checksum of an SFN entry                           */
-/*-----------------------------------------------------------------------*/
-
-static BYTE sum_sfn (
-	const BYTE* dir		/* Pointer to the SFN entry */
-)
-{
-	BYTE sum = 0;
-	UINT n = 11;
-
-	do {
-		sum = (sum >> 1) + (sum << 7) + *dir++;
-	} while (--n);
-	return sum;
-}
-
-#endif	/* FF_USE_LFN */
-
-
-
-#if FF_FS_EXFAT
-/*-----------------------------------------------------------------------*/
-/* exFAT: Checksum                                                       */
-/*-----------------------------------------------------------------------*/
-
-static WORD xdir_sum (	/* Get checksum of the directoly entry block */
-	const BYTE* dir		/* Directory entry block to be calculated */
-)
-{
-	UINT i, szblk;
-	WORD sum;
-
-
-	szblk = (dir[XDIR_NumSec] + 1) * SZDIRE;	/* Number of bytes of the entry block */
-	for (i = sum = 0; i < szblk; i++) {
-		if (i == XDIR_SetSum) {	/* Skip 2-byte sum field */
-			i++;
-		} else {
-			sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + dir[i];
-		}
-	}
-	return sum;
-}
-
-
-
-static WORD xname_sum (	/* Get check sum (to be used as hash) of the file name */
-	const WCHAR* name	/* File name to be calculated */
-)
-{
-	WCHAR chr;
-	WORD sum = 0;
-
-
-	while ((chr = *name++) != 0) {
-		chr = (WCHAR)ff_wtoupper(chr);		/* File name needs to be up-case converted */
-		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr & 0xFF);
-		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr >> 8);
-	}
-	return sum;
-}
-
-
-#if !FF_FS_READONLY && FF_USE_MKFS
-static DWORD xsum32 (	/* Returns 32-bit checksum */
-	BYTE  dat,			/* Byte to be calculated (byte-by-byte processing) */
-	DWORD sum			/* Previous sum value */
-)
-{
-	sum = ((sum & 1) ? 0x80000000 : 0) + (sum >> 1) + dat;
-	return sum;
-}
-#endif
-
-
-
-/*-----------------------------------*/
-/* exFAT: Get a directry entry block */
-/*-----------------------------------*/
-
-static FRESULT load_xdir (	/* FR_INT_ERR: invalid entry block */
-	DIR* dp					/* Reading direcotry object pointing top of the entry block to load */
-)
-{
-	FRESULT res;
-	UINT i, sz_ent;
-	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the on-memory direcotry entry block 85+C0+C1s */
-
-
-	/* Load file directory entry */
-	res = move_window(dp->obj.fs, dp->sect);
-	if (res != FR_OK) return res;
-	if (dp->dir[XDIR_Type] != ET_FILEDIR) return FR_INT_ERR;	/* Invalid order */
-	memcpy(dirb + 0 * SZDIRE, dp->dir, SZDIRE);
-	sz_ent = (dirb[XDIR_NumSec] + 1) * SZDIRE;
-	if (sz_ent < 3 * SZDIRE || sz_ent > 19 * SZDIRE) return FR_INT_ERR;
-
-	/* Load stream extension entry */
-	res = dir_next(dp, 0);
-	if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
-	if (res != FR_OK) return res;
-	res = move_window(dp->obj.fs, dp->sect);
-	if (res != FR_OK) return res;
-	if (dp->dir[XDIR_Type] != ET_STREAM) return FR_INT_ERR;	/* Invalid order */
-	memcpy(dirb + 1 * SZDIRE, dp->dir, SZDIRE);
-	if (MAXDIRB(dirb[XDIR_NumName]) > sz_ent) return FR_INT_ERR;
-
-	/* Load file name entries */
-	i = 2 * SZDIRE;	/* Name offset to load */
-	do {
-		res = dir_next(dp, 0);
-		if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
-		if (res != FR_OK) return res;
-		res = move_window(dp->obj.fs, dp->sect);
-		if (res != FR_OK) return res;
-		if (dp->dir[XDIR_Type] != ET_FILENAME) return FR_INT_ERR;	/* Invalid order */
-		if (i < MAXDIRB(FF_MAX_LFN)) memcpy(dirb + i, dp->dir, SZDIRE);
-	} while ((i += SZDIRE) < sz_ent);
-
-	/* Sanity check (do it for only accessible object) */
-	if (i <= MAXDIRB(FF_MAX_LFN)) {
-		if (xdir_sum(dirb) != ld_word(dirb + XDIR_SetSum)) return FR_INT_ERR;
-	}
-	return FR_OK;
-}
-
-
-/*------------------------------------------------------------------*/
-/* exFAT: Initialize object allocation info with loaded entry block */
-/*------------------------------------------------------------------*/
-
-static void init_alloc_info (
-	FATFS* fs,		/* Filesystem object */
-	FFOBJID* obj	/* Object allocation information to be initialized */
-)
-{
-	obj->sclust = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Start cluster */
-	obj->objsize = ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
-	obj->stat = fs->dirbuf[XDIR_GenFlags] & 2;				/* Allocation status */
-	obj->n_frag = 0;										/* No last fragment info */
-}
-
-
-
-#if !FF_FS_READONLY || FF_FS_RPATH != 0
-/*------------------------------------------------*/
-/* exFAT: Load the object's directory entry block */
-/*------------------------------------------------*/
-
-static FRESULT load_obj_xdir (
-	DIR* dp,			/* Blank directory object to be used to access containing direcotry */
-	const FFOBJID* obj	/* Object with its containing directory information */
-)
-{
-	FRESULT res;
-
-	/* Open object containing directory */
-	dp->obj.fs = obj->fs;
-	dp->obj.sclust = obj->c_scl;
-	dp->obj.stat = (BYTE)obj->c_size;
-	dp->obj.objsize = obj->c_size & 0xFFFFFF00;
-	dp->obj.n_frag = 0;
-	dp->blk_ofs = obj->c_ofs;
-
-	res = dir_sdi(dp, dp->blk_ofs);	/* Goto object's entry block */
-	if (res == FR_OK) {
-		res = load_xdir(dp);		/* Load the object's entry block */
-	}
-	return res;
-}
-#endif
-
-
-#if !FF_FS_READONLY
-/*----------------------------------------*/
-/* exFAT: Store the directory entry block */
-/*----------------------------------------*/
-
-static FRESULT store_xdir (
-	DIR* dp				/* Pointer to the direcotry object */
-)
-{
-	FRESULT res;
-	UINT nent;
-	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the direcotry entry block 85+C0+C1s */
-
-	/* Create set sum */
-	st_word(dirb + XDIR_SetSum, xdir_sum(dirb));
-	nent = dirb[XDIR_NumSec] + 1;
-
-	/* Store the direcotry entry block to the directory */
-	res = dir_sdi(dp, dp->blk_ofs);
-	while (res == FR_OK) {
-		res = move_window(dp->obj.fs, dp->sect);
-		if (res != FR_OK) break;
-		memcpy(dp->dir, dirb, SZDIRE);
-		dp->obj.fs->wflag = 1;
-		if (--nent == 0) break;
-		dirb += SZDIRE;
-		res = dir_next(dp, 0);
-	}
-	return (res == FR_OK || res == FR_DISK_ERR) ? res : FR_INT_ERR;
-}
-
-
-
-/*-------------------------------------------*/
-/* exFAT: Create a new directory enrty block */
-/*-------------------------------------------*/
-
-static void create_xdir (
-	BYTE* dirb,			/* Pointer to the direcotry entry block buffer */
-	const WCHAR* lfn	/* Pointer to the object name */
-)
-{
-	UINT i;
-	BYTE nc1, nlen;
-	WCHAR wc;
-
-
-	/* Create file-directory and stream-extension entry */
-	memset(dirb, 0, 2 * SZDIRE);
-	dirb[0 * SZDIRE + XDIR_Type] = ET_FILEDIR;
-	dirb[1 * SZDIRE + XDIR_Type] = ET_STREAM;
-
-	/* Create file-name entries */
-	i = SZDIRE * 2;	/* Top of file_name entries */
-	nlen = nc1 = 0; wc = 1;
-	do {
-		dirb[i++] = ET_FILENAME; dirb[i++] = 0;
-		do {	/* Fill name field */
-			if (wc != 0 && (wc = lfn[nlen]) != 0) nlen++;	/* Get a character if exist */
-			st_word(dirb + i, wc); 	/* Store it */
-			i += 2;
-		} while (i % SZDIRE != 0);
-		nc1++;
-	} while (lfn[nlen]);	/* Fill next entry if any char follows */
-
-	dirb[XDIR_NumName] = nlen;		/* Set name length */
-	dirb[XDIR_NumSec] = 1 + nc1;	/* Set secondary count (C0 + C1s) */
-	st_word(dirb + XDIR_NameHash, xname_sum(lfn));	/* Set name hash */
-}
-
-#endif	/* !FF_FS_READONLY */
-#endif	/* FF_FS_EXFAT */
-
-
-
-#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
-/*-----------------------------------------------------------------------*/
-/* Read an object from the directory                                     */
-/*-----------------------------------------------------------------------*/
-
-#define DIR_READ_FILE(dp) dir_read(dp, 0)
-#define DIR_READ_LABEL(dp) dir_read(dp, 1)
-
-static FRESULT dir_read (
-	DIR* dp,		/* Pointer to the directory object */
-	int vol			/* Filtered by 0:file/directory or 1:volume label */
-)
-{
-	FRESULT res = FR_NO_FILE;
-	FATFS *fs = dp->obj.fs;
-	BYTE attr, b;
-#if FF_USE_LFN
-	BYTE ord = 0xFF, sum = 0xFF;
-#endif
-
-	while (dp->sect) {
-		res = move_window(fs, dp->sect);
-		if (res != FR_OK) break;
-		b = dp->dir[DIR_Name];	/* Test for the entry type */
-		if (b == 0) {
-			res = FR_NO_FILE; break; /* Reached to end of the directory */
-		}
-#if FF_FS_EXFAT
-		if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-			if (FF_USE_LABEL && vol) {
-				if (b == ET_VLABEL) break;	/* Volume label entry? */
-			} else {
-				if (b == ET_FILEDIR) {		/* Start of the file entry block? */
-					dp->blk_ofs = dp->dptr;	/* Get location of the block */
-					res = load_xdir(dp);	/* Load the entry block */
-					if (res == FR_OK) {
-						dp->obj.attr = fs->dirbuf[XDIR_Attr] & AM_MASK;	/* Get attribute */
-					}
-					break;
-				}
-			}
-		} else
-#endif
-		{	/* On the FAT/FAT32 volume */
-			dp->obj.attr = attr = dp->dir[DIR_Attr] & AM_MASK;	/* Get attribute */
-#if FF_USE_LFN		/* LFN configuration */
-			if (b == DDEM || b == '.' || (int)((attr & ~AM_ARC) == AM_VOL) != vol) {	/* An entry without valid data */
-				ord = 0xFF;
-			} else {
-				if (attr == AM_LFN) {	/* An LFN entry is found */
-					if (b & LLEF) {		/* Is it start of an LFN sequence? */
-						sum = dp->dir[LDIR_Chksum];
-						b &= (BYTE)~LLEF; ord = b;
-						dp->blk_ofs = dp->dptr;
-					}
-					/* Check LFN validity and capture it */
-					ord = (b == ord && sum == dp->dir[LDIR_Chksum] && pick_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
-				} else {				/* An SFN entry is found */
-					if (ord != 0 || sum != sum_sfn(dp->dir)) {	/* Is there a valid LFN? */
-						dp->blk_ofs = 0xFFFFFFFF;	/* It has no LFN. */
-					}
-					break;
-				}
-			}
-#else		/* Non LFN configuration */
-			if (b != DDEM && b != '.' && attr != AM_LFN && (int)((attr & ~AM_ARC) == AM_VOL) == vol) {	/* Is it a valid entry? */
-				break;
-			}
-#endif
-		}
-		res = dir_next(dp, 0);		/* Next entry */
-		if (res != FR_OK) break;
-	}
-
-	if (res != FR_OK) dp->sect = 0;		/* Terminate the read operation on error or EOT */
-	return res;
-}
-
-#endif	/* FF_FS_MINIMIZE <= 1 || FF_USE_LABEL || FF_FS_RPATH >= 2 */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Directory handling - Find an object in the directory                  */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_find (	/* FR_OK(0):succeeded, !=0:error */
-	DIR* dp					/* Pointer to the directory object with the file name */
-)
-{
-	FRESULT res;
-	FATFS *fs = dp->obj.fs;
-	BYTE c;
-#if FF_USE_LFN
-	BYTE a, ord, sum;
-#endif
-
-	res = dir_sdi(dp, 0);			/* Rewind directory object */
-	if (res != FR_OK) return res;
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		BYTE nc;
-		UINT di, ni;
-		WORD hash = xname_sum(fs->lfnbuf);		/* Hash value of the name to find */
-
-		while ((res = DIR_READ_FILE(dp)) == FR_OK) {	/* Read an item */
-#if FF_MAX_LFN < 255
-			if (fs->dirbuf[XDIR_NumName] > FF_MAX_LFN) continue;		/* Skip comparison if inaccessible object name */
-#endif
-			if (ld_word(fs->dirbuf + XDIR_NameHash) != hash) continue;	/* Skip comparison if hash mismatched */
-			for (nc = fs->dirbuf[XDIR_NumName], di = SZDIRE * 2, ni = 0; nc; nc--, di += 2, ni++) {	/* Compare the name */
-				if ((di % SZDIRE) == 0) di += 2;
-				if (ff_wtoupper(ld_word(fs->dirbuf + di)) != ff_wtoupper(fs->lfnbuf[ni])) break;
-			}
-			if (nc == 0 && !fs->lfnbuf[ni]) break;	/* Name matched? */
-		}
-		return res;
-	}
-#endif
-	/* On the FAT/FAT32 volume */
-#if FF_USE_LFN
-	ord = sum = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
-#endif
-	do {
-		res = move_window(fs, dp->sect);
-		if (res != FR_OK) break;
-		c = dp->dir[DIR_Name];
-		if (c == 0) { res = FR_NO_FILE; break; }	/* Reached to end of table */
-#if FF_USE_LFN		/* LFN configuration */
-		dp->obj.attr = a = dp->dir[DIR_Attr] & AM_MASK;
-		if (c == DDEM || ((a & AM_VOL) && a != AM_LFN)) {	/* An entry without valid data */
-			ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
-		} else {
-			if (a == AM_LFN) {			/* An LFN entry is found */
-				if (!(dp->fn[NSFLAG] & NS_NOLFN)) {
-					if (c & LLEF) {		/* Is it start of LFN sequence? */
-						sum = dp->dir[LDIR_Chksum];
-						c &= (BYTE)~LLEF; ord = c;	/* LFN start order */
-						dp->blk_ofs = dp->dptr;	/* Start offset of LFN */
-					}
-					/* Check validity of the LFN entry and compare it with given name */
-					ord = (c == ord && sum == dp->dir[LDIR_Chksum] && cmp_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
-				}
-			} else {					/* An SFN entry is found */
-				if (ord == 0 && sum == sum_sfn(dp->dir)) break;	/* LFN matched? */
-				if (!(dp->fn[NSFLAG] & NS_LOSS) && !memcmp(dp->dir, dp->fn, 11)) break;	/* SFN matched? */
-				ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
-			}
-		}
-#else		/* Non LFN configuration */
-		dp->obj.attr = dp->dir[DIR_Attr] & AM_MASK;
-		if (!(dp->dir[DIR_Attr] & AM_VOL) && !memcmp(dp->dir, dp->fn, 11)) break;	/* Is it a valid entry? */
-#endif
-		res = dir_next(dp, 0);	/* Next entry */
-	} while (res == FR_OK);
-
-	return res;
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Register an object to the directory                                   */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_register (	/* FR_OK:succeeded, FR_DENIED:no free entry or too many SFN collision, FR_DISK_ERR:disk error */
-	DIR* dp						/* Target directory with object name to be created */
-)
-{
-	FRESULT res;
-	FATFS *fs = dp->obj.fs;
-#if FF_USE_LFN		/* LFN configuration */
-	UINT n, len, n_ent;
-	BYTE sn[12], sum;
-
-
-	if (dp->fn[NSFLAG] & (NS_DOT | NS_NONAME)) return FR_INVALID_NAME;	/* Check name validity */
-	for (len = 0; fs->lfnbuf[len]; len++) ;	/* Get lfn length */
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		n_ent = (len + 14) / 15 + 2;	/* Number of entries to allocate (85+C0+C1s) */
-		res = dir_alloc(dp, n_ent);		/* Allocate directory entries */
-		if (res != FR_OK) return res;
-		dp->blk_ofs = dp->dptr - SZDIRE * (n_ent - 1);	/* Set the allocated entry block offset */
-
-		if (dp->obj.stat & 4) {			/* Has the directory been stretched by new allocation? */
-			dp->obj.stat &= ~4;
-			res = fill_first_frag(&dp->obj);	/* Fill the first fragment on the FAT if needed */
-			if (res != FR_OK) return res;
-			res = fill_last_frag(&dp->obj, dp->clust, 0xFFFFFFFF);	/* Fill the last fragment on the FAT if needed */
-			if (res != FR_OK) return res;
-			if (dp->obj.sclust != 0) {		/* Is it a sub-directory? */
-				DIR dj;
-
-				res = load_obj_xdir(&dj, &dp->obj);	/* Load the object status */
-				if (res != FR_OK) return res;
-				dp->obj.objsize += (DWORD)fs->csize * SS(fs);		/* Increase the directory size by cluster size */
-				st_qword(fs->dirbuf + XDIR_FileSize, dp->obj.objsize);
-				st_qword(fs->dirbuf + XDIR_ValidFileSize, dp->obj.objsize);
-				fs->dirbuf[XDIR_GenFlags] = dp->obj.stat | 1;		/* Update the allocation status */
-				res = store_xdir(&dj);				/* Store the object status */
-				if (res != FR_OK) return res;
-			}
-		}
-
-		create_xdir(fs->dirbuf, fs->lfnbuf);	/* Create on-memory directory block to be written later */
-		return FR_OK;
-	}
-#endif
-	/* On the FAT/FAT32 volume */
-	memcpy(sn, dp->fn, 12);
-	if (sn[NSFLAG] & NS_LOSS) {			/* When LFN is out of 8.3 format, generate a numbered name */
-		dp->fn[NSFLAG] = NS_NOLFN;		/* Find only SFN */
-		for (n = 1; n < 100; n++) {
-			gen_numname(dp->fn, sn, fs->lfnbuf, n);	/* Generate a numbered name */
-			res = dir_find(dp);				/* Check if the name collides with existing SFN */
-			if (res != FR_OK) break;
-		}
-		if (n == 100) return FR_DENIED;		/* Abort if too many collisions */
-		if (res != FR_NO_FILE) return res;	/* Abort if the result is other than 'not collided' */
-		dp->fn[NSFLAG] = sn[NSFLAG];
-	}
-
-	/* Create an SFN with/without LFNs. */
-	n_ent = (sn[NSFLAG] & NS_LFN) ? (len + 12) / 13 + 1 : 1;	/* Number of entries to allocate */
-	res = dir_alloc(dp, n_ent);		/* Allocate entries */
-	if (res == FR_OK && --n_ent) {	/* Set LFN entry if needed */
-		res = dir_sdi(dp, dp->dptr - n_ent * SZDIRE);
-		if (res == FR_OK) {
-			sum = sum_sfn(dp->fn);	/* Checksum value of the SFN tied to the LFN */
-			do {					/* Store LFN entries in bottom first */
-				res = move_window(fs, dp->sect);
-				if (res != FR_OK) break;
-				put_lfn(fs->lfnbuf, dp->dir, (BYTE)n_ent, sum);
-				fs->wflag = 1;
-				res = dir_next(dp, 0);	/* Next entry */
-			} while (res == FR_OK && --n_ent);
-		}
-	}
-
-#else	/* Non LFN configuration */
-	res = dir_alloc(dp, 1);		/* Allocate an entry for SFN */
-
-#endif
-
-	/* Set SFN entry */
-	if (res == FR_OK) {
-		res = move_window(fs, dp->sect);
-		if (res == FR_OK) {
-			memset(dp->dir, 0, SZDIRE);	/* Clean the entry */
-			memcpy(dp->dir + DIR_Name, dp->fn, 11);	/* Put SFN */
-#if FF_USE_LFN
-			dp->dir[DIR_NTres] = dp->fn[NSFLAG] & (NS_BODY | NS_EXT);	/* Put NT flag */
-#endif
-			fs->wflag = 1;
-		}
-	}
-
-	return res;
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-#if !FF_FS_READONLY && FF_FS_MINIMIZE == 0
-/*-----------------------------------------------------------------------*/
-/* Remove an object from the directory                                   */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT dir_remove (	/* FR_OK:Succeeded, FR_DISK_ERR:A disk error */
-	DIR* dp					/* Directory object pointing the entry to be removed */
-)
-{
-	FRESULT res;
-	FATFS *fs = dp->obj.fs;
-#if FF_USE_LFN		/* LFN configuration */
-	DWORD last = dp->dptr;
-
-	res = (dp->blk_ofs == 0xFFFFFFFF) ? FR_OK : dir_sdi(dp, dp->blk_ofs);	/* Goto top of the entry block if LFN is exist */
-	if (res == FR_OK) {
-		do {
-			res = move_window(fs, dp->sect);
-			if (res != FR_OK) break;
-			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-				dp->dir[XDIR_Type] &= 0x7F;	/* Clear the entry InUse flag. */
-			} else {										/* On the FAT/FAT32 volume */
-				dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'. */
-			}
-			fs->wflag = 1;
-			if (dp->dptr >= last) break;	/* If reached last entry then all entries of the object has been deleted. */
-			res = dir_next(dp, 0);	/* Next entry */
-		} while (res == FR_OK);
-		if (res == FR_NO_FILE) res = FR_INT_ERR;
-	}
-#else			/* Non LFN configuration */
-
-	res = move_window(fs, dp->sect);
-	if (res == FR_OK) {
-		dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'.*/
-		fs->wflag = 1;
-	}
-#endif
-
-	return res;
-}
-
-#endif /* !FF_FS_READONLY && FF_FS_MINIMIZE == 0 */
-
-
-
-#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2
-/*-----------------------------------------------------------------------*/
-/* Get file information from directory entry                             */
-/*-----------------------------------------------------------------------*/
-
-static void get_fileinfo (
-	DIR* dp,			/* Pointer to the directory object */
-	FILINFO* fno		/* Pointer to the file information to be filled */
-)
-{
-	UINT si, di;
-#if FF_USE_LFN
-	BYTE lcf;
-	WCHAR wc, hs;
-	FATFS *fs = dp->obj.fs;
-	UINT nw;
-#else
-	TCHAR c;
-#endif
-
-
-	fno->fname[0] = 0;			/* Invaidate file info */
-	if (dp->sect == 0) return;	/* Exit if read pointer has reached end of directory */
-
-#if FF_USE_LFN		/* LFN configuration */
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* exFAT volume */
-		UINT nc = 0;
-
-		si = SZDIRE * 2; di = 0;	/* 1st C1 entry in the entry block */
-		hs = 0;
-		while (nc < fs->dirbuf[XDIR_NumName]) {
-			if (si >= MAXDIRB(FF_MAX_LFN)) { di = 0; break; }	/* Truncated directory block? */
-			if ((si % SZDIRE) == 0) si += 2;		/* Skip entry type field */
-			wc = ld_word(fs->dirbuf + si); si += 2; nc++;	/* Get a character */
-			if (hs == 0 && IsSurrogate(wc)) {		/* Is it a surrogate? */
-				hs = wc; continue;					/* Get low surrogate */
-			}
-			nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
-			if (nw == 0) { di = 0; break; }			/* Buffer overflow or wrong char? */
-			di += nw;
-			hs = 0;
-		}
-		if (hs != 0) di = 0;					/* Broken surrogate pair? */
-		if (di == 0) fno->fname[di++] = '?';	/* Inaccessible object name? */
-		fno->fname[di] = 0;						/* Terminate the name */
-		fno->altname[0] = 0;					/* exFAT does not support SFN */
-
-		fno->fattrib = fs->dirbuf[XDIR_Attr] & AM_MASKX;		/* Attribute */
-		fno->fsize = (fno->fattrib & AM_DIR) ? 0 : ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
-		fno->ftime = ld_word(fs->dirbuf + XDIR_ModTime + 0);	/* Time */
-		fno->fdate = ld_word(fs->dirbuf + XDIR_ModTime + 2);	/* Date */
-		return;
-	} else
-#endif
-	{	/* FAT/FAT32 volume */
-		if (dp->blk_ofs != 0xFFFFFFFF) {	/* Get LFN if available */
-			si = di = 0;
-			hs = 0;
-			while (fs->lfnbuf[si] != 0) {
-				wc = fs->lfnbuf[si++];		/* Get an LFN character (UTF-16) */
-				if (hs == 0 && IsSurrogate(wc)) {	/* Is it a surrogate? */
-					hs = wc; continue;		/* Get low surrogate */
-				}
-				nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
-				if (nw == 0) { di = 0; break; }	/* Buffer overflow or wrong char? */
-				di += nw;
-				hs = 0;
-			}
-			if (hs != 0) di = 0;	/* Broken surrogate pair? */
-			fno->fname[di] = 0;		/* Terminate the LFN (null string means LFN is invalid) */
-		}
-	}
-
-	si = di = 0;
-	while (si < 11) {		/* Get SFN from SFN entry */
-		wc = dp->dir[si++];			/* Get a char */
-		if (wc == ' ') continue;	/* Skip padding spaces */
-		if (wc == RDDEM) wc = DDEM;	/* Restore replaced DDEM character */
-		if (si == 9 && di < FF_SFN_BUF) fno->altname[di++] = '.';	/* Insert a . if extension is exist */
-#if FF_LFN_UNICODE >= 1	/* Unicode output */
-		if (dbc_1st((BYTE)wc) && si != 8 && si != 11 && dbc_2nd(dp->dir[si])) {	/* Make a DBC if needed */
-			wc = wc << 8 | dp->dir[si++];
-		}
-		wc = ff_oem2uni(wc, CODEPAGE);		/* ANSI/OEM -> Unicode */
-		if (wc == 0) { di = 0; break; }		/* Wrong char in the current code page? */
-		nw = put_utf(wc, &fno->altname[di], FF_SFN_BUF - di);	/* Store it in API encoding */
-		if (nw == 0) { di = 0; break; }		/* Buffer overflow? */
-		di += nw;
-#else					/* ANSI/OEM output */
-		fno->altname[di++] = (TCHAR)wc;	/* Store it without any conversion */
-#endif
-	}
-	fno->altname[di] = 0;	/* Terminate the SFN  (null string means SFN is invalid) */
-
-	if (fno->fname[0] == 0) {	/* If LFN is invalid, altname[] needs to be copied to fname[] */
-		if (di == 0) {	/* If LFN and SFN both are invalid, this object is inaccesible */
-			fno->fname[di++] = '?';
-		} else {
-			for (si = di = 0, lcf = NS_BODY; fno->altname[si]; si++, di++) {	/* Copy altname[] to fname[] with case information */
-				wc = (WCHAR)fno->altname[si];
-				if (wc == '.') lcf = NS_EXT;
-				if (IsUpper(wc) && (dp->dir[DIR_NTres] & lcf)) wc += 0x20;
-				fno->fname[di] = (TCHAR)wc;
-			}
-		}
-		fno->fname[di] = 0;	/* Terminate the LFN */
-		if (!dp->dir[DIR_NTres]) fno->altname[0] = 0;	/* Altname is not needed if neither LFN nor case info is exist. */
-	}
-
-#else	/* Non-LFN configuration */
-	si = di = 0;
-	while (si < 11) {		/* Copy name body and extension */
-		c = (TCHAR)dp->dir[si++];
-		if (c == ' ') continue;		/* Skip padding spaces */
-		if (c == RDDEM) c = DDEM;	/* Restore replaced DDEM character */
-		if (si == 9) fno->fname[di++] = '.';/* Insert a . if extension is exist */
-		fno->fname[di++] = c;
-	}
-	fno->fname[di] = 0;		/* Terminate the SFN */
-#endif
-
-	fno->fattrib = dp->dir[DIR_Attr] & AM_MASK;			/* Attribute */
-	fno->fsize = ld_dword(dp->dir + DIR_FileSize);		/* Size */
-	fno->ftime = ld_word(dp->dir + DIR_ModTime + 0);	/* Time */
-	fno->fdate = ld_word(dp->dir + DIR_ModTime + 2);	/* Date */
-}
-
-#endif /* FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 */
-
-
-
-#if FF_USE_FIND && FF_FS_MINIMIZE <= 1
-/*-----------------------------------------------------------------------*/
-/* Pattern matching                                                      */
-/*-----------------------------------------------------------------------*/
-
-#define FIND_RECURS	4	/* Maximum number of wildcard terms in the pattern to limit recursion */
-
-
-static DWORD get_achar (	/* Get a character and advance ptr */
-	const TCHAR** ptr		/* Pointer to pointer to the ANSI/OEM or Unicode string */
-)
-{
-	DWORD chr;
-
-
-#if FF_USE_LFN && FF_LFN_UNICODE >= 1	/* Unicode input */
-	chr = tchar2uni(ptr);
-	if (chr == 0xFFFFFFFF) chr = 0;		/* Wrong UTF encoding is recognized as end of the string */
-	chr = ff_wtoupper(chr);
-
-#else									/* ANSI/OEM input */
-	chr = (BYTE)*(*ptr)++;				/* Get a byte */
-	if (IsLower(chr)) chr -= 0x20;		/* To upper ASCII char */
-#if FF_CODE_PAGE == 0
-	if (ExCvt && chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
-#elif FF_CODE_PAGE < 900
-	if (chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
-#endif
-#if FF_CODE_PAGE == 0 || FF_CODE_PAGE >= 900
-	if (dbc_1st((BYTE)chr)) {	/* Get DBC 2nd byte if needed */
-		chr = dbc_2nd((BYTE)**ptr) ? chr << 8 | (BYTE)*(*ptr)++ : 0;
-	}
-#endif
-
-#endif
-	return chr;
-}
-
-
-static int pattern_match (	/* 0:mismatched, 1:matched */
-	const TCHAR* pat,	/* Matching pattern */
-	const TCHAR* nam,	/* String to be tested */
-	UINT skip,			/* Number of pre-skip chars (number of ?s, b8:infinite (* specified)) */
-	UINT recur			/* Recursion count */
-)
-{
-	const TCHAR *pptr, *nptr;
-	DWORD pchr, nchr;
-	UINT sk;
-
-
-	while ((skip & 0xFF) != 0) {		/* Pre-skip name chars */
-		if (!get_achar(&nam)) return 0;	/* Branch mismatched if less name chars */
-		skip--;
-	}
-	if (*pat == 0 && skip) return 1;	/* Matched? (short circuit) */
-
-	do {
-		pptr = pat; nptr = nam;			/* Top of pattern and name to match */
-		for (;;) {
-			if (*pptr == '?' || *pptr == '*') {	/* Wildcard term? */
-				if (recur == 0) return 0;	/* Too many wildcard terms? */
-				sk = 0;
-				do {	/* Analyze the wildcard term */
-					if (*pptr++ == '?') sk++; else sk |= 0x100;
-				} while (*pptr == '?' || *pptr == '*');
-				if (pattern_match(pptr, nptr, sk, recur - 1)) return 1;	/* Test new branch (recursive call) */
-				nchr = *nptr; break;	/* Branch mismatched */
-			}
-			pchr = get_achar(&pptr);	/* Get a pattern char */
-			nchr = get_achar(&nptr);	/* Get a name char */
-			if (pchr != nchr) break;	/* Branch mismatched? */
-			if (pchr == 0) return 1;	/* Branch matched? (matched at end of both strings) */
-		}
-		get_achar(&nam);			/* nam++ */
-	} while (skip && nchr);		/* Retry until end of name if infinite search is specified */
-
-	return 0;
-}
-
-#endif /* FF_USE_FIND && FF_FS_MINIMIZE <= 1 */
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Pick a top segment and create the object name in directory form       */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT create_name (	/* FR_OK: successful, FR_INVALID_NAME: could not create */
-	DIR* dp,					/* Pointer to the directory object */
-	const TCHAR** path			/* Pointer to pointer to the segment in the path string */
-)
-{
-#if FF_USE_LFN		/* LFN configuration */
-	BYTE b, cf;
-	WCHAR wc, *lfn;
-	DWORD uc;
-	UINT i, ni, si, di;
-	const TCHAR *p;
-
-
-	/* Create LFN into LFN working buffer */
-	p = *path; lfn = dp->obj.fs->lfnbuf; di = 0;
-	for (;;) {
-		uc = tchar2uni(&p);			/* Get a character */
-		if (uc == 0xFFFFFFFF) return FR_INVALID_NAME;		/* Invalid code or UTF decode error */
-		if (uc >= 0x10000) lfn[di++] = (WCHAR)(uc >> 16);	/* Store high surrogate if needed */
-		wc = (WCHAR)uc;
-		if (wc < ' ' || IsSeparator(wc)) break;	/* Break if end of the path or a separator is found */
-		if (wc < 0x80 && strchr("*:<>|\"\?\x7F", (int)wc)) return FR_INVALID_NAME;	/* Reject illegal characters for LFN */
-		if (di >= FF_MAX_LFN) return FR_INVALID_NAME;	/* Reject too long name */
-		lfn[di++] = wc;				/* Store the Unicode character */
-	}
-	if (wc < ' ') {				/* Stopped at end of the path? */
-		cf = NS_LAST;			/* Last segment */
-	} else {					/* Stopped at a separator */
-		while (IsSeparator(*p)) p++;	/* Skip duplicated separators if exist */
-		cf = 0;					/* Next segment may follow */
-		if (IsTerminator(*p)) cf = NS_LAST;	/* Ignore terminating separator */
-	}
-	*path = p;					/* Return pointer to the next segment */
-
-#if FF_FS_RPATH != 0
-	if ((di == 1 && lfn[di - 1] == '.') ||
-		(di == 2 && lfn[di - 1] == '.' && lfn[di - 2] == '.')) {	/* Is this segment a dot name? */
-		lfn[di] = 0;
-		for (i = 0; i < 11; i++) {	/* Create dot name for SFN entry */
-			dp->fn[i] = (i < di) ? '.' : ' ';
-		}
-		dp->fn[i] = cf | NS_DOT;	/* This is a dot entry */
-		return FR_OK;
-	}
-#endif
-	while (di) {					/* Snip off trailing spaces and dots if exist */
-		wc = lfn[di - 1];
-		if (wc != ' ' && wc != '.') break;
-		di--;
-	}
-	lfn[di] = 0;							/* LFN is created into the working buffer */
-	if (di == 0) return FR_INVALID_NAME;	/* Reject null name */
-
-	/* Create SFN in directory form */
-	for (si = 0; lfn[si] == ' '; si++) ;	/* Remove leading spaces */
-	if (si > 0 || lfn[si] == '.') cf |= NS_LOSS | NS_LFN;	/* Is there any leading space or dot? */
-	while (di > 0 && lfn[di - 1] != '.') di--;	/* Find last dot (di<=si: no extension) */
-
-	memset(dp->fn, ' ', 11);
-	i = b = 0; ni = 8;
-	for (;;) {
-		wc = lfn[si++];					/* Get an LFN character */
-		if (wc == 0) break;				/* Break on end of the LFN */
-		if (wc == ' ' || (wc == '.' && si != di)) {	/* Remove embedded spaces and dots */
-			cf |= NS_LOSS | NS_LFN;
-			continue;
-		}
-
-		if (i >= ni || si == di) {		/* End of field? */
-			if (ni == 11) {				/* Name extension overflow? */
-				cf |= NS_LOSS | NS_LFN;
-				break;
-			}
-			if (si != di) cf |= NS_LOSS | NS_LFN;	/* Name body overflow? */
-			if (si > di) break;						/* No name extension? */
-			si = di; i = 8; ni = 11; b <<= 2;		/* Enter name extension */
-			continue;
-		}
-
-		if (wc >= 0x80) {	/* Is this an extended character? */
-			cf |= NS_LFN;	/* LFN entry needs to be created */
-#if FF_CODE_PAGE == 0
-			if (ExCvt) {	/* In SBCS cfg */
-				wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
-				if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
-			} else {		/* In DBCS cfg */
-				wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
-			}
-#elif FF_CODE_PAGE < 900	/* In SBCS cfg */
-			wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
-			if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
-#else						/* In DBCS cfg */
-			wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
-#endif
-		}
-
-		if (wc >= 0x100) {				/* Is this a DBC? */
-			if (i >= ni - 1) {			/* Field overflow? */
-				cf |= NS_LOSS | NS_LFN;
-				i = ni; continue;		/* Next field */
-			}
-			dp->fn[i++] = (BYTE)(wc >> 8);	/* Put 1st byte */
-		} else {						/* SBC */
-			if (wc == 0 || strchr("+,;=[]", (int)wc)) {	/* Replace illegal characters for SFN */
-				wc = '_'; cf |= NS_LOSS | NS_LFN;/* Lossy conversion */
-			} else {
-				if (IsUpper(wc)) {		/* ASCII upper case? */
-					b |= 2;
-				}
-				if (IsLower(wc)) {		/* ASCII lower case? */
-					b |= 1; wc -= 0x20;
-				}
-			}
-		}
-		dp->fn[i++] = (BYTE)wc;
-	}
-
-	if (dp->fn[0] == DDEM) dp->fn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
-
-	if (ni == 8) b <<= 2;				/* Shift capital flags if no extension */
-	if ((b & 0x0C) == 0x0C || (b & 0x03) == 0x03) cf |= NS_LFN;	/* LFN entry needs to be created if composite capitals */
-	if (!(cf & NS_LFN)) {				/* When LFN is in 8.3 format without extended character, NT flags are created */
-		if (b & 0x01) cf |= NS_EXT;		/* NT flag (Extension has small capital letters only) */
-		if (b & 0x04) cf |= NS_BODY;	/* NT flag (Body has small capital letters only) */
-	}
-
-	dp->fn[NSFLAG] = cf;	/* SFN is created into dp->fn[] */
-
-	return FR_OK;
-
-
-#else	/* FF_USE_LFN : Non-LFN configuration */
-	BYTE c, d, *sfn;
-	UINT ni, si, i;
-	const char *p;
-
-	/* Create file name in directory form */
-	p = *path; sfn = dp->fn;
-	memset(sfn, ' ', 11);
-	si = i = 0; ni = 8;
-#if FF_FS_RPATH != 0
-	if (p[si] == '.') { /* Is this a dot entry? */
-		for (;;) {
-			c = (BYTE)p[si++];
-			if (c != '.' || si >= 3) break;
-			sfn[i++] = c;
-		}
-		if (!IsSeparator(c) && c > ' ') return FR_INVALID_NAME;
-		*path = p + si;					/* Return pointer to the next segment */
-		sfn[NSFLAG] = (c <= ' ') ? NS_LAST | NS_DOT : NS_DOT;	/* Set last segment flag if end of the path */
-		return FR_OK;
-	}
-#endif
-	for (;;) {
-		c = (BYTE)p[si++];				/* Get a byte */
-		if (c <= ' ') break; 			/* Break if end of the path name */
-		if (IsSeparator(c)) {			/* Break if a separator is found */
-			while (IsSeparator(p[si])) si++;	/* Skip duplicated separator if exist */
-			break;
-		}
-		if (c == '.' || i >= ni) {		/* End of body or field overflow? */
-			if (ni == 11 || c != '.') return FR_INVALID_NAME;	/* Field overflow or invalid dot? */
-			i = 8; ni = 11;				/* Enter file extension field */
-			continue;
-		}
-#if FF_CODE_PAGE == 0
-		if (ExCvt && c >= 0x80) {		/* Is SBC extended character? */
-			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
-		}
-#elif FF_CODE_PAGE < 900
-		if (c >= 0x80) {				/* Is SBC extended character? */
-			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
-		}
-#endif
-		if (dbc_1st(c)) {				/* Check if it is a DBC 1st byte */
-			d = (BYTE)p[si++];			/* Get 2nd byte */
-			if (!dbc_2nd(d) || i >= ni - 1) return FR_INVALID_NAME;	/* Reject invalid DBC */
-			sfn[i++] = c;
-			sfn[i++] = d;
-		} else {						/* SBC */
-			if (strchr("*+,:;<=>[]|\"\?\x7F", (int)c)) return FR_INVALID_NAME;	/* Reject illegal chrs for SFN */
-			if (IsLower(c)) c -= 0x20;	/* To upper */
-			sfn[i++] = c;
-		}
-	}
-	*path = &p[si];						/* Return pointer to the next segment */
-	if (i == 0) return FR_INVALID_NAME;	/* Reject nul string */
-
-	if (sfn[0] == DDEM) sfn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
-	sfn[NSFLAG] = (c <= ' ' || p[si] <= ' ') ? NS_LAST : 0;	/* Set last segment flag if end of the path */
-
-	return FR_OK;
-#endif /* FF_USE_LFN */
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Follow a file path                                                    */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT follow_path (	/* FR_OK(0): successful, !=0: error code */
-	DIR* dp,					/* Directory object to return last directory and found object */
-	const TCHAR* path			/* Full-path string to find a file or directory */
-)
-{
-	FRESULT res;
-	BYTE ns;
-	FATFS *fs = dp->obj.fs;
-
-
-#if FF_FS_RPATH != 0
-	if (!IsSeparator(*path) && (FF_STR_VOLUME_ID != 2 || !IsTerminator(*path))) {	/* Without heading separator */
-		dp->obj.sclust = fs->cdir;			/* Start at the current directory */
-	} else
-#endif
-	{										/* With heading separator */
-		while (IsSeparator(*path)) path++;	/* Strip separators */
-		dp->obj.sclust = 0;					/* Start from the root directory */
-	}
-#if FF_FS_EXFAT
-	dp->obj.n_frag = 0;	/* Invalidate last fragment counter of the object */
-#if FF_FS_RPATH != 0
-	if (fs->fs_type == FS_EXFAT && dp->obj.sclust) {	/* exFAT: Retrieve the sub-directory's status */
-		DIR dj;
-
-		dp->obj.c_scl = fs->cdc_scl;
-		dp->obj.c_size = fs->cdc_size;
-		dp->obj.c_ofs = fs->cdc_ofs;
-		res = load_obj_xdir(&dj, &dp->obj);
-		if (res != FR_OK) return res;
-		dp->obj.objsize = ld_dword(fs->dirbuf + XDIR_FileSize);
-		dp->obj.stat = fs->dirbuf[XDIR_GenFlags] & 2;
-	}
-#endif
-#endif
-
-	if ((UINT)*path < ' ') {				/* Null path name is the origin directory itself */
-		dp->fn[NSFLAG] = NS_NONAME;
-		res = dir_sdi(dp, 0);
-
-	} else {								/* Follow path */
-		for (;;) {
-			res = create_name(dp, &path);	/* Get a segment name of the path */
-			if (res != FR_OK) break;
-			res = dir_find(dp);				/* Find an object with the segment name */
-			ns = dp->fn[NSFLAG];
-			if (res != FR_OK) {				/* Failed to find the object */
-				if (res == FR_NO_FILE) {	/* Object is not found */
-					if (FF_FS_RPATH && (ns & NS_DOT)) {	/* If dot entry is not exist, stay there */
-						if (!(ns & NS_LAST)) continue;	/* Continue to follow if not last segment */
-						dp->fn[NSFLAG] = NS_NONAME;
-						res = FR_OK;
-					} else {							/* Could not find the object */
-						if (!(ns & NS_LAST)) res = FR_NO_PATH;	/* Adjust error code if not last segment */
-					}
-				}
-				break;
-			}
-			if (ns & NS_LAST) break;		/* Last segment matched. Function completed. */
-			/* Get into the sub-directory */
-			if (!(dp->obj.attr & AM_DIR)) {	/* It is not a sub-directory and cannot follow */
-				res = FR_NO_PATH; break;
-			}
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {	/* Save containing directory information for next dir */
-				dp->obj.c_scl = dp->obj.sclust;
-				dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
-				dp->obj.c_ofs = dp->blk_ofs;
-				init_alloc_info(fs, &dp->obj);	/* Open next directory */
-			} else
-#endif
-			{
-				dp->obj.sclust = ld_clust(fs, fs->win + dp->dptr % SS(fs));	/* Open next directory */
-			}
-		}
-	}
-
-	return res;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Get logical drive number from path name                               */
-/*-----------------------------------------------------------------------*/
-
-static int get_ldnumber (	/* Returns logical drive number (-1:invalid drive number or null pointer) */
-	const TCHAR** path		/* Pointer to pointer to the path name */
-)
-{
-	const TCHAR *tp, *tt;
-	TCHAR tc;
-	int i;
-	int vol = -1;
-#if FF_STR_VOLUME_ID		/* Find string volume ID */
-	const char *sp;
-	char c;
-#endif
-
-	tt = tp = *path;
-	if (!tp) return vol;	/* Invalid path name? */
-	do tc = *tt++; while (!IsTerminator(tc) && tc != ':');	/* Find a colon in the path */
-
-	if (tc == ':') {	/* DOS/Windows style volume ID? */
-		i = FF_VOLUMES;
-		if (IsDigit(*tp) && tp + 2 == tt) {	/* Is there a numeric volume ID + colon? */
-			i = (int)*tp - '0';	/* Get the LD number */
-		}
-#if FF_STR_VOLUME_ID == 1	/* Arbitrary string is enabled */
-		else {
-			i = 0;
-			do {
-				sp = VolumeStr[i]; tp = *path;	/* This string volume ID and path name */
-				do {	/* Compare the volume ID with path name */
-					c = *sp++; tc = *tp++;
-					if (IsLower(c)) c -= 0x20;
-					if (IsLower(tc)) tc -= 0x20;
-				} while (c && (TCHAR)c == tc);
-			} while ((c || tp != tt) && ++i < FF_VOLUMES);	/* Repeat for each id until pattern match */
-		}
-#endif
-		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
-			vol = i;		/* Drive number */
-			*path = tt;		/* Snip the drive prefix off */
-		}
-		return vol;
-	}
-#if FF_STR_VOLUME_ID == 2		/* Unix style volume ID is enabled */
-	if (*tp == '/') {			/* Is there a volume ID? */
-		while (*(tp + 1) == '/') tp++;	/* Skip duplicated separator */
-		i = 0;
-		do {
-			tt = tp; sp = VolumeStr[i]; /* Path name and this string volume ID */
-			do {	/* Compare the volume ID with path name */
-				c = *sp++; tc = *(++tt);
-				if (IsLower(c)) c -= 0x20;
-				if (IsLower(tc)) tc -= 0x20;
-			} while (c && (TCHAR)c == tc);
-		} while ((c || (tc != '/' && !IsTerminator(tc))) && ++i < FF_VOLUMES);	/* Repeat for each ID until pattern match */
-		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
-			vol = i;		/* Drive number */
-			*path = tt;		/* Snip the drive prefix off */
-		}
-		return vol;
-	}
-#endif
-	/* No drive prefix is found */
-#if FF_FS_RPATH != 0
-	vol = CurrVol;	/* Default drive is current drive */
-#else
-	vol = 0;		/* Default drive is 0 */
-#endif
-	return vol;		/* Return the default drive */
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* GPT support functions                                                 */
-/*-----------------------------------------------------------------------*/
-
-#if FF_LBA64
-
-/* Calculate CRC32 in byte-by-byte */
-
-static DWORD crc32 (	/* Returns next CRC value */
-	DWORD crc,			/* Current CRC value */
-	BYTE d				/* A byte to be processed */
-)
-{
-	BYTE b;
-
-
-	for (b = 1; b; b <<= 1) {
-		crc ^= (d & b) ? 1 : 0;
-		crc = (crc & 1) ? crc >> 1 ^ 0xEDB88320 : crc >> 1;
-	}
-	return crc;
-}
-
-
-/* Check validity of GPT header */
-
-static int test_gpt_header (	/* 0:Invalid, 1:Valid */
-	const BYTE* gpth			/* Pointer to the GPT header */
-)
-{
-	UINT i;
-	DWORD bcc;
-
-
-	if (memcmp(gpth + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16)) return 0;	/* Check sign, version (1.0) and length (92) */
-	for (i = 0, bcc = 0xFFFFFFFF; i < 92; i++) {		/* Check header BCC */
-		bcc = crc32(bcc, i - GPTH_Bcc < 4 ? 0 : gpth[i]);
-	}
-	if (~bcc != ld_dword(gpth + GPTH_Bcc)) return 0;
-	if (ld_dword(gpth + GPTH_PteSize) != SZ_GPTE) return 0;	/* Table entry size (must be SZ_GPTE bytes) */
-	if (ld_dword(gpth + GPTH_PtNum) > 128) return 0;	/* Table size (must be 128 entries or less) */
-
-	return 1;
-}
-
-#if !FF_FS_READONLY && FF_USE_MKFS
-
-/* Generate random value */
-static DWORD make_rand (
-	DWORD seed,		/* Seed value */
-	BYTE* buff,		/* Output buffer */
-	UINT n			/* Data length */
-)
-{
-	UINT r;
-
-
-	if (seed == 0) seed = 1;
-	do {
-		for (r = 0; r < 8; r++) seed = seed & 1 ? seed >> 1 ^ 0xA3000000 : seed >> 1;	/* Shift 8 bits the 32-bit LFSR */
-		*buff++ = (BYTE)seed;
-	} while (--n);
-	return seed;
-}
-
-#endif
-#endif
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Load a sector and check if it is an FAT VBR                           */
-/*-----------------------------------------------------------------------*/
-
-/* Check what the sector is */
-
-static UINT check_fs (	/* 0:FAT/FAT32 VBR, 1:exFAT VBR, 2:Not FAT and valid BS, 3:Not FAT and invalid BS, 4:Disk error */
-	FATFS* fs,			/* Filesystem object */
-	LBA_t sect			/* Sector to load and check if it is an FAT-VBR or not */
-)
-{
-	WORD w, sign;
-	BYTE b;
-
-
-	fs->wflag = 0; fs->winsect = (LBA_t)0 - 1;		/* Invaidate window */
-	if (move_window(fs, sect) != FR_OK) return 4;	/* Load the boot sector */
-	sign = ld_word(fs->win + BS_55AA);
-#if FF_FS_EXFAT
-	if (sign == 0xAA55 && !memcmp(fs->win + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11)) return 1;	/* It is an exFAT VBR */
-#endif
-	b = fs->win[BS_JmpBoot];
-	if (b == 0xEB || b == 0xE9 || b == 0xE8) {	/* Valid JumpBoot code? (short jump, near jump or near call) */
-		if (sign == 0xAA55 && !memcmp(fs->win + BS_FilSysType32, "FAT32   ", 8)) {
-			return 0;	/* It is an FAT32 VBR */
-		}
-		/* FAT volumes formatted with early MS-DOS lack BS_55AA and BS_FilSysType, so FAT VBR needs to be identified without them. */
-		w = ld_word(fs->win + BPB_BytsPerSec);
-		b = fs->win[BPB_SecPerClus];
-		if ((w & (w - 1)) == 0 && w >= FF_MIN_SS && w <= FF_MAX_SS	/* Properness of sector size (512-4096 and 2^n) */
-			&& b != 0 && (b & (b - 1)) == 0				/* Properness of cluster size (2^n) */
-			&& ld_word(fs->win + BPB_RsvdSecCnt) != 0	/* Properness of reserved sectors (MNBZ) */
-			&& (UINT)fs->win[BPB_NumFATs] - 1 <= 1		/* Properness of FATs (1 or 2) */
-			&& ld_word(fs->win + BPB_RootEntCnt) != 0	/* Properness of root dir entries (MNBZ) */
-			&& (ld_word(fs->win + BPB_TotSec16) >= 128 || ld_dword(fs->win + BPB_TotSec32) >= 0x10000)	/* Properness of volume sectors (>=128) */
-			&& ld_word(fs->win + BPB_FATSz16) != 0) {	/* Properness of FAT size (MNBZ) */
-				return 0;	/* It can be presumed an FAT VBR */
-		}
-	}
-	return sign == 0xAA55 ? 2 : 3;	/* Not an FAT VBR (valid or invalid BS) */
-}
-
-
-/* Find an FAT volume */
-/* (It supports only generic partitioning rules, MBR, GPT and SFD) */
-
-static UINT find_volume (	/* Returns BS status found in the hosting drive */
-	FATFS* fs,		/* Filesystem object */
-	UINT part		/* Partition to fined = 0:auto, 1..:forced */
-)
-{
-	UINT fmt, i;
-	DWORD mbr_pt[4];
-
-
-	fmt = check_fs(fs, 0);				/* Load sector 0 and check if it is an FAT VBR as SFD format */
-	if (fmt != 2 && (fmt >= 3 || part == 0)) return fmt;	/* Returns if it is an FAT VBR as auto scan, not a BS or disk error */
-
-	/* Sector 0 is not an FAT VBR or forced partition number wants a partition */
-
-#if FF_LBA64
-	if (fs->win[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
-		DWORD n_ent, v_ent, ofs;
-		QWORD pt_lba;
-
-		if (move_window(fs, 1) != FR_OK) return 4;	/* Load GPT header sector (next to MBR) */
-		if (!test_gpt_header(fs->win)) return 3;	/* Check if GPT header is valid */
-		n_ent = ld_dword(fs->win + GPTH_PtNum);		/* Number of entries */
-		pt_lba = ld_qword(fs->win + GPTH_PtOfs);	/* Table location */
-		for (v_ent = i = 0; i < n_ent; i++) {		/* Find FAT partition */
-			if (move_window(fs, pt_lba + i * SZ_GPTE / SS(fs)) != FR_OK) return 4;	/* PT sector */
-			ofs = i * SZ_GPTE % SS(fs);												/* Offset in the sector */
-			if (!memcmp(fs->win + ofs + GPTE_PtGuid, GUID_MS_Basic, 16)) {	/* MS basic data partition? */
-				v_ent++;
-				fmt = check_fs(fs, ld_qword(fs->win + ofs + GPTE_FstLba));	/* Load VBR and check status */
-				if (part == 0 && fmt <= 1) return fmt;			/* Auto search (valid FAT volume found first) */
-				if (part != 0 && v_ent == part) return fmt;		/* Forced partition order (regardless of it is valid or not) */
-			}
-		}
-		return 3;	/* Not found */
-	}
-#endif
-	if (FF_MULTI_PARTITION && part > 4) return 3;	/* MBR has 4 partitions max */
-	for (i = 0; i < 4; i++) {		/* Load partition offset in the MBR */
-		mbr_pt[i] = ld_dword(fs->win + MBR_Table + i * SZ_PTE + PTE_StLba);
-	}
-	i = part ? part - 1 : 0;		/* Table index to find first */
-	do {							/* Find an FAT volume */
-		fmt = mbr_pt[i] ? check_fs(fs, mbr_pt[i]) : 3;	/* Check if the partition is FAT */
-	} while (part == 0 && fmt >= 2 && ++i < 4);
-	return fmt;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Determine logical drive number and mount the volume if needed         */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT mount_volume (	/* FR_OK(0): successful, !=0: an error occurred */
-	const TCHAR** path,			/* Pointer to pointer to the path name (drive number) */
-	FATFS** rfs,				/* Pointer to pointer to the found filesystem object */
-	BYTE mode					/* !=0: Check write protection for write access */
-)
-{
-	int vol;
-	DSTATUS stat;
-	LBA_t bsect;
-	DWORD tsect, sysect, fasize, nclst, szbfat;
-	WORD nrsv;
-	FATFS *fs;
-	UINT fmt;
-
-
-	/* Get logical drive number */
-	*rfs = 0;
-	vol = get_ldnumber(path);
-	if (vol < 0) return FR_INVALID_DRIVE;
-
-	/* Check if the filesystem object is valid or not */
-	fs = FatFs[vol];					/* Get pointer to the filesystem object */
-	if (!fs) return FR_NOT_ENABLED;		/* Is the filesystem object available? */
-#if FF_FS_REENTRANT
-	if (!lock_fs(fs)) return FR_TIMEOUT;	/* Lock the volume */
-#endif
-	*rfs = fs;							/* Return pointer to the filesystem object */
-
-	mode &= (BYTE)~FA_READ;				/* Desired access mode, write access or not */
-	if (fs->fs_type != 0) {				/* If the volume has been mounted */
-		stat = disk_status(fs->pdrv);
-		if (!(stat & STA_NOINIT)) {		/* and the physical drive is kept initialized */
-			if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) {	/* Check write protection if needed */
-				return FR_WRITE_PROTECTED;
-			}
-			return FR_OK;				/* The filesystem object is already valid */
-		}
-	}
-
-	/* The filesystem object is not valid. */
-	/* Following code attempts to mount the volume. (find an FAT volume, analyze the BPB and initialize the filesystem object) */
-
-	fs->fs_type = 0;					/* Clear the filesystem object */
-	fs->pdrv = LD2PD(vol);				/* Volume hosting physical drive */
-	stat = disk_initialize(fs->pdrv);	/* Initialize the physical drive */
-	if (stat & STA_NOINIT) { 			/* Check if the initialization succeeded */
-		return FR_NOT_READY;			/* Failed to initialize due to no medium or hard error */
-	}
-	if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) { /* Check disk write protection if needed */
-		return FR_WRITE_PROTECTED;
-	}
-#if FF_MAX_SS != FF_MIN_SS				/* Get sector size (multiple sector size cfg only) */
-	if (disk_ioctl(fs->pdrv, GET_SECTOR_SIZE, &SS(fs)) != RES_OK) return FR_DISK_ERR;
-	if (SS(fs) > FF_MAX_SS || SS(fs) < FF_MIN_SS || (SS(fs) & (SS(fs) - 1))) return FR_DISK_ERR;
-#endif
-
-	/* Find an FAT volume on the drive */
-	fmt = find_volume(fs, LD2PT(vol));
-	if (fmt == 4) return FR_DISK_ERR;		/* An error occured in the disk I/O layer */
-	if (fmt >= 2) return FR_NO_FILESYSTEM;	/* No FAT volume is found */
-	bsect = fs->winsect;					/* Volume offset */
-
-	/* An FAT volume is found (bsect). Following code initializes the filesystem object */
-
-#if FF_FS_EXFAT
-	if (fmt == 1) {
-		QWORD maxlba;
-		DWORD so, cv, bcl, i;
-
-		for (i = BPB_ZeroedEx; i < BPB_ZeroedEx + 53 && fs->win[i] == 0; i++) ;	/* Check zero filler */
-		if (i < BPB_ZeroedEx + 53) return FR_NO_FILESYSTEM;
-
-		if (ld_word(fs->win + BPB_FSVerEx) != 0x100) return FR_NO_FILESYSTEM;	/* Check exFAT version (must be version 1.0) */
-
-		if (1 << fs->win[BPB_BytsPerSecEx] != SS(fs)) {	/* (BPB_BytsPerSecEx must be equal to the physical sector size) */
-			return FR_NO_FILESYSTEM;
-		}
-
-		maxlba = ld_qword(fs->win + BPB_TotSecEx) + bsect;	/* Last LBA of the volume + 1 */
-		if (!FF_LBA64 && maxlba >= 0x100000000) return FR_NO_FILESYSTEM;	/* (It cannot be accessed in 32-bit LBA) */
-
-		fs->fsize = ld_dword(fs->win + BPB_FatSzEx);	/* Number of sectors per FAT */
-
-		fs->n_fats = fs->win[BPB_NumFATsEx];			/* Number of FATs */
-		if (fs->n_fats != 1) return FR_NO_FILESYSTEM;	/* (Supports only 1 FAT) */
-
-		fs->csize = 1 << fs->win[BPB_SecPerClusEx];		/* Cluster size */
-		if (fs->csize == 0)	return FR_NO_FILESYSTEM;	/* (Must be 1..32768 sectors) */
-
-		nclst = ld_dword(fs->win + BPB_NumClusEx);		/* Number of clusters */
-		if (nclst > MAX_EXFAT) return FR_NO_FILESYSTEM;	/* (Too many clusters) */
-		fs->n_fatent = nclst + 2;
-
-		/* Boundaries and Limits */
-		fs->volbase = bsect;
-		fs->database = bsect + ld_dword(fs->win + BPB_DataOfsEx);
-		fs->fatbase = bsect + ld_dword(fs->win + BPB_FatOfsEx);
-		if (maxlba < (QWORD)fs->database + nclst * fs->csize) return FR_NO_FILESYSTEM;	/* (Volume size must not be smaller than the size requiered) */
-		fs->dirbase = ld_dword(fs->win + BPB_RootClusEx);
-
-		/* Get bitmap location and check if it is contiguous (implementation assumption) */
-		so = i = 0;
-		for (;;) {	/* Find the bitmap entry in the root directory (in only first cluster) */
-			if (i == 0) {
-				if (so >= fs->csize) return FR_NO_FILESYSTEM;	/* Not found? */
-				if (move_window(fs, clst2sect(fs, (DWORD)fs->dirbase) + so) != FR_OK) return FR_DISK_ERR;
-				so++;
-			}
-			if (fs->win[i] == ET_BITMAP) break;			/* Is it a bitmap entry? */
-			i = (i + SZDIRE) % SS(fs);	/* Next entry */
-		}
-		bcl = ld_dword(fs->win + i + 20);				/* Bitmap cluster */
-		if (bcl < 2 || bcl >= fs->n_fatent) return FR_NO_FILESYSTEM;	/* (Wrong cluster#) */
-		fs->bitbase = fs->database + fs->csize * (bcl - 2);	/* Bitmap sector */
-		for (;;) {	/* Check if bitmap is contiguous */
-			if (move_window(fs, fs->fatbase + bcl / (SS(fs) / 4)) != FR_OK) return FR_DISK_ERR;
-			cv = ld_dword(fs->win + bcl % (SS(fs) / 4) * 4);
-			if (cv == 0xFFFFFFFF) break;				/* Last link? */
-			if (cv != ++bcl) return FR_NO_FILESYSTEM;	/* Fragmented? */
-		}
-
-#if !FF_FS_READONLY
-		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
-#endif
-		fmt = FS_EXFAT;			/* FAT sub-type */
-	} else
-#endif	/* FF_FS_EXFAT */
-	{
-		if (ld_word(fs->win + BPB_BytsPerSec) != SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_BytsPerSec must be equal to the physical sector size) */
-
-		fasize = ld_word(fs->win + BPB_FATSz16);		/* Number of sectors per FAT */
-		if (fasize == 0) fasize = ld_dword(fs->win + BPB_FATSz32);
-		fs->fsize = fasize;
-
-		fs->n_fats = fs->win[BPB_NumFATs];				/* Number of FATs */
-		if (fs->n_fats != 1 && fs->n_fats != 2) return FR_NO_FILESYSTEM;	/* (Must be 1 or 2) */
-		fasize *= fs->n_fats;							/* Number of sectors for FAT area */
-
-		fs->csize = fs->win[BPB_SecPerClus];			/* Cluster size */
-		if (fs->csize == 0 || (fs->csize & (fs->csize - 1))) return FR_NO_FILESYSTEM;	/* (Must be power of 2) */
-
-		fs->n_rootdir = ld_word(fs->win + BPB_RootEntCnt);	/* Number of root directory entries */
-		if (fs->n_rootdir % (SS(fs) / SZDIRE)) return FR_NO_FILESYSTEM;	/* (Must be sector aligned) */
-
-		tsect = ld_word(fs->win + BPB_TotSec16);		/* Number of sectors on the volume */
-		if (tsect == 0) tsect = ld_dword(fs->win + BPB_TotSec32);
-
-		nrsv = ld_word(fs->win + BPB_RsvdSecCnt);		/* Number of reserved sectors */
-		if (nrsv == 0) return FR_NO_FILESYSTEM;			/* (Must not be 0) */
-
-		/* Determine the FAT sub type */
-		sysect = nrsv + fasize + fs->n_rootdir / (SS(fs) / SZDIRE);	/* RSV + FAT + DIR */
-		if (tsect < sysect) return FR_NO_FILESYSTEM;	/* (Invalid volume size) */
-		nclst = (tsect - sysect) / fs->csize;			/* Number of clusters */
-		if (nclst == 0) return FR_NO_FILESYSTEM;		/* (Invalid volume size) */
-		fmt = 0;
-		if (nclst <= MAX_FAT32) fmt = FS_FAT32;
-		if (nclst <= MAX_FAT16) fmt = FS_FAT16;
-		if (nclst <= MAX_FAT12) fmt = FS_FAT12;
-		if (fmt == 0) return FR_NO_FILESYSTEM;
-
-		/* Boundaries and Limits */
-		fs->n_fatent = nclst + 2;						/* Number of FAT entries */
-		fs->volbase = bsect;							/* Volume start sector */
-		fs->fatbase = bsect + nrsv; 					/* FAT start sector */
-		fs->database = bsect + sysect;					/* Data start sector */
-		if (fmt == FS_FAT32) {
-			if (ld_word(fs->win + BPB_FSVer32) != 0) return FR_NO_FILESYSTEM;	/* (Must be FAT32 revision 0.0) */
-			if (fs->n_rootdir != 0) return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must be 0) */
-			fs->dirbase = ld_dword(fs->win + BPB_RootClus32);	/* Root directory start cluster */
-			szbfat = fs->n_fatent * 4;					/* (Needed FAT size) */
-		} else {
-			if (fs->n_rootdir == 0)	return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must not be 0) */
-			fs->dirbase = fs->fatbase + fasize;			/* Root directory start sector */
-			szbfat = (fmt == FS_FAT16) ?				/* (Needed FAT size) */
-				fs->n_fatent * 2 : fs->n_fatent * 3 / 2 + (fs->n_fatent & 1);
-		}
-		if (fs->fsize < (szbfat + (SS(fs) - 1)) / SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_FATSz must not be less than the size needed) */
-
-#if !FF_FS_READONLY
-		/* Get FSInfo if available */
-		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
-		fs->fsi_flag = 0x80;
-#if (FF_FS_NOFSINFO & 3) != 3
-		if (fmt == FS_FAT32				/* Allow to update FSInfo only if BPB_FSInfo32 == 1 */
-			&& ld_word(fs->win + BPB_FSInfo32) == 1
-			&& move_window(fs, bsect + 1) == FR_OK)
-		{
-			fs->fsi_flag = 0;
-			if (ld_word(fs->win + BS_55AA) == 0xAA55	/* Load FSInfo data if available */
-				&& ld_dword(fs->win + FSI_LeadSig) == 0x41615252
-				&& ld_dword(fs->win + FSI_StrucSig) == 0x61417272)
-			{
-#if (FF_FS_NOFSINFO & 1) == 0
-				fs->free_clst = ld_dword(fs->win + FSI_Free_Count);
-#endif
-#if (FF_FS_NOFSINFO & 2) == 0
-				fs->last_clst = ld_dword(fs->win + FSI_Nxt_Free);
-#endif
-			}
-		}
-#endif	/* (FF_FS_NOFSINFO & 3) != 3 */
-#endif	/* !FF_FS_READONLY */
-	}
-
-	fs->fs_type = (BYTE)fmt;/* FAT sub-type */
-	fs->id = ++Fsid;		/* Volume mount ID */
-#if FF_USE_LFN == 1
-	fs->lfnbuf = LfnBuf;	/* Static LFN working buffer */
-#if FF_FS_EXFAT
-	fs->dirbuf = DirBuf;	/* Static directory block scratchpad buuffer */
-#endif
-#endif
-#if FF_FS_RPATH != 0
-	fs->cdir = 0;			/* Initialize current directory */
-#endif
-#if FF_FS_LOCK != 0			/* Clear file lock semaphores */
-	clear_lock(fs);
-#endif
-	return FR_OK;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Check if the file/directory object is valid or not                    */
-/*-----------------------------------------------------------------------*/
-
-static FRESULT validate (	/* Returns FR_OK or FR_INVALID_OBJECT */
-	FFOBJID* obj,			/* Pointer to the FFOBJID, the 1st member in the FIL/DIR object, to check validity */
-	FATFS** rfs				/* Pointer to pointer to the owner filesystem object to return */
-)
-{
-	FRESULT res = FR_INVALID_OBJECT;
-
-
-	if (obj && obj->fs && obj->fs->fs_type && obj->id == obj->fs->id) {	/* Test if the object is valid */
-#if FF_FS_REENTRANT
-		if (lock_fs(obj->fs)) {	/* Obtain the filesystem object */
-			if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
-				res = FR_OK;
-			} else {
-				unlock_fs(obj->fs, FR_OK);
-			}
-		} else {
-			res = FR_TIMEOUT;
-		}
-#else
-		if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
-			res = FR_OK;
-		}
-#endif
-	}
-	*rfs = (res == FR_OK) ? obj->fs : 0;	/* Corresponding filesystem object */
-	return res;
-}
-
-
-
-
-/*---------------------------------------------------------------------------
-
-   Public Functions (FatFs API)
-
-----------------------------------------------------------------------------*/
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Mount/Unmount a Logical Drive                                         */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_mount (
-	FATFS* fs,			/* Pointer to the filesystem object to be registered (NULL:unmount)*/
-	const TCHAR* path,	/* Logical drive number to be mounted/unmounted */
-	BYTE opt			/* Mount option: 0=Do not mount (delayed mount), 1=Mount immediately */
-)
-{
-	FATFS *cfs;
-	int vol;
-	FRESULT res;
-	const TCHAR *rp = path;
-
-
-	/* Get logical drive number */
-	vol = get_ldnumber(&rp);
-	if (vol < 0) return FR_INVALID_DRIVE;
-	cfs = FatFs[vol];					/* Pointer to fs object */
-
-	if (cfs) {
-#if FF_FS_LOCK != 0
-		clear_lock(cfs);
-#endif
-#if FF_FS_REENTRANT						/* Discard sync object of the current volume */
-		if (!ff_del_syncobj(cfs->sobj)) return FR_INT_ERR;
-#endif
-		cfs->fs_type = 0;				/* Clear old fs object */
-	}
-
-	if (fs) {
-		fs->fs_type = 0;				/* Clear new fs object */
-#if FF_FS_REENTRANT						/* Create sync object for the new volume */
-		if (!ff_cre_syncobj((BYTE)vol, &fs->sobj)) return FR_INT_ERR;
-#endif
-	}
-	FatFs[vol] = fs;					/* Register new fs object */
-
-	if (opt == 0) return FR_OK;			/* Do not mount now, it will be mounted later */
-
-	res = mount_volume(&path, &fs, 0);	/* Force mounted the volume */
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Open or Create a File                                                 */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_open (
-	FIL* fp,			/* Pointer to the blank file object */
-	const TCHAR* path,	/* Pointer to the file name */
-	BYTE mode			/* Access mode and open mode flags */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-#if !FF_FS_READONLY
-	DWORD cl, bcs, clst, tm;
-	LBA_t sc;
-	FSIZE_t ofs;
-#endif
-	DEF_NAMBUF
-
-
-	if (!fp) return FR_INVALID_OBJECT;
-
-	/* Get logical drive number */
-	mode &= FF_FS_READONLY ? FA_READ : FA_READ | FA_WRITE | FA_CREATE_ALWAYS | FA_CREATE_NEW | FA_OPEN_ALWAYS | FA_OPEN_APPEND;
-	res = mount_volume(&path, &fs, mode);
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-#if !FF_FS_READONLY	/* Read/Write configuration */
-		if (res == FR_OK) {
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Origin directory itself? */
-				res = FR_INVALID_NAME;
-			}
-#if FF_FS_LOCK != 0
-			else {
-				res = chk_lock(&dj, (mode & ~FA_READ) ? 1 : 0);		/* Check if the file can be used */
-			}
-#endif
-		}
-		/* Create or Open a file */
-		if (mode & (FA_CREATE_ALWAYS | FA_OPEN_ALWAYS | FA_CREATE_NEW)) {
-			if (res != FR_OK) {					/* No file, create new */
-				if (res == FR_NO_FILE) {		/* There is no file to open, create a new entry */
-#if FF_FS_LOCK != 0
-					res = enq_lock() ? dir_register(&dj) : FR_TOO_MANY_OPEN_FILES;
-#else
-					res = dir_register(&dj);
-#endif
-				}
-				mode |= FA_CREATE_ALWAYS;		/* File is created */
-			}
-			else {								/* Any object with the same name is already existing */
-				if (dj.obj.attr & (AM_RDO | AM_DIR)) {	/* Cannot overwrite it (R/O or DIR) */
-					res = FR_DENIED;
-				} else {
-					if (mode & FA_CREATE_NEW) res = FR_EXIST;	/* Cannot create as new file */
-				}
-			}
-			if (res == FR_OK && (mode & FA_CREATE_ALWAYS)) {	/* Truncate the file if overwrite mode */
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {
-					/* Get current allocation info */
-					fp->obj.fs = fs;
-					init_alloc_info(fs, &fp->obj);
-					/* Set directory entry block initial state */
-					memset(fs->dirbuf + 2, 0, 30);	/* Clear 85 entry except for NumSec */
-					memset(fs->dirbuf + 38, 0, 26);	/* Clear C0 entry except for NumName and NameHash */
-					fs->dirbuf[XDIR_Attr] = AM_ARC;
-					st_dword(fs->dirbuf + XDIR_CrtTime, GET_FATTIME());
-					fs->dirbuf[XDIR_GenFlags] = 1;
-					res = store_xdir(&dj);
-					if (res == FR_OK && fp->obj.sclust != 0) {	/* Remove the cluster chain if exist */
-						res = remove_chain(&fp->obj, fp->obj.sclust, 0);
-						fs->last_clst = fp->obj.sclust - 1;		/* Reuse the cluster hole */
-					}
-				} else
-#endif
-				{
-					/* Set directory entry initial state */
-					tm = GET_FATTIME();					/* Set created time */
-					st_dword(dj.dir + DIR_CrtTime, tm);
-					st_dword(dj.dir + DIR_ModTime, tm);
-					cl = ld_clust(fs, dj.dir);			/* Get current cluster chain */
-					dj.dir[DIR_Attr] = AM_ARC;			/* Reset attribute */
-					st_clust(fs, dj.dir, 0);			/* Reset file allocation info */
-					st_dword(dj.dir + DIR_FileSize, 0);
-					fs->wflag = 1;
-					if (cl != 0) {						/* Remove the cluster chain if exist */
-						sc = fs->winsect;
-						res = remove_chain(&dj.obj, cl, 0);
-						if (res == FR_OK) {
-							res = move_window(fs, sc);
-							fs->last_clst = cl - 1;		/* Reuse the cluster hole */
-						}
-					}
-				}
-			}
-		}
-		else {	/* Open an existing file */
-			if (res == FR_OK) {					/* Is the object exsiting? */
-				if (dj.obj.attr & AM_DIR) {		/* File open against a directory */
-					res = FR_NO_FILE;
-				} else {
-					if ((mode & FA_WRITE) && (dj.obj.attr & AM_RDO)) { /* Write mode open against R/O file */
-						res = FR_DENIED;
-					}
-				}
-			}
-		}
-		if (res == FR_OK) {
-			if (mode & FA_CREATE_ALWAYS) mode |= FA_MODIFIED;	/* Set file change flag if created or overwritten */
-			fp->dir_sect = fs->winsect;			/* Pointer to the directory entry */
-			fp->dir_ptr = dj.dir;
-#if FF_FS_LOCK != 0
-			fp->obj.lockid = inc_lock(&dj, (mode & ~FA_READ) ? 1 : 0);	/* Lock the file for this session */
-			if (fp->obj.lockid == 0) res = FR_INT_ERR;
-#endif
-		}
-#else		/* R/O configuration */
-		if (res == FR_OK) {
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it origin directory itself? */
-				res = FR_INVALID_NAME;
-			} else {
-				if (dj.obj.attr & AM_DIR) {		/* Is it a directory? */
-					res = FR_NO_FILE;
-				}
-			}
-		}
-#endif
-
-		if (res == FR_OK) {
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				fp->obj.c_scl = dj.obj.sclust;							/* Get containing directory info */
-				fp->obj.c_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
-				fp->obj.c_ofs = dj.blk_ofs;
-				init_alloc_info(fs, &fp->obj);
-			} else
-#endif
-			{
-				fp->obj.sclust = ld_clust(fs, dj.dir);					/* Get object allocation info */
-				fp->obj.objsize = ld_dword(dj.dir + DIR_FileSize);
-			}
-#if FF_USE_FASTSEEK
-			fp->cltbl = 0;		/* Disable fast seek mode */
-#endif
-			fp->obj.fs = fs;	/* Validate the file object */
-			fp->obj.id = fs->id;
-			fp->flag = mode;	/* Set file access mode */
-			fp->err = 0;		/* Clear error flag */
-			fp->sect = 0;		/* Invalidate current data sector */
-			fp->fptr = 0;		/* Set file pointer top of the file */
-#if !FF_FS_READONLY
-#if !FF_FS_TINY
-			memset(fp->buf, 0, sizeof fp->buf);	/* Clear sector buffer */
-#endif
-			if ((mode & FA_SEEKEND) && fp->obj.objsize > 0) {	/* Seek to end of file if FA_OPEN_APPEND is specified */
-				fp->fptr = fp->obj.objsize;			/* Offset to seek */
-				bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size in byte */
-				clst = fp->obj.sclust;				/* Follow the cluster chain */
-				for (ofs = fp->obj.objsize; res == FR_OK && ofs > bcs; ofs -= bcs) {
-					clst = get_fat(&fp->obj, clst);
-					if (clst <= 1) res = FR_INT_ERR;
-					if (clst == 0xFFFFFFFF) res = FR_DISK_ERR;
-				}
-				fp->clust = clst;
-				if (res == FR_OK && ofs % SS(fs)) {	/* Fill sector buffer if not on the sector boundary */
-					sc = clst2sect(fs, clst);
-					if (sc == 0) {
-						res = FR_INT_ERR;
-					} else {
-						fp->sect = sc + (DWORD)(ofs / SS(fs));
-#if !FF_FS_TINY
-						if (disk_read(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) res = FR_DISK_ERR;
-#endif
-					}
-				}
-#if FF_FS_LOCK != 0
-				if (res != FR_OK) dec_lock(fp->obj.lockid); /* Decrement file open counter if seek failed */
-#endif
-			}
-#endif
-		}
-
-		FREE_NAMBUF();
-	}
-
-	if (res != FR_OK) fp->obj.fs = 0;	/* Invalidate file object on error */
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Read File                                                             */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_read (
-	FIL* fp, 	/* Open file to be read */
-	void* buff,	/* Data buffer to store the read data */
-	UINT btr,	/* Number of bytes to read */
-	UINT* br	/* Number of bytes read */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst;
-	LBA_t sect;
-	FSIZE_t remain;
-	UINT rcnt, cc, csect;
-	BYTE *rbuff = (BYTE*)buff;
-
-
-	*br = 0;	/* Clear read byte counter */
-	res = validate(&fp->obj, &fs);				/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
-	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED); /* Check access mode */
-	remain = fp->obj.objsize - fp->fptr;
-	if (btr > remain) btr = (UINT)remain;		/* Truncate btr by remaining bytes */
-
-	for ( ; btr > 0; btr -= rcnt, *br += rcnt, rbuff += rcnt, fp->fptr += rcnt) {	/* Repeat until btr bytes read */
-		if (fp->fptr % SS(fs) == 0) {			/* On the sector boundary? */
-			csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
-			if (csect == 0) {					/* On the cluster boundary? */
-				if (fp->fptr == 0) {			/* On the top of the file? */
-					clst = fp->obj.sclust;		/* Follow cluster chain from the origin */
-				} else {						/* Middle or end of the file */
-#if FF_USE_FASTSEEK
-					if (fp->cltbl) {
-						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
-					} else
-#endif
-					{
-						clst = get_fat(&fp->obj, fp->clust);	/* Follow cluster chain on the FAT */
-					}
-				}
-				if (clst < 2) ABORT(fs, FR_INT_ERR);
-				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-				fp->clust = clst;				/* Update current cluster */
-			}
-			sect = clst2sect(fs, fp->clust);	/* Get current sector */
-			if (sect == 0) ABORT(fs, FR_INT_ERR);
-			sect += csect;
-			cc = btr / SS(fs);					/* When remaining bytes >= sector size, */
-			if (cc > 0) {						/* Read maximum contiguous sectors directly */
-				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
-					cc = fs->csize - csect;
-				}
-				if (disk_read(fs->pdrv, rbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
-#if !FF_FS_READONLY && FF_FS_MINIMIZE <= 2		/* Replace one of the read sectors with cached data if it contains a dirty sector */
-#if FF_FS_TINY
-				if (fs->wflag && fs->winsect - sect < cc) {
-					memcpy(rbuff + ((fs->winsect - sect) * SS(fs)), fs->win, SS(fs));
-				}
-#else
-				if ((fp->flag & FA_DIRTY) && fp->sect - sect < cc) {
-					memcpy(rbuff + ((fp->sect - sect) * SS(fs)), fp->buf, SS(fs));
-				}
-#endif
-#endif
-				rcnt = SS(fs) * cc;				/* Number of bytes transferred */
-				continue;
-			}
-#if !FF_FS_TINY
-			if (fp->sect != sect) {			/* Load data sector if not in cache */
-#if !FF_FS_READONLY
-				if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
-					if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-					fp->flag &= (BYTE)~FA_DIRTY;
-				}
-#endif
-				if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK)	ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
-			}
-#endif
-			fp->sect = sect;
-		}
-		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
-		if (rcnt > btr) rcnt = btr;					/* Clip it by btr if needed */
-#if FF_FS_TINY
-		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
-		memcpy(rbuff, fs->win + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
-#else
-		memcpy(rbuff, fp->buf + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
-#endif
-	}
-
-	LEAVE_FF(fs, FR_OK);
-}
-
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Write File                                                            */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_write (
-	FIL* fp,			/* Open file to be written */
-	const void* buff,	/* Data to be written */
-	UINT btw,			/* Number of bytes to write */
-	UINT* bw			/* Number of bytes written */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst;
-	LBA_t sect;
-	UINT wcnt, cc, csect;
-	const BYTE *wbuff = (const BYTE*)buff;
-
-
-	*bw = 0;	/* Clear write byte counter */
-	res = validate(&fp->obj, &fs);			/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
-	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
-
-	/* Check fptr wrap-around (file size cannot reach 4 GiB at FAT volume) */
-	if ((!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) && (DWORD)(fp->fptr + btw) < (DWORD)fp->fptr) {
-		btw = (UINT)(0xFFFFFFFF - (DWORD)fp->fptr);
-	}
-
-	for ( ; btw > 0; btw -= wcnt, *bw += wcnt, wbuff += wcnt, fp->fptr += wcnt, fp->obj.objsize = (fp->fptr > fp->obj.objsize) ? fp->fptr : fp->obj.objsize) {	/* Repeat until all data written */
-		if (fp->fptr % SS(fs) == 0) {		/* On the sector boundary? */
-			csect = (UINT)(fp->fptr / SS(fs)) & (fs->csize - 1);	/* Sector offset in the cluster */
-			if (csect == 0) {				/* On the cluster boundary? */
-				if (fp->fptr == 0) {		/* On the top of the file? */
-					clst = fp->obj.sclust;	/* Follow from the origin */
-					if (clst == 0) {		/* If no cluster is allocated, */
-						clst = create_chain(&fp->obj, 0);	/* create a new cluster chain */
-					}
-				} else {					/* On the middle or end of the file */
-#if FF_USE_FASTSEEK
-					if (fp->cltbl) {
-						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
-					} else
-#endif
-					{
-						clst = create_chain(&fp->obj, fp->clust);	/* Follow or stretch cluster chain on the FAT */
-					}
-				}
-				if (clst == 0) break;		/* Could not allocate a new cluster (disk full) */
-				if (clst == 1) ABORT(fs, FR_INT_ERR);
-				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-				fp->clust = clst;			/* Update current cluster */
-				if (fp->obj.sclust == 0) fp->obj.sclust = clst;	/* Set start cluster if the first write */
-			}
-#if FF_FS_TINY
-			if (fs->winsect == fp->sect && sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Write-back sector cache */
-#else
-			if (fp->flag & FA_DIRTY) {		/* Write-back sector cache */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			sect = clst2sect(fs, fp->clust);	/* Get current sector */
-			if (sect == 0) ABORT(fs, FR_INT_ERR);
-			sect += csect;
-			cc = btw / SS(fs);				/* When remaining bytes >= sector size, */
-			if (cc > 0) {					/* Write maximum contiguous sectors directly */
-				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
-					cc = fs->csize - csect;
-				}
-				if (disk_write(fs->pdrv, wbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
-#if FF_FS_MINIMIZE <= 2
-#if FF_FS_TINY
-				if (fs->winsect - sect < cc) {	/* Refill sector cache if it gets invalidated by the direct write */
-					memcpy(fs->win, wbuff + ((fs->winsect - sect) * SS(fs)), SS(fs));
-					fs->wflag = 0;
-				}
-#else
-				if (fp->sect - sect < cc) { /* Refill sector cache if it gets invalidated by the direct write */
-					memcpy(fp->buf, wbuff + ((fp->sect - sect) * SS(fs)), SS(fs));
-					fp->flag &= (BYTE)~FA_DIRTY;
-				}
-#endif
-#endif
-				wcnt = SS(fs) * cc;		/* Number of bytes transferred */
-				continue;
-			}
-#if FF_FS_TINY
-			if (fp->fptr >= fp->obj.objsize) {	/* Avoid silly cache filling on the growing edge */
-				if (sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);
-				fs->winsect = sect;
-			}
-#else
-			if (fp->sect != sect && 		/* Fill sector cache with file data */
-				fp->fptr < fp->obj.objsize &&
-				disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) {
-					ABORT(fs, FR_DISK_ERR);
-			}
-#endif
-			fp->sect = sect;
-		}
-		wcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
-		if (wcnt > btw) wcnt = btw;					/* Clip it by btw if needed */
-#if FF_FS_TINY
-		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
-		memcpy(fs->win + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
-		fs->wflag = 1;
-#else
-		memcpy(fp->buf + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
-		fp->flag |= FA_DIRTY;
-#endif
-	}
-
-	fp->flag |= FA_MODIFIED;				/* Set file change flag */
-
-	LEAVE_FF(fs, FR_OK);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Synchronize the File                                                  */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_sync (
-	FIL* fp		/* Open file to be synced */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD tm;
-	BYTE *dir;
-
-
-	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
-	if (res == FR_OK) {
-		if (fp->flag & FA_MODIFIED) {	/* Is there any change to the file? */
-#if !FF_FS_TINY
-			if (fp->flag & FA_DIRTY) {	/* Write-back cached data if needed */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) LEAVE_FF(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			/* Update the directory entry */
-			tm = GET_FATTIME();				/* Modified time */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				res = fill_first_frag(&fp->obj);	/* Fill first fragment on the FAT if needed */
-				if (res == FR_OK) {
-					res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
-				}
-				if (res == FR_OK) {
-					DIR dj;
-					DEF_NAMBUF
-
-					INIT_NAMBUF(fs);
-					res = load_obj_xdir(&dj, &fp->obj);	/* Load directory entry block */
-					if (res == FR_OK) {
-						fs->dirbuf[XDIR_Attr] |= AM_ARC;				/* Set archive attribute to indicate that the file has been changed */
-						fs->dirbuf[XDIR_GenFlags] = fp->obj.stat | 1;	/* Update file allocation information */
-						st_dword(fs->dirbuf + XDIR_FstClus, fp->obj.sclust);		/* Update start cluster */
-						st_qword(fs->dirbuf + XDIR_FileSize, fp->obj.objsize);		/* Update file size */
-						st_qword(fs->dirbuf + XDIR_ValidFileSize, fp->obj.objsize);	/* (FatFs does not support Valid File Size feature) */
-						st_dword(fs->dirbuf + XDIR_ModTime, tm);		/* Update modified time */
-						fs->dirbuf[XDIR_ModTime10] = 0;
-						st_dword(fs->dirbuf + XDIR_AccTime, 0);
-						res = store_xdir(&dj);	/* Restore it to the directory */
-						if (res == FR_OK) {
-							res = sync_fs(fs);
-							fp->flag &= (BYTE)~FA_MODIFIED;
-						}
-					}
-					FREE_NAMBUF();
-				}
-			} else
-#endif
-			{
-				res = move_window(fs, fp->dir_sect);
-				if (res == FR_OK) {
-					dir = fp->dir_ptr;
-					dir[DIR_Attr] |= AM_ARC;						/* Set archive attribute to indicate that the file has been changed */
-					st_clust(fp->obj.fs, dir, fp->obj.sclust);		/* Update file allocation information  */
-					st_dword(dir + DIR_FileSize, (DWORD)fp->obj.objsize);	/* Update file size */
-					st_dword(dir + DIR_ModTime, tm);				/* Update modified time */
-					st_word(dir + DIR_LstAccDate, 0);
-					fs->wflag = 1;
-					res = sync_fs(fs);					/* Restore it to the directory */
-					fp->flag &= (BYTE)~FA_MODIFIED;
-				}
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* !FF_FS_READONLY */
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Close File                                                            */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_close (
-	FIL* fp		/* Open file to be closed */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-
-#if !FF_FS_READONLY
-	res = f_sync(fp);					/* Flush cached data */
-	if (res == FR_OK)
-#endif
-	{
-		res = validate(&fp->obj, &fs);	/* Lock volume */
-		if (res == FR_OK) {
-#if FF_FS_LOCK != 0
-			res = dec_lock(fp->obj.lockid);		/* Decrement file open counter */
-			if (res == FR_OK) fp->obj.fs = 0;	/* Invalidate file object */
-#else
-			fp->obj.fs = 0;	/* Invalidate file object */
-#endif
-#if FF_FS_REENTRANT
-			unlock_fs(fs, FR_OK);		/* Unlock volume */
-#endif
-		}
-	}
-	return res;
-}
-
-
-
-
-#if FF_FS_RPATH >= 1
-/*-----------------------------------------------------------------------*/
-/* Change Current Directory or Current Drive, Get Current Directory      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_chdrive (
-	const TCHAR* path		/* Drive number to set */
-)
-{
-	int vol;
-
-
-	/* Get logical drive number */
-	vol = get_ldnumber(&path);
-	if (vol < 0) return FR_INVALID_DRIVE;
-	CurrVol = (BYTE)vol;	/* Set it as current volume */
-
-	return FR_OK;
-}
-
-
-
-FRESULT f_chdir (
-	const TCHAR* path	/* Pointer to the directory path */
-)
-{
-#if FF_STR_VOLUME_ID == 2
-	UINT i;
-#endif
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);		/* Follow the path */
-		if (res == FR_OK) {					/* Follow completed */
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it the start directory itself? */
-				fs->cdir = dj.obj.sclust;
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {
-					fs->cdc_scl = dj.obj.c_scl;
-					fs->cdc_size = dj.obj.c_size;
-					fs->cdc_ofs = dj.obj.c_ofs;
-				}
-#endif
-			} else {
-				if (dj.obj.attr & AM_DIR) {	/* It is a sub-directory */
-#if FF_FS_EXFAT
-					if (fs->fs_type == FS_EXFAT) {
-						fs->cdir = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Sub-directory cluster */
-						fs->cdc_scl = dj.obj.sclust;						/* Save containing directory information */
-						fs->cdc_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
-						fs->cdc_ofs = dj.blk_ofs;
-					} else
-#endif
-					{
-						fs->cdir = ld_clust(fs, dj.dir);					/* Sub-directory cluster */
-					}
-				} else {
-					res = FR_NO_PATH;		/* Reached but a file */
-				}
-			}
-		}
-		FREE_NAMBUF();
-		if (res == FR_NO_FILE) res = FR_NO_PATH;
-#if FF_STR_VOLUME_ID == 2	/* Also current drive is changed if in Unix style volume ID */
-		if (res == FR_OK) {
-			for (i = FF_VOLUMES - 1; i && fs != FatFs[i]; i--) ;	/* Set current drive */
-			CurrVol = (BYTE)i;
-		}
-#endif
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-#if FF_FS_RPATH >= 2
-FRESULT f_getcwd (
-	TCHAR* buff,	/* Pointer to the directory path */
-	UINT len		/* Size of buff in unit of TCHAR */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	UINT i, n;
-	DWORD ccl;
-	TCHAR *tp = buff;
-#if FF_VOLUMES >= 2
-	UINT vl;
-#if FF_STR_VOLUME_ID
-	const char *vp;
-#endif
-#endif
-	FILINFO fno;
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	buff[0] = 0;	/* Set null string to get current volume */
-	res = mount_volume((const TCHAR**)&buff, &fs, 0);	/* Get current volume */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-
-		/* Follow parent directories and create the path */
-		i = len;			/* Bottom of buffer (directory stack base) */
-		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* (Cannot do getcwd on exFAT and returns root path) */
-			dj.obj.sclust = fs->cdir;				/* Start to follow upper directory from current directory */
-			while ((ccl = dj.obj.sclust) != 0) {	/* Repeat while current directory is a sub-directory */
-				res = dir_sdi(&dj, 1 * SZDIRE);	/* Get parent directory */
-				if (res != FR_OK) break;
-				res = move_window(fs, dj.sect);
-				if (res != FR_OK) break;
-				dj.obj.sclust = ld_clust(fs, dj.dir);	/* Goto parent directory */
-				res = dir_sdi(&dj, 0);
-				if (res != FR_OK) break;
-				do {							/* Find the entry links to the child directory */
-					res = DIR_READ_FILE(&dj);
-					if (res != FR_OK) break;
-					if (ccl == ld_clust(fs, dj.dir)) break;	/* Found the entry */
-					res = dir_next(&dj, 0);
-				} while (res == FR_OK);
-				if (res == FR_NO_FILE) res = FR_INT_ERR;/* It cannot be 'not found'. */
-				if (res != FR_OK) break;
-				get_fileinfo(&dj, &fno);		/* Get the directory name and push it to the buffer */
-				for (n = 0; fno.fname[n]; n++) ;	/* Name length */
-				if (i < n + 1) {	/* Insufficient space to store the path name? */
-					res = FR_NOT_ENOUGH_CORE; break;
-				}
-				while (n) buff[--i] = fno.fname[--n];	/* Stack the name */
-				buff[--i] = '/';
-			}
-		}
-		if (res == FR_OK) {
-			if (i == len) buff[--i] = '/';	/* Is it the root-directory? */
-#if FF_VOLUMES >= 2			/* Put drive prefix */
-			vl = 0;
-#if FF_STR_VOLUME_ID >= 1	/* String volume ID */
-			for (n = 0, vp = (const char*)VolumeStr[CurrVol]; vp[n]; n++) ;
-			if (i >= n + 2) {
-				if (FF_STR_VOLUME_ID == 2) *tp++ = (TCHAR)'/';
-				for (vl = 0; vl < n; *tp++ = (TCHAR)vp[vl], vl++) ;
-				if (FF_STR_VOLUME_ID == 1) *tp++ = (TCHAR)':';
-				vl++;
-			}
-#else						/* Numeric volume ID */
-			if (i >= 3) {
-				*tp++ = (TCHAR)'0' + CurrVol;
-				*tp++ = (TCHAR)':';
-				vl = 2;
-			}
-#endif
-			if (vl == 0) res = FR_NOT_ENOUGH_CORE;
-#endif
-			/* Add current directory path */
-			if (res == FR_OK) {
-				do *tp++ = buff[i++]; while (i < len);	/* Copy stacked path string */
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	*tp = 0;
-	LEAVE_FF(fs, res);
-}
-
-#endif /* FF_FS_RPATH >= 2 */
-#endif /* FF_FS_RPATH >= 1 */
-
-
-
-#if FF_FS_MINIMIZE <= 2
-/*-----------------------------------------------------------------------*/
-/* Seek File Read/Write Pointer                                          */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_lseek (
-	FIL* fp,		/* Pointer to the file object */
-	FSIZE_t ofs		/* File pointer from top of file */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst, bcs;
-	LBA_t nsect;
-	FSIZE_t ifptr;
-#if FF_USE_FASTSEEK
-	DWORD cl, pcl, ncl, tcl, tlen, ulen;
-	DWORD *tbl;
-	LBA_t dsc;
-#endif
-
-	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
-	if (res == FR_OK) res = (FRESULT)fp->err;
-#if FF_FS_EXFAT && !FF_FS_READONLY
-	if (res == FR_OK && fs->fs_type == FS_EXFAT) {
-		res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
-	}
-#endif
-	if (res != FR_OK) LEAVE_FF(fs, res);
-
-#if FF_USE_FASTSEEK
-	if (fp->cltbl) {	/* Fast seek */
-		if (ofs == CREATE_LINKMAP) {	/* Create CLMT */
-			tbl = fp->cltbl;
-			tlen = *tbl++; ulen = 2;	/* Given table size and required table size */
-			cl = fp->obj.sclust;		/* Origin of the chain */
-			if (cl != 0) {
-				do {
-					/* Get a fragment */
-					tcl = cl; ncl = 0; ulen += 2;	/* Top, length and used items */
-					do {
-						pcl = cl; ncl++;
-						cl = get_fat(&fp->obj, cl);
-						if (cl <= 1) ABORT(fs, FR_INT_ERR);
-						if (cl == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-					} while (cl == pcl + 1);
-					if (ulen <= tlen) {		/* Store the length and top of the fragment */
-						*tbl++ = ncl; *tbl++ = tcl;
-					}
-				} while (cl < fs->n_fatent);	/* Repeat until end of chain */
-			}
-			*fp->cltbl = ulen;	/* Number of items used */
-			if (ulen <= tlen) {
-				*tbl = 0;		/* Terminate table */
-			} else {
-				res = FR_NOT_ENOUGH_CORE;	/* Given table size is smaller than required */
-			}
-		} else {						/* Fast seek */
-			if (ofs > fp->obj.objsize) ofs = fp->obj.objsize;	/* Clip offset at the file size */
-			fp->fptr = ofs;				/* Set file pointer */
-			if (ofs > 0) {
-				fp->clust = clmt_clust(fp, ofs - 1);
-				dsc = clst2sect(fs, fp->clust);
-				if (dsc == 0) ABORT(fs, FR_INT_ERR);
-				dsc += (DWORD)((ofs - 1) / SS(fs)) & (fs->csize - 1);
-				if (fp->fptr % SS(fs) && dsc != fp->sect) {	/* Refill sector cache if needed */
-#if !FF_FS_TINY
-#if !FF_FS_READONLY
-					if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
-						if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-						fp->flag &= (BYTE)~FA_DIRTY;
-					}
-#endif
-					if (disk_read(fs->pdrv, fp->buf, dsc, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Load current sector */
-#endif
-					fp->sect = dsc;
-				}
-			}
-		}
-	} else
-#endif
-
-	/* Normal Seek */
-	{
-#if FF_FS_EXFAT
-		if (fs->fs_type != FS_EXFAT && ofs >= 0x100000000) ofs = 0xFFFFFFFF;	/* Clip at 4 GiB - 1 if at FATxx */
-#endif
-		if (ofs > fp->obj.objsize && (FF_FS_READONLY || !(fp->flag & FA_WRITE))) {	/* In read-only mode, clip offset with the file size */
-			ofs = fp->obj.objsize;
-		}
-		ifptr = fp->fptr;
-		fp->fptr = nsect = 0;
-		if (ofs > 0) {
-			bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size (byte) */
-			if (ifptr > 0 &&
-				(ofs - 1) / bcs >= (ifptr - 1) / bcs) {	/* When seek to same or following cluster, */
-				fp->fptr = (ifptr - 1) & ~(FSIZE_t)(bcs - 1);	/* start from the current cluster */
-				ofs -= fp->fptr;
-				clst = fp->clust;
-			} else {									/* When seek to back cluster, */
-				clst = fp->obj.sclust;					/* start from the first cluster */
-#if !FF_FS_READONLY
-				if (clst == 0 && (fp->flag & FA_WRITE)) {	/* If no cluster chain, create a new chain */
-					clst = create_chain(&fp->obj, 0);
-					if (clst == 1) ABORT(fs, FR_INT_ERR);
-					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-					fp->obj.sclust = clst;
-				}
-#endif
-				fp->clust = clst;
-			}
-			if (clst != 0) {
-				while (ofs > bcs) {						/* Cluster following loop */
-					ofs -= bcs; fp->fptr += bcs;
-#if !FF_FS_READONLY
-					if (fp->flag & FA_WRITE) {			/* Check if in write mode or not */
-						if (FF_FS_EXFAT && fp->fptr > fp->obj.objsize) {	/* No FAT chain object needs correct objsize to generate FAT value */
-							fp->obj.objsize = fp->fptr;
-							fp->flag |= FA_MODIFIED;
-						}
-						clst = create_chain(&fp->obj, clst);	/* Follow chain with forceed stretch */
-						if (clst == 0) {				/* Clip file size in case of disk full */
-							ofs = 0; break;
-						}
-					} else
-#endif
-					{
-						clst = get_fat(&fp->obj, clst);	/* Follow cluster chain if not in write mode */
-					}
-					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-					if (clst <= 1 || clst >= fs->n_fatent) ABORT(fs, FR_INT_ERR);
-					fp->clust = clst;
-				}
-				fp->fptr += ofs;
-				if (ofs % SS(fs)) {
-					nsect = clst2sect(fs, clst);	/* Current sector */
-					if (nsect == 0) ABORT(fs, FR_INT_ERR);
-					nsect += (DWORD)(ofs / SS(fs));
-				}
-			}
-		}
-		if (!FF_FS_READONLY && fp->fptr > fp->obj.objsize) {	/* Set file change flag if the file size is extended */
-			fp->obj.objsize = fp->fptr;
-			fp->flag |= FA_MODIFIED;
-		}
-		if (fp->fptr % SS(fs) && nsect != fp->sect) {	/* Fill sector cache if needed */
-#if !FF_FS_TINY
-#if !FF_FS_READONLY
-			if (fp->flag & FA_DIRTY) {			/* Write-back dirty sector cache */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			if (disk_read(fs->pdrv, fp->buf, nsect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
-#endif
-			fp->sect = nsect;
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-#if FF_FS_MINIMIZE <= 1
-/*-----------------------------------------------------------------------*/
-/* Create a Directory Object                                             */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_opendir (
-	DIR* dp,			/* Pointer to directory object to create */
-	const TCHAR* path	/* Pointer to the directory path */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	if (!dp) return FR_INVALID_OBJECT;
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-	if (res == FR_OK) {
-		dp->obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(dp, path);			/* Follow the path to the directory */
-		if (res == FR_OK) {						/* Follow completed */
-			if (!(dp->fn[NSFLAG] & NS_NONAME)) {	/* It is not the origin directory itself */
-				if (dp->obj.attr & AM_DIR) {		/* This object is a sub-directory */
-#if FF_FS_EXFAT
-					if (fs->fs_type == FS_EXFAT) {
-						dp->obj.c_scl = dp->obj.sclust;							/* Get containing directory inforamation */
-						dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
-						dp->obj.c_ofs = dp->blk_ofs;
-						init_alloc_info(fs, &dp->obj);	/* Get object allocation info */
-					} else
-#endif
-					{
-						dp->obj.sclust = ld_clust(fs, dp->dir);	/* Get object allocation info */
-					}
-				} else {						/* This object is a file */
-					res = FR_NO_PATH;
-				}
-			}
-			if (res == FR_OK) {
-				dp->obj.id = fs->id;
-				res = dir_sdi(dp, 0);			/* Rewind directory */
-#if FF_FS_LOCK != 0
-				if (res == FR_OK) {
-					if (dp->obj.sclust != 0) {
-						dp->obj.lockid = inc_lock(dp, 0);	/* Lock the sub directory */
-						if (!dp->obj.lockid) res = FR_TOO_MANY_OPEN_FILES;
-					} else {
-						dp->obj.lockid = 0;	/* Root directory need not to be locked */
-					}
-				}
-#endif
-			}
-		}
-		FREE_NAMBUF();
-		if (res == FR_NO_FILE) res = FR_NO_PATH;
-	}
-	if (res != FR_OK) dp->obj.fs = 0;		/* Invalidate the directory object if function faild */
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Close Directory                                                       */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_closedir (
-	DIR *dp		/* Pointer to the directory object to be closed */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-
-
-	res = validate(&dp->obj, &fs);	/* Check validity of the file object */
-	if (res == FR_OK) {
-#if FF_FS_LOCK != 0
-		if (dp->obj.lockid) res = dec_lock(dp->obj.lockid);	/* Decrement sub-directory open counter */
-		if (res == FR_OK) dp->obj.fs = 0;	/* Invalidate directory object */
-#else
-		dp->obj.fs = 0;	/* Invalidate directory object */
-#endif
-#if FF_FS_REENTRANT
-		unlock_fs(fs, FR_OK);		/* Unlock volume */
-#endif
-	}
-	return res;
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Read Directory Entries in Sequence                                    */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_readdir (
-	DIR* dp,			/* Pointer to the open directory object */
-	FILINFO* fno		/* Pointer to file information to return */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	res = validate(&dp->obj, &fs);	/* Check validity of the directory object */
-	if (res == FR_OK) {
-		if (!fno) {
-			res = dir_sdi(dp, 0);			/* Rewind the directory object */
-		} else {
-			INIT_NAMBUF(fs);
-			res = DIR_READ_FILE(dp);		/* Read an item */
-			if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory */
-			if (res == FR_OK) {				/* A valid entry is found */
-				get_fileinfo(dp, fno);		/* Get the object information */
-				res = dir_next(dp, 0);		/* Increment index for next */
-				if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory now */
-			}
-			FREE_NAMBUF();
-		}
-	}
-	LEAVE_FF(fs, res);
-}
-
-
-
-#if FF_USE_FIND
-/*-----------------------------------------------------------------------*/
-/* Find Next File                                                        */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_findnext (
-	DIR* dp,		/* Pointer to the open directory object */
-	FILINFO* fno	/* Pointer to the file information structure */
-)
-{
-	FRESULT res;
-
-
-	for (;;) {
-		res = f_readdir(dp, fno);		/* Get a directory item */
-		if (res != FR_OK || !fno || !fno->fname[0]) break;	/* Terminate if any error or end of directory */
-		if (pattern_match(dp->pat, fno->fname, 0, FIND_RECURS)) break;		/* Test for the file name */
-#if FF_USE_LFN && FF_USE_FIND == 2
-		if (pattern_match(dp->pat, fno->altname, 0, FIND_RECURS)) break;	/* Test for alternative name if exist */
-#endif
-	}
-	return res;
-}
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Find First File                                                       */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_findfirst (
-	DIR* dp,				/* Pointer to the blank directory object */
-	FILINFO* fno,			/* Pointer to the file information structure */
-	const TCHAR* path,		/* Pointer to the directory to open */
-	const TCHAR* pattern	/* Pointer to the matching pattern */
-)
-{
-	FRESULT res;
-
-
-	dp->pat = pattern;		/* Save pointer to pattern string */
-	res = f_opendir(dp, path);		/* Open the target directory */
-	if (res == FR_OK) {
-		res = f_findnext(dp, fno);	/* Find the first item */
-	}
-	return res;
-}
-
-#endif	/* FF_USE_FIND */
-
-
-
-#if FF_FS_MINIMIZE == 0
-/*-----------------------------------------------------------------------*/
-/* Get File Status                                                       */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_stat (
-	const TCHAR* path,	/* Pointer to the file path */
-	FILINFO* fno		/* Pointer to file information to return */
-)
-{
-	FRESULT res;
-	DIR dj;
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &dj.obj.fs, 0);
-	if (res == FR_OK) {
-		INIT_NAMBUF(dj.obj.fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-		if (res == FR_OK) {				/* Follow completed */
-			if (dj.fn[NSFLAG] & NS_NONAME) {	/* It is origin directory */
-				res = FR_INVALID_NAME;
-			} else {							/* Found an object */
-				if (fno) get_fileinfo(&dj, fno);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(dj.obj.fs, res);
-}
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Get Number of Free Clusters                                           */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_getfree (
-	const TCHAR* path,	/* Logical drive number */
-	DWORD* nclst,		/* Pointer to a variable to return number of free clusters */
-	FATFS** fatfs		/* Pointer to return pointer to corresponding filesystem object */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD nfree, clst, stat;
-	LBA_t sect;
-	UINT i;
-	FFOBJID obj;
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-	if (res == FR_OK) {
-		*fatfs = fs;				/* Return ptr to the fs object */
-		/* If free_clst is valid, return it without full FAT scan */
-		if (fs->free_clst <= fs->n_fatent - 2) {
-			*nclst = fs->free_clst;
-		} else {
-			/* Scan FAT to obtain number of free clusters */
-			nfree = 0;
-			if (fs->fs_type == FS_FAT12) {	/* FAT12: Scan bit field FAT entries */
-				clst = 2; obj.fs = fs;
-				do {
-					stat = get_fat(&obj, clst);
-					if (stat == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
-					if (stat == 1) { res = FR_INT_ERR; break; }
-					if (stat == 0) nfree++;
-				} while (++clst < fs->n_fatent);
-			} else {
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {	/* exFAT: Scan allocation bitmap */
-					BYTE bm;
-					UINT b;
-
-					clst = fs->n_fatent - 2;	/* Number of clusters */
-					sect = fs->bitbase;			/* Bitmap sector */
-					i = 0;						/* Offset in the sector */
-					do {	/* Counts numbuer of bits with zero in the bitmap */
-						if (i == 0) {
-							res = move_window(fs, sect++);
-							if (res != FR_OK) break;
-						}
-						for (b = 8, bm = fs->win[i]; b && clst; b--, clst--) {
-							if (!(bm & 1)) nfree++;
-							bm >>= 1;
-						}
-						i = (i + 1) % SS(fs);
-					} while (clst);
-				} else
-#endif
-				{	/* FAT16/32: Scan WORD/DWORD FAT entries */
-					clst = fs->n_fatent;	/* Number of entries */
-					sect = fs->fatbase;		/* Top of the FAT */
-					i = 0;					/* Offset in the sector */
-					do {	/* Counts numbuer of entries with zero in the FAT */
-						if (i == 0) {
-							res = move_window(fs, sect++);
-							if (res != FR_OK) break;
-						}
-						if (fs->fs_type == FS_FAT16) {
-							if (ld_word(fs->win + i) == 0) nfree++;
-							i += 2;
-						} else {
-							if ((ld_dword(fs->win + i) & 0x0FFFFFFF) == 0) nfree++;
-							i += 4;
-						}
-						i %= SS(fs);
-					} while (--clst);
-				}
-			}
-			if (res == FR_OK) {		/* Update parameters if succeeded */
-				*nclst = nfree;			/* Return the free clusters */
-				fs->free_clst = nfree;	/* Now free_clst is valid */
-				fs->fsi_flag |= 1;		/* FAT32: FSInfo is to be updated */
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Truncate File                                                         */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_truncate (
-	FIL* fp		/* Pointer to the file object */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD ncl;
-
-
-	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
-	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
-
-	if (fp->fptr < fp->obj.objsize) {	/* Process when fptr is not on the eof */
-		if (fp->fptr == 0) {	/* When set file size to zero, remove entire cluster chain */
-			res = remove_chain(&fp->obj, fp->obj.sclust, 0);
-			fp->obj.sclust = 0;
-		} else {				/* When truncate a part of the file, remove remaining clusters */
-			ncl = get_fat(&fp->obj, fp->clust);
-			res = FR_OK;
-			if (ncl == 0xFFFFFFFF) res = FR_DISK_ERR;
-			if (ncl == 1) res = FR_INT_ERR;
-			if (res == FR_OK && ncl < fs->n_fatent) {
-				res = remove_chain(&fp->obj, ncl, fp->clust);
-			}
-		}
-		fp->obj.objsize = fp->fptr;	/* Set file size to current read/write point */
-		fp->flag |= FA_MODIFIED;
-#if !FF_FS_TINY
-		if (res == FR_OK && (fp->flag & FA_DIRTY)) {
-			if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) {
-				res = FR_DISK_ERR;
-			} else {
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-		}
-#endif
-		if (res != FR_OK) ABORT(fs, res);
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Delete a File/Directory                                               */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_unlink (
-	const TCHAR* path		/* Pointer to the file or directory path */
-)
-{
-	FRESULT res;
-	DIR dj, sdj;
-	DWORD dclst = 0;
-	FATFS *fs;
-#if FF_FS_EXFAT
-	FFOBJID obj;
-#endif
-	DEF_NAMBUF
-
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, FA_WRITE);
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);		/* Follow the file path */
-		if (FF_FS_RPATH && res == FR_OK && (dj.fn[NSFLAG] & NS_DOT)) {
-			res = FR_INVALID_NAME;			/* Cannot remove dot entry */
-		}
-#if FF_FS_LOCK != 0
-		if (res == FR_OK) res = chk_lock(&dj, 2);	/* Check if it is an open object */
-#endif
-		if (res == FR_OK) {					/* The object is accessible */
-			if (dj.fn[NSFLAG] & NS_NONAME) {
-				res = FR_INVALID_NAME;		/* Cannot remove the origin directory */
-			} else {
-				if (dj.obj.attr & AM_RDO) {
-					res = FR_DENIED;		/* Cannot remove R/O object */
-				}
-			}
-			if (res == FR_OK) {
-#if FF_FS_EXFAT
-				obj.fs = fs;
-				if (fs->fs_type == FS_EXFAT) {
-					init_alloc_info(fs, &obj);
-					dclst = obj.sclust;
-				} else
-#endif
-				{
-					dclst = ld_clust(fs, dj.dir);
-				}
-				if (dj.obj.attr & AM_DIR) {			/* Is it a sub-directory? */
-#if FF_FS_RPATH != 0
-					if (dclst == fs->cdir) {	 	/* Is it the current directory? */
-						res = FR_DENIED;
-					} else
-#endif
-					{
-						sdj.obj.fs = fs;			/* Open the sub-directory */
-						sdj.obj.sclust = dclst;
-#if FF_FS_EXFAT
-						if (fs->fs_type == FS_EXFAT) {
-							sdj.obj.objsize = obj.objsize;
-							sdj.obj.stat = obj.stat;
-						}
-#endif
-						res = dir_sdi(&sdj, 0);
-						if (res == FR_OK) {
-							res = DIR_READ_FILE(&sdj);			/* Test if the directory is empty */
-							if (res == FR_OK) res = FR_DENIED;	/* Not empty? */
-							if (res == FR_NO_FILE) res = FR_OK;	/* Empty? */
-						}
-					}
-				}
-			}
-			if (res == FR_OK) {
-				res = dir_remove(&dj);			/* Remove the directory entry */
-				if (res == FR_OK && dclst != 0) {	/* Remove the cluster chain if exist */
-#if FF_FS_EXFAT
-					res = remove_chain(&obj, dclst, 0);
-#else
-					res = remove_chain(&dj.obj, dclst, 0);
-#endif
-				}
-				if (res == FR_OK) res = sync_fs(fs);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Create a Directory                                                    */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_mkdir (
-	const TCHAR* path		/* Pointer to the directory path */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FFOBJID sobj;
-	FATFS *fs;
-	DWORD dcl, pcl, tm;
-	DEF_NAMBUF
-
-
-	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);			/* Follow the file path */
-		if (res == FR_OK) res = FR_EXIST;		/* Name collision? */
-		if (FF_FS_RPATH && res == FR_NO_FILE && (dj.fn[NSFLAG] & NS_DOT)) {	/* Invalid name? */
-			res = FR_INVALID_NAME;
-		}
-		if (res == FR_NO_FILE) {				/* It is clear to create a new directory */
-			sobj.fs = fs;						/* New object id to create a new chain */
-			dcl = create_chain(&sobj, 0);		/* Allocate a cluster for the new directory */
-			res = FR_OK;
-			if (dcl == 0) res = FR_DENIED;		/* No space to allocate a new cluster? */
-			if (dcl == 1) res = FR_INT_ERR;		/* Any insanity? */
-			if (dcl == 0xFFFFFFFF) res = FR_DISK_ERR;	/* Disk error? */
-			tm = GET_FATTIME();
-			if (res == FR_OK) {
-				res = dir_clear(fs, dcl);		/* Clean up the new table */
-				if (res == FR_OK) {
-					if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* Create dot entries (FAT only) */
-						memset(fs->win + DIR_Name, ' ', 11);	/* Create "." entry */
-						fs->win[DIR_Name] = '.';
-						fs->win[DIR_Attr] = AM_DIR;
-						st_dword(fs->win + DIR_ModTime, tm);
-						st_clust(fs, fs->win, dcl);
-						memcpy(fs->win + SZDIRE, fs->win, SZDIRE);	/* Create ".." entry */
-						fs->win[SZDIRE + 1] = '.'; pcl = dj.obj.sclust;
-						st_clust(fs, fs->win + SZDIRE, pcl);
-						fs->wflag = 1;
-					}
-					res = dir_register(&dj);	/* Register the object to the parent directoy */
-				}
-			}
-			if (res == FR_OK) {
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {	/* Initialize directory entry block */
-					st_dword(fs->dirbuf + XDIR_ModTime, tm);	/* Created time */
-					st_dword(fs->dirbuf + XDIR_FstClus, dcl);	/* Table start cluster */
-					st_dword(fs->dirbuf + XDIR_FileSize, (DWORD)fs->csize * SS(fs));	/* Directory size needs to be valid */
-					st_dword(fs->dirbuf + XDIR_ValidFileSize, (DWORD)fs->csize * SS(fs));
-					fs->dirbuf[XDIR_GenFlags] = 3;				/* Initialize the object flag */
-					fs->dirbuf[XDIR_Attr] = AM_DIR;				/* Attribute */
-					res = store_xdir(&dj);
-				} else
-#endif
-				{
-					st_dword(dj.dir + DIR_ModTime, tm);	/* Created time */
-					st_clust(fs, dj.dir, dcl);			/* Table start cluster */
-					dj.dir[DIR_Attr] = AM_DIR;			/* Attribute */
-					fs->wflag = 1;
-				}
-				if (res == FR_OK) {
-					res = sync_fs(fs);
-				}
-			} else {
-				remove_chain(&sobj, dcl, 0);		/* Could not register, remove the allocated cluster */
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Rename a File/Directory                                               */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_rename (
-	const TCHAR* path_old,	/* Pointer to the object name to be renamed */
-	const TCHAR* path_new	/* Pointer to the new name */
-)
-{
-	FRESULT res;
-	DIR djo, djn, dja;
-	FATFS *fs;
-	UINT n;
-	BYTE buf[FF_FS_EXFAT ? SZDIRE * 2 : SZDIRE], *dir;
-	LBA_t sect;
-	DEF_NAMBUF
-
-
-	get_ldnumber(&path_new);						/* Snip the drive number of new name off */
-	res = mount_volume(&path_old, &fs, FA_WRITE);	/* Get logical drive of the old object */
-	if (res == FR_OK) {
-		djo.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&djo, path_old);			/* Check old object */
-		if (res == FR_OK && (djo.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check validity of name */
-#if FF_FS_LOCK != 0
-		if (res == FR_OK) {
-			res = chk_lock(&djo, 2);
-		}
-#endif
-		if (res == FR_OK) {					/* Object to be renamed is found */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {	/* At exFAT volume */
-				BYTE nf, nn;
-				WORD nh;
-
-				memcpy(buf, fs->dirbuf, SZDIRE * 2);	/* Save 85+C0 entry of old object */
-				memcpy(&djn, &djo, sizeof djo);
-				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
-				if (res == FR_OK) {						/* Is new name already in use by any other object? */
-					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) ? FR_NO_FILE : FR_EXIST;
-				}
-				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
-					res = dir_register(&djn);			/* Register the new entry */
-					if (res == FR_OK) {
-						nf = fs->dirbuf[XDIR_NumSec]; nn = fs->dirbuf[XDIR_NumName];
-						nh = ld_word(fs->dirbuf + XDIR_NameHash);
-						memcpy(fs->dirbuf, buf, SZDIRE * 2);	/* Restore 85+C0 entry */
-						fs->dirbuf[XDIR_NumSec] = nf; fs->dirbuf[XDIR_NumName] = nn;
-						st_word(fs->dirbuf + XDIR_NameHash, nh);
-						if (!(fs->dirbuf[XDIR_Attr] & AM_DIR)) fs->dirbuf[XDIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
-/* Start of critical section where an interruption can cause a cross-link */
-						res = store_xdir(&djn);
-					}
-				}
-			} else
-#endif
-			{	/* At FAT/FAT32 volume */
-				memcpy(buf, djo.dir, SZDIRE);			/* Save directory entry of the object */
-				memcpy(&djn, &djo, sizeof (DIR));		/* Duplicate the directory object */
-				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
-				if (res == FR_OK) {						/* Is new name already in use by any other object? */
-					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) && !(djn.fn[NSFLAG] & (NS_DOT | NS_NONAME)) ? FR_NO_FILE : FR_EXIST;
-				}
-				if (res == FR_NO_FILE && (buf[DIR_Attr] & AM_DIR)) {	/* A directory cannot be moved into itself */
-					dja.obj.fs = fs;
-					dja.obj.sclust = djn.obj.sclust;
-					for (n = 0; dja.obj.sclust != 0; n++) {	/* Follow parent directories up to the root */
-						if (dja.obj.sclust == ld_clust(fs, buf)) { res = FR_DENIED; break; }
-						if (n >= 0x8000 || dir_sdi(&dja, 1 * SZDIRE) != FR_OK) { res = FR_INT_ERR; break; }
-						if (move_window(fs, dja.sect) != FR_OK) { res = FR_DISK_ERR; break; }
-						dja.obj.sclust = ld_clust(fs, dja.dir);
-					}
-				}
-				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
-					res = dir_register(&djn);			/* Register the new entry */
-					if (res == FR_OK) {
-						dir = djn.dir;					/* Copy directory entry of the object except name */
-						memcpy(dir + 13, buf + 13, SZDIRE - 13);
-						dir[DIR_Attr] = buf[DIR_Attr];
-						if (!(dir[DIR_Attr] & AM_DIR)) dir[DIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
-						fs->wflag = 1;
-						if ((dir[DIR_Attr] & AM_DIR) && djo.obj.sclust != djn.obj.sclust) {	/* Update .. entry in the sub-directory if needed */
-							sect = clst2sect(fs, ld_clust(fs, dir));
-							if (sect == 0) {
-								res = FR_INT_ERR;
-							} else {
-/* Start of critical section where an interruption can cause a cross-link */
-								res = move_window(fs, sect);
-								dir = fs->win + SZDIRE * 1;	/* Ptr to .. entry */
-								if (res == FR_OK && dir[1] == '.') {
-									st_clust(fs, dir, djn.obj.sclust);
-									fs->wflag = 1;
-								}
-							}
-						}
-					}
-				}
-			}
-			if (res == FR_OK) {
-				res = dir_remove(&djo);		/* Remove old entry */
-				if (res == FR_OK) {
-					res = sync_fs(fs);
-				}
-			}
-/* End of the critical section */
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* !FF_FS_READONLY */
-#endif /* FF_FS_MINIMIZE == 0 */
-#endif /* FF_FS_MINIMIZE <= 1 */
-#endif /* FF_FS_MINIMIZE <= 2 */
-
-
-
-#if FF_USE_CHMOD && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Change Attribute                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_chmod (
-	const TCHAR* path,	/* Pointer to the file path */
-	BYTE attr,			/* Attribute bits */
-	BYTE mask			/* Attribute mask to change */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
-		if (res == FR_OK) {
-			mask &= AM_RDO|AM_HID|AM_SYS|AM_ARC;	/* Valid attribute mask */
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				fs->dirbuf[XDIR_Attr] = (attr & mask) | (fs->dirbuf[XDIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
-				res = store_xdir(&dj);
-			} else
-#endif
-			{
-				dj.dir[DIR_Attr] = (attr & mask) | (dj.dir[DIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
-				fs->wflag = 1;
-			}
-			if (res == FR_OK) {
-				res = sync_fs(fs);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Change Timestamp                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_utime (
-	const TCHAR* path,	/* Pointer to the file/directory name */
-	const FILINFO* fno	/* Pointer to the timestamp to be set */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	DEF_NAMBUF
-
-
-	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
-	if (res == FR_OK) {
-		dj.obj.fs = fs;
-		INIT_NAMBUF(fs);
-		res = follow_path(&dj, path);	/* Follow the file path */
-		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
-		if (res == FR_OK) {
-#if FF_FS_EXFAT
-			if (fs->fs_type == FS_EXFAT) {
-				st_dword(fs->dirbuf + XDIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
-				res = store_xdir(&dj);
-			} else
-#endif
-			{
-				st_dword(dj.dir + DIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
-				fs->wflag = 1;
-			}
-			if (res == FR_OK) {
-				res = sync_fs(fs);
-			}
-		}
-		FREE_NAMBUF();
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif	/* FF_USE_CHMOD && !FF_FS_READONLY */
-
-
-
-#if FF_USE_LABEL
-/*-----------------------------------------------------------------------*/
-/* Get Volume Label                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_getlabel (
-	const TCHAR* path,	/* Logical drive number */
-	TCHAR* label,		/* Buffer to store the volume label */
-	DWORD* vsn			/* Variable to store the volume serial number */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	UINT si, di;
-	WCHAR wc;
-
-	/* Get logical drive */
-	res = mount_volume(&path, &fs, 0);
-
-	/* Get volume label */
-	if (res == FR_OK && label) {
-		dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
-		res = dir_sdi(&dj, 0);
-		if (res == FR_OK) {
-		 	res = DIR_READ_LABEL(&dj);		/* Find a volume label entry */
-		 	if (res == FR_OK) {
-#if FF_FS_EXFAT
-				if (fs->fs_type == FS_EXFAT) {
-					WCHAR hs;
-					UINT nw;
-
-					for (si = di = hs = 0; si < dj.dir[XDIR_NumLabel]; si++) {	/* Extract volume label from 83 entry */
-						wc = ld_word(dj.dir + XDIR_Label + si * 2);
-						if (hs == 0 && IsSurrogate(wc)) {	/* Is the code a surrogate? */
-							hs = wc; continue;
-						}
-						nw = put_utf((DWORD)hs << 16 | wc, &label[di], 4);	/* Store it in API encoding */
-						if (nw == 0) { di = 0; break; }		/* Encode error? */
-						di += nw;
-						hs = 0;
-					}
-					if (hs != 0) di = 0;	/* Broken surrogate pair? */
-					label[di] = 0;
-				} else
-#endif
-				{
-					si = di = 0;		/* Extract volume label from AM_VOL entry */
-					while (si < 11) {
-						wc = dj.dir[si++];
-#if FF_USE_LFN && FF_LFN_UNICODE >= 1 	/* Unicode output */
-						if (dbc_1st((BYTE)wc) && si < 11) wc = wc << 8 | dj.dir[si++];	/* Is it a DBC? */
-						wc = ff_oem2uni(wc, CODEPAGE);		/* Convert it into Unicode */
-						if (wc == 0) { di = 0; break; }		/* Invalid char in current code page? */
-						di += put_utf(wc, &label[di], 4);	/* Store it in Unicode */
-#else									/* ANSI/OEM output */
-						label[di++] = (TCHAR)wc;
-#endif
-					}
-					do {				/* Truncate trailing spaces */
-						label[di] = 0;
-						if (di == 0) break;
-					} while (label[--di] == ' ');
-				}
-			}
-		}
-		if (res == FR_NO_FILE) {	/* No label entry and return nul string */
-			label[0] = 0;
-			res = FR_OK;
-		}
-	}
-
-	/* Get volume serial number */
-	if (res == FR_OK && vsn) {
-		res = move_window(fs, fs->volbase);
-		if (res == FR_OK) {
-			switch (fs->fs_type) {
-			case FS_EXFAT:
-				di = BPB_VolIDEx;
-				break;
-
-			case FS_FAT32:
-				di = BS_VolID32;
-				break;
-
-			default:
-				di = BS_VolID;
-			}
-			*vsn = ld_dword(fs->win + di);
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-
-
-#if !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Set Volume Label                                                      */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_setlabel (
-	const TCHAR* label	/* Volume label to set with heading logical drive number */
-)
-{
-	FRESULT res;
-	DIR dj;
-	FATFS *fs;
-	BYTE dirvn[22];
-	UINT di;
-	WCHAR wc;
-	static const char badchr[18] = "+.,;=[]" "/*:<>|\\\"\?\x7F";	/* [0..16] for FAT, [7..16] for exFAT */
-#if FF_USE_LFN
-	DWORD dc;
-#endif
-
-	/* Get logical drive */
-	res = mount_volume(&label, &fs, FA_WRITE);
-	if (res != FR_OK) LEAVE_FF(fs, res);
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
-		memset(dirvn, 0, 22);
-		di = 0;
-		while ((UINT)*label >= ' ') {	/* Create volume label */
-			dc = tchar2uni(&label);	/* Get a Unicode character */
-			if (dc >= 0x10000) {
-				if (dc == 0xFFFFFFFF || di >= 10) {	/* Wrong surrogate or buffer overflow */
-					dc = 0;
-				} else {
-					st_word(dirvn + di * 2, (WCHAR)(dc >> 16)); di++;
-				}
-			}
-			if (dc == 0 || strchr(&badchr[7], (int)dc) || di >= 11) {	/* Check validity of the volume label */
-				LEAVE_FF(fs, FR_INVALID_NAME);
-			}
-			st_word(dirvn + di * 2, (WCHAR)dc); di++;
-		}
-	} else
-#endif
-	{	/* On the FAT/FAT32 volume */
-		memset(dirvn, ' ', 11);
-		di = 0;
-		while ((UINT)*label >= ' ') {	/* Create volume label */
-#if FF_USE_LFN
-			dc = tchar2uni(&label);
-			wc = (dc < 0x10000) ? ff_uni2oem(ff_wtoupper(dc), CODEPAGE) : 0;
-#else									/* ANSI/OEM input */
-			wc = (BYTE)*label++;
-			if (dbc_1st((BYTE)wc)) wc = dbc_2nd((BYTE)*label) ? wc << 8 | (BYTE)*label++ : 0;
-			if (IsLower(wc)) wc -= 0x20;		/* To upper ASCII characters */
-#if FF_CODE_PAGE == 0
-			if (ExCvt && wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
-#elif FF_CODE_PAGE < 900
-			if (wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
-#endif
-#endif
-			if (wc == 0 || strchr(&badchr[0], (int)wc) || di >= (UINT)((wc >= 0x100) ? 10 : 11)) {	/* Reject invalid characters for volume label */
-				LEAVE_FF(fs, FR_INVALID_NAME);
-			}
-			if (wc >= 0x100) dirvn[di++] = (BYTE)(wc >> 8);
-			dirvn[di++] = (BYTE)wc;
-		}
-		if (dirvn[0] == DDEM) LEAVE_FF(fs, FR_INVALID_NAME);	/* Reject illegal name (heading DDEM) */
-		while (di && dirvn[di - 1] == ' ') di--;				/* Snip trailing spaces */
-	}
-
-	/* Set volume label */
-	dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
-	res = dir_sdi(&dj, 0);
-	if (res == FR_OK) {
-		res = DIR_READ_LABEL(&dj);	/* Get volume label entry */
-		if (res == FR_OK) {
-			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
-				dj.dir[XDIR_NumLabel] = (BYTE)di;	/* Change the volume label */
-				memcpy(dj.dir + XDIR_Label, dirvn, 22);
-			} else {
-				if (di != 0) {
-					memcpy(dj.dir, dirvn, 11);	/* Change the volume label */
-				} else {
-					dj.dir[DIR_Name] = DDEM;	/* Remove the volume label */
-				}
-			}
-			fs->wflag = 1;
-			res = sync_fs(fs);
-		} else {			/* No volume label entry or an error */
-			if (res == FR_NO_FILE) {
-				res = FR_OK;
-				if (di != 0) {	/* Create a volume label entry */
-					res = dir_alloc(&dj, 1);	/* Allocate an entry */
-					if (res == FR_OK) {
-						memset(dj.dir, 0, SZDIRE);	/* Clean the entry */
-						if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
-							dj.dir[XDIR_Type] = ET_VLABEL;	/* Create volume label entry */
-							dj.dir[XDIR_NumLabel] = (BYTE)di;
-							memcpy(dj.dir + XDIR_Label, dirvn, 22);
-						} else {
-							dj.dir[DIR_Attr] = AM_VOL;		/* Create volume label entry */
-							memcpy(dj.dir, dirvn, 11);
-						}
-						fs->wflag = 1;
-						res = sync_fs(fs);
-					}
-				}
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* !FF_FS_READONLY */
-#endif /* FF_USE_LABEL */
-
-
-
-#if FF_USE_EXPAND && !FF_FS_READONLY
-/*-----------------------------------------------------------------------*/
-/* Allocate a Contiguous Blocks to the File                              */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_expand (
-	FIL* fp,		/* Pointer to the file object */
-	FSIZE_t fsz,	/* File size to be expanded to */
-	BYTE opt		/* Operation mode 0:Find and prepare or 1:Find and allocate */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD n, clst, stcl, scl, ncl, tcl, lclst;
-
-
-	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
-	if (fsz == 0 || fp->obj.objsize != 0 || !(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);
-#if FF_FS_EXFAT
-	if (fs->fs_type != FS_EXFAT && fsz >= 0x100000000) LEAVE_FF(fs, FR_DENIED);	/* Check if in size limit */
-#endif
-	n = (DWORD)fs->csize * SS(fs);	/* Cluster size */
-	tcl = (DWORD)(fsz / n) + ((fsz & (n - 1)) ? 1 : 0);	/* Number of clusters required */
-	stcl = fs->last_clst; lclst = 0;
-	if (stcl < 2 || stcl >= fs->n_fatent) stcl = 2;
-
-#if FF_FS_EXFAT
-	if (fs->fs_type == FS_EXFAT) {
-		scl = find_bitmap(fs, stcl, tcl);			/* Find a contiguous cluster block */
-		if (scl == 0) res = FR_DENIED;				/* No contiguous cluster block was found */
-		if (scl == 0xFFFFFFFF) res = FR_DISK_ERR;
-		if (res == FR_OK) {	/* A contiguous free area is found */
-			if (opt) {		/* Allocate it now */
-				res = change_bitmap(fs, scl, tcl, 1);	/* Mark the cluster block 'in use' */
-				lclst = scl + tcl - 1;
-			} else {		/* Set it as suggested point for next allocation */
-				lclst = scl - 1;
-			}
-		}
-	} else
-#endif
-	{
-		scl = clst = stcl; ncl = 0;
-		for (;;) {	/* Find a contiguous cluster block */
-			n = get_fat(&fp->obj, clst);
-			if (++clst >= fs->n_fatent) clst = 2;
-			if (n == 1) { res = FR_INT_ERR; break; }
-			if (n == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
-			if (n == 0) {	/* Is it a free cluster? */
-				if (++ncl == tcl) break;	/* Break if a contiguous cluster block is found */
-			} else {
-				scl = clst; ncl = 0;		/* Not a free cluster */
-			}
-			if (clst == stcl) { res = FR_DENIED; break; }	/* No contiguous cluster? */
-		}
-		if (res == FR_OK) {	/* A contiguous free area is found */
-			if (opt) {		/* Allocate it now */
-				for (clst = scl, n = tcl; n; clst++, n--) {	/* Create a cluster chain on the FAT */
-					res = put_fat(fs, clst, (n == 1) ? 0xFFFFFFFF : clst + 1);
-					if (res != FR_OK) break;
-					lclst = clst;
-				}
-			} else {		/* Set it as suggested point for next allocation */
-				lclst = scl - 1;
-			}
-		}
-	}
-
-	if (res == FR_OK) {
-		fs->last_clst = lclst;		/* Set suggested start cluster to start next */
-		if (opt) {	/* Is it allocated now? */
-			fp->obj.sclust = scl;		/* Update object allocation information */
-			fp->obj.objsize = fsz;
-			if (FF_FS_EXFAT) fp->obj.stat = 2;	/* Set status 'contiguous chain' */
-			fp->flag |= FA_MODIFIED;
-			if (fs->free_clst <= fs->n_fatent - 2) {	/* Update FSINFO */
-				fs->free_clst -= tcl;
-				fs->fsi_flag |= 1;
-			}
-		}
-	}
-
-	LEAVE_FF(fs, res);
-}
-
-#endif /* FF_USE_EXPAND && !FF_FS_READONLY */
-
-
-
-#if FF_USE_FORWARD
-/*-----------------------------------------------------------------------*/
-/* Forward Data to the Stream Directly                                   */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_forward (
-	FIL* fp, 						/* Pointer to the file object */
-	UINT (*func)(const BYTE*,UINT),	/* Pointer to the streaming function */
-	UINT btf,						/* Number of bytes to forward */
-	UINT* bf						/* Pointer to number of bytes forwarded */
-)
-{
-	FRESULT res;
-	FATFS *fs;
-	DWORD clst;
-	LBA_t sect;
-	FSIZE_t remain;
-	UINT rcnt, csect;
-	BYTE *dbuf;
-
-
-	*bf = 0;	/* Clear transfer byte counter */
-	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
-	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
-	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
-
-	remain = fp->obj.objsize - fp->fptr;
-	if (btf > remain) btf = (UINT)remain;			/* Truncate btf by remaining bytes */
-
-	for ( ; btf > 0 && (*func)(0, 0); fp->fptr += rcnt, *bf += rcnt, btf -= rcnt) {	/* Repeat until all data transferred or stream goes busy */
-		csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
-		if (fp->fptr % SS(fs) == 0) {				/* On the sector boundary? */
-			if (csect == 0) {						/* On the cluster boundary? */
-				clst = (fp->fptr == 0) ?			/* On the top of the file? */
-					fp->obj.sclust : get_fat(&fp->obj, fp->clust);
-				if (clst <= 1) ABORT(fs, FR_INT_ERR);
-				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
-				fp->clust = clst;					/* Update current cluster */
-			}
-		}
-		sect = clst2sect(fs, fp->clust);			/* Get current data sector */
-		if (sect == 0) ABORT(fs, FR_INT_ERR);
-		sect += csect;
-#if FF_FS_TINY
-		if (move_window(fs, sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window to the file data */
-		dbuf = fs->win;
-#else
-		if (fp->sect != sect) {		/* Fill sector cache with file data */
-#if !FF_FS_READONLY
-			if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
-				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-				fp->flag &= (BYTE)~FA_DIRTY;
-			}
-#endif
-			if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
-		}
-		dbuf = fp->buf;
-#endif
-		fp->sect = sect;
-		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
-		if (rcnt > btf) rcnt = btf;					/* Clip it by btr if needed */
-		rcnt = (*func)(dbuf + ((UINT)fp->fptr % SS(fs)), rcnt);	/* Forward the file data */
-		if (rcnt == 0) ABORT(fs, FR_INT_ERR);
-	}
-
-	LEAVE_FF(fs, FR_OK);
-}
-#endif /* FF_USE_FORWARD */
-
-
-
-#if !FF_FS_READONLY && FF_USE_MKFS
-/*-----------------------------------------------------------------------*/
-/* Create FAT/exFAT volume (with sub-functions)                          */
-/*-----------------------------------------------------------------------*/
-
-#define N_SEC_TRACK 63			/* Sectors per track for determination of drive CHS */
-#define	GPT_ALIGN	0x100000	/* Alignment of partitions in GPT [byte] (>=128KB) */
-#define GPT_ITEMS	128			/* Number of GPT table size (>=128, sector aligned) */
-
-
-/* Create partitions on the physical drive in format of MBR or GPT */
-
-static FRESULT create_partition (
-	BYTE drv,			/* Physical drive number */
-	const LBA_t plst[],	/* Partition list */
-	BYTE sys,			/* System ID (for only MBR, temp setting) */
-	BYTE* buf			/* Working buffer for a sector */
-)
-{
-	UINT i, cy;
-	LBA_t sz_drv;
-	DWORD sz_drv32, nxt_alloc32, sz_part32;
-	BYTE *pte;
-	BYTE hd, n_hd, sc, n_sc;
-
-	/* Get physical drive size */
-	if (disk_ioctl(drv, GET_SECTOR_COUNT, &sz_drv) != RES_OK) return FR_DISK_ERR;
-
-#if FF_LBA64
-	if (sz_drv >= FF_MIN_GPT) {	/* Create partitions in GPT format */
-		WORD ss;
-		UINT sz_ptbl, pi, si, ofs;
-		DWORD bcc, rnd, align;
-		QWORD nxt_alloc, sz_part, sz_pool, top_bpt;
-		static const BYTE gpt_mbr[16] = {0x00, 0x00, 0x02, 0x00, 0xEE, 0xFE, 0xFF, 0x00, 0x01, 0x00, 0x00, 0x00, 0xFF, 0xFF, 0xFF, 0xFF};
-
-#if FF_MAX_SS != FF_MIN_SS
-		if (disk_ioctl(drv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;	/* Get sector size */
-		if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
-#else
-		ss = FF_MAX_SS;
-#endif
-		rnd = (DWORD)sz_drv + GET_FATTIME();	/* Random seed */
-		align = GPT_ALIGN / ss;				/* Partition alignment for GPT [sector] */
-		sz_ptbl = GPT_ITEMS * SZ_GPTE / ss;	/* Size of partition table [sector] */
-		top_bpt = sz_drv - sz_ptbl - 1;		/* Backup partiiton table start sector */
-		nxt_alloc = 2 + sz_ptbl;			/* First allocatable sector */
-		sz_pool = top_bpt - nxt_alloc;		/* Size of allocatable area */
-		bcc = 0xFFFFFFFF; sz_part = 1;
-		pi = si = 0;	/* partition table index, size table index */
-		do {
-			if (pi * SZ_GPTE % ss == 0) memset(buf, 0, ss);	/* Clean the buffer if needed */
-			if (sz_part != 0) {				/* Is the size table not termintated? */
-				nxt_alloc = (nxt_alloc + align - 1) & ((QWORD)0 - align);	/* Align partition start */
-				sz_part = plst[si++];		/* Get a partition size */
-				if (sz_part <= 100) {		/* Is the size in percentage? */
-					sz_part = sz_pool * sz_part / 100;
-					sz_part = (sz_part + align - 1) & ((QWORD)0 - align);	/* Align partition end (only if in percentage) */
-				}
-				if (nxt_alloc + sz_part > top_bpt) {	/* Clip the size at end of the pool */
-					sz_part = (nxt_alloc < top_bpt) ? top_bpt - nxt_alloc : 0;
-				}
-			}
-			if (sz_part != 0) {				/* Add a partition? */
-				ofs = pi * SZ_GPTE % ss;
-				memcpy(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16);	/* Set partition GUID (Microsoft Basic Data) */
-				rnd = make_rand(rnd, buf + ofs + GPTE_UpGuid, 16);	/* Set unique partition GUID */
-				st_qword(buf + ofs + GPTE_FstLba, nxt_alloc);		/* Set partition start sector */
-				st_qword(buf + ofs + GPTE_LstLba, nxt_alloc + sz_part - 1);	/* Set partition end sector */
-				nxt_alloc += sz_part;								/* Next allocatable sector */
-			}
-			if ((pi + 1) * SZ_GPTE % ss == 0) {		/* Write the buffer if it is filled up */
-				for (i = 0; i < ss; bcc = crc32(bcc, buf[i++])) ;	/* Calculate table check sum */
-				if (disk_write(drv, buf, 2 + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;		/* Write to primary table */
-				if (disk_write(drv, buf, top_bpt + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;	/* Write to secondary table */
-			}
-		} while (++pi < GPT_ITEMS);
-
-		/* Create primary GPT header */
-		memset(buf, 0, ss);
-		memcpy(buf + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16);	/* Signature, version (1.0) and size (92) */
-		st_dword(buf + GPTH_PtBcc, ~bcc);			/* Table check sum */
-		st_qword(buf + GPTH_CurLba, 1);				/* LBA of this header */
-		st_qword(buf + GPTH_BakLba, sz_drv - 1);	/* LBA of secondary header */
-		st_qword(buf + GPTH_FstLba, 2 + sz_ptbl);	/* LBA of first allocatable sector */
-		st_qword(buf + GPTH_LstLba, top_bpt - 1);	/* LBA of last allocatable sector */
-		st_dword(buf + GPTH_PteSize, SZ_GPTE);		/* Size of a table entry */
-		st_dword(buf + GPTH_PtNum, GPT_ITEMS);		/* Number of table entries */
-		st_dword(buf + GPTH_PtOfs, 2);				/* LBA of this table */
-		rnd = make_rand(rnd, buf + GPTH_DskGuid, 16);	/* Disk GUID */
-		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
-		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
-		if (disk_write(drv, buf, 1, 1) != RES_OK) return FR_DISK_ERR;
-
-		/* Create secondary GPT header */
-		st_qword(buf + GPTH_CurLba, sz_drv - 1);	/* LBA of this header */
-		st_qword(buf + GPTH_BakLba, 1);				/* LBA of primary header */
-		st_qword(buf + GPTH_PtOfs, top_bpt);		/* LBA of this table */
-		st_dword(buf + GPTH_Bcc, 0);
-		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
-		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
-		if (disk_write(drv, buf, sz_drv - 1, 1) != RES_OK) return FR_DISK_ERR;
-
-		/* Create protective MBR */
-		memset(buf, 0, ss);
-		memcpy(buf + MBR_Table, gpt_mbr, 16);		/* Create a GPT partition */
-		st_word(buf + BS_55AA, 0xAA55);
-		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;
-
-	} else
-#endif
-	{	/* Create partitions in MBR format */
-		sz_drv32 = (DWORD)sz_drv;
-		n_sc = N_SEC_TRACK;				/* Determine drive CHS without any consideration of the drive geometry */
-		for (n_hd = 8; n_hd != 0 && sz_drv32 / n_hd / n_sc > 1024; n_hd *= 2) ;
-		if (n_hd == 0) n_hd = 255;		/* Number of heads needs to be <256 */
-
-		memset(buf, 0, FF_MAX_SS);		/* Clear MBR */
-		pte = buf + MBR_Table;	/* Partition table in the MBR */
-		for (i = 0, nxt_alloc32 = n_sc; i < 4 && nxt_alloc32 != 0 && nxt_alloc32 < sz_drv32; i++, nxt_alloc32 += sz_part32) {
-			sz_part32 = (DWORD)plst[i];	/* Get partition size */
-			if (sz_part32 <= 100) sz_part32 = (sz_part32 == 100) ? sz_drv32 : sz_drv32 / 100 * sz_part32;	/* Size in percentage? */
-			if (nxt_alloc32 + sz_part32 > sz_drv32 || nxt_alloc32 + sz_part32 < nxt_alloc32) sz_part32 = sz_drv32 - nxt_alloc32;	/* Clip at drive size */
-			if (sz_part32 == 0) break;	/* End of table or no sector to allocate? */
-
-			st_dword(pte + PTE_StLba, nxt_alloc32);	/* Start LBA */
-			st_dword(pte + PTE_SizLba, sz_part32);	/* Number of sectors */
-			pte[PTE_System] = sys;					/* System type */
-
-			cy = (UINT)(nxt_alloc32 / n_sc / n_hd);	/* Start cylinder */
-			hd = (BYTE)(nxt_alloc32 / n_sc % n_hd);	/* Start head */
-			sc = (BYTE)(nxt_alloc32 % n_sc + 1);	/* Start sector */
-			pte[PTE_StHead] = hd;
-			pte[PTE_StSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
-			pte[PTE_StCyl] = (BYTE)cy;
-
-			cy = (UINT)((nxt_alloc32 + sz_part32 - 1) / n_sc / n_hd);	/* End cylinder */
-			hd = (BYTE)((nxt_alloc32 + sz_part32 - 1) / n_sc % n_hd);	/* End head */
-			sc = (BYTE)((nxt_alloc32 + sz_part32 - 1) % n_sc + 1);		/* End sector */
-			pte[PTE_EdHead] = hd;
-			pte[PTE_EdSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
-			pte[PTE_EdCyl] = (BYTE)cy;
-
-			pte += SZ_PTE;		/* Next entry */
-		}
-
-		st_word(buf + BS_55AA, 0xAA55);		/* MBR signature */
-		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;	/* Write it to the MBR */
-	}
-
-	return FR_OK;
-}
-
-
-
-FRESULT f_mkfs (
-	const TCHAR* path,		/* Logical drive number */
-	const MKFS_PARM* opt,	/* Format options */
-	void* work,				/* Pointer to working buffer (null: use heap memory) */
-	UINT len				/* Size of working buffer [byte] */
-)
-{
-	static const WORD cst[] = {1, 4, 16, 64, 256, 512, 0};	/* Cluster size boundary for FAT volume (4Ks unit) */
-	static const WORD cst32[] = {1, 2, 4, 8, 16, 32, 0};	/* Cluster size boundary for FAT32 volume (128Ks unit) */
-	static const MKFS_PARM defopt = {FM_ANY, 0, 0, 0, 0};	/* Default parameter */
-	BYTE fsopt, fsty, sys, *buf, *pte, pdrv, ipart;
-	WORD ss;	/* Sector size */
-	DWORD sz_buf, sz_blk, n_clst, pau, nsect, n, vsn;
-	LBA_t sz_vol, b_vol, b_fat, b_data;		/* Size of volume, Base LBA of volume, fat, data */
-	LBA_t sect, lba[2];
-	DWORD sz_rsv, sz_fat, sz_dir, sz_au;	/* Size of reserved, fat, dir, data, cluster */
-	UINT n_fat, n_root, i;					/* Index, Number of FATs and Number of roor dir entries */
-	int vol;
-	DSTATUS ds;
-	FRESULT fr;
-
-
-	/* Check mounted drive and clear work area */
-	vol = get_ldnumber(&path);					/* Get target logical drive */
-	if (vol < 0) return FR_INVALID_DRIVE;
-	if (FatFs[vol]) FatFs[vol]->fs_type = 0;	/* Clear the fs object if mounted */
-	pdrv = LD2PD(vol);			/* Physical drive */
-	ipart = LD2PT(vol);			/* Partition (0:create as new, 1..:get from partition table) */
-	if (!opt) opt = &defopt;	/* Use default parameter if it is not given */
-
-	/* Get physical drive status (sz_drv, sz_blk, ss) */
-	ds = disk_initialize(pdrv);
-	if (ds & STA_NOINIT) return FR_NOT_READY;
-	if (ds & STA_PROTECT) return FR_WRITE_PROTECTED;
-	sz_blk = opt->align;
-	if (sz_blk == 0 && disk_ioctl(pdrv, GET_BLOCK_SIZE, &sz_blk) != RES_OK) sz_blk = 1;
- 	if (sz_blk == 0 || sz_blk > 0x8000 || (sz_blk & (sz_blk - 1))) sz_blk = 1;
-#if FF_MAX_SS != FF_MIN_SS
-	if (disk_ioctl(pdrv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;
-	if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
-#else
-	ss = FF_MAX_SS;
-#endif
-	/* Options for FAT sub-type and FAT parameters */
-	fsopt = opt->fmt & (FM_ANY | FM_SFD);
-	n_fat = (opt->n_fat >= 1 && opt->n_fat <= 2) ? opt->n_fat : 1;
-	n_root = (opt->n_root >= 1 && opt->n_root <= 32768 && (opt->n_root % (ss / SZDIRE)) == 0) ? opt->n_root : 512;
-	sz_au = (opt->au_size <= 0x1000000 && (opt->au_size & (opt->au_size - 1)) == 0) ? opt->au_size : 0;
-	sz_au /= ss;	/* Byte --> Sector */
-
-	/* Get working buffer */
-	sz_buf = len / ss;		/* Size of working buffer [sector] */
-	if (sz_buf == 0) return FR_NOT_ENOUGH_CORE;
-	buf = (BYTE*)work;		/* Working buffer */
-#if FF_USE_LFN == 3
-	if (!buf) buf = ff_memalloc(sz_buf * ss);	/* Use heap memory for working buffer */
-#endif
-	if (!buf) return FR_NOT_ENOUGH_CORE;
-
-	/* Determine where the volume to be located (b_vol, sz_vol) */
-	b_vol = sz_vol = 0;
-	if (FF_MULTI_PARTITION && ipart != 0) {	/* Is the volume associated with any specific partition? */
-		/* Get partition location from the existing partition table */
-		if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load MBR */
-		if (ld_word(buf + BS_55AA) != 0xAA55) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if MBR is valid */
-#if FF_LBA64
-		if (buf[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
-			DWORD n_ent, ofs;
-			QWORD pt_lba;
-
-			/* Get the partition location from GPT */
-			if (disk_read(pdrv, buf, 1, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load GPT header sector (next to MBR) */
-			if (!test_gpt_header(buf)) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if GPT header is valid */
-			n_ent = ld_dword(buf + GPTH_PtNum);		/* Number of entries */
-			pt_lba = ld_qword(buf + GPTH_PtOfs);	/* Table start sector */
-			ofs = i = 0;
-			while (n_ent) {		/* Find MS Basic partition with order of ipart */
-				if (ofs == 0 && disk_read(pdrv, buf, pt_lba++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Get PT sector */
-				if (!memcmp(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16) && ++i == ipart) {	/* MS basic data partition? */
-					b_vol = ld_qword(buf + ofs + GPTE_FstLba);
-					sz_vol = ld_qword(buf + ofs + GPTE_LstLba) - b_vol + 1;
-					break;
-				}
-				n_ent--; ofs = (ofs + SZ_GPTE) % ss;	/* Next entry */
-			}
-			if (n_ent == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Partition not found */
-			fsopt |= 0x80;	/* Partitioning is in GPT */
-		} else
-#endif
-		{	/* Get the partition location from MBR partition table */
-			pte = buf + (MBR_Table + (ipart - 1) * SZ_PTE);
-			if (ipart > 4 || pte[PTE_System] == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* No partition? */
-			b_vol = ld_dword(pte + PTE_StLba);		/* Get volume start sector */
-			sz_vol = ld_dword(pte + PTE_SizLba);	/* Get volume size */
-		}
-	} else {	/* The volume is associated with a physical drive */
-		if (disk_ioctl(pdrv, GET_SECTOR_COUNT, &sz_vol) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-		if (!(fsopt & FM_SFD)) {	/* To be partitioned? */
-			/* Create a single-partition on the drive in this function */
-#if FF_LBA64
-			if (sz_vol >= FF_MIN_GPT) {	/* Which partition type to create, MBR or GPT? */
-				fsopt |= 0x80;		/* Partitioning is in GPT */
-				b_vol = GPT_ALIGN / ss; sz_vol -= b_vol + GPT_ITEMS * SZ_GPTE / ss + 1;	/* Estimated partition offset and size */
-			} else
-#endif
-			{	/* Partitioning is in MBR */
-				if (sz_vol > N_SEC_TRACK) {
-					b_vol = N_SEC_TRACK; sz_vol -= b_vol;	/* Estimated partition offset and size */
-				}
-			}
-		}
-	}
-	if (sz_vol < 128) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if volume size is >=128s */
-
-	/* Now start to create an FAT volume at b_vol and sz_vol */
-
-	do {	/* Pre-determine the FAT type */
-		if (FF_FS_EXFAT && (fsopt & FM_EXFAT)) {	/* exFAT possible? */
-			if ((fsopt & FM_ANY) == FM_EXFAT || sz_vol >= 0x4000000 || sz_au > 128) {	/* exFAT only, vol >= 64MS or sz_au > 128S ? */
-				fsty = FS_EXFAT; break;
-			}
-		}
-#if FF_LBA64
-		if (sz_vol >= 0x100000000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too large volume for FAT/FAT32 */
-#endif
-		if (sz_au > 128) sz_au = 128;	/* Invalid AU for FAT/FAT32? */
-		if (fsopt & FM_FAT32) {	/* FAT32 possible? */
-			if (!(fsopt & FM_FAT)) {	/* no-FAT? */
-				fsty = FS_FAT32; break;
-			}
-		}
-		if (!(fsopt & FM_FAT)) LEAVE_MKFS(FR_INVALID_PARAMETER);	/* no-FAT? */
-		fsty = FS_FAT16;
-	} while (0);
-
-	vsn = (DWORD)sz_vol + GET_FATTIME();	/* VSN generated from current time and partitiion size */
-
-#if FF_FS_EXFAT
-	if (fsty == FS_EXFAT) {	/* Create an exFAT volume */
-		DWORD szb_bit, szb_case, sum, nbit, clu, clen[3];
-		WCHAR ch, si;
-		UINT j, st;
-
-		if (sz_vol < 0x1000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume for exFAT? */
-#if FF_USE_TRIM
-		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
-		disk_ioctl(pdrv, CTRL_TRIM, lba);
-#endif
-		/* Determine FAT location, data location and number of clusters */
-		if (sz_au == 0) {	/* AU auto-selection */
-			sz_au = 8;
-			if (sz_vol >= 0x80000) sz_au = 64;		/* >= 512Ks */
-			if (sz_vol >= 0x4000000) sz_au = 256;	/* >= 64Ms */
-		}
-		b_fat = b_vol + 32;										/* FAT start at offset 32 */
-		sz_fat = (DWORD)((sz_vol / sz_au + 2) * 4 + ss - 1) / ss;	/* Number of FAT sectors */
-		b_data = (b_fat + sz_fat + sz_blk - 1) & ~((LBA_t)sz_blk - 1);	/* Align data area to the erase block boundary */
-		if (b_data - b_vol >= sz_vol / 2) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
-		n_clst = (DWORD)(sz_vol - (b_data - b_vol)) / sz_au;	/* Number of clusters */
-		if (n_clst <16) LEAVE_MKFS(FR_MKFS_ABORTED);			/* Too few clusters? */
-		if (n_clst > MAX_EXFAT) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters? */
-
-		szb_bit = (n_clst + 7) / 8;								/* Size of allocation bitmap */
-		clen[0] = (szb_bit + sz_au * ss - 1) / (sz_au * ss);	/* Number of allocation bitmap clusters */
-
-		/* Create a compressed up-case table */
-		sect = b_data + sz_au * clen[0];	/* Table start sector */
-		sum = 0;							/* Table checksum to be stored in the 82 entry */
-		st = 0; si = 0; i = 0; j = 0; szb_case = 0;
-		do {
-			switch (st) {
-			case 0:
-				ch = (WCHAR)ff_wtoupper(si);	/* Get an up-case char */
-				if (ch != si) {
-					si++; break;		/* Store the up-case char if exist */
-				}
-				for (j = 1; (WCHAR)(si + j) && (WCHAR)(si + j) == ff_wtoupper((WCHAR)(si + j)); j++) ;	/* Get run length of no-case block */
-				if (j >= 128) {
-					ch = 0xFFFF; st = 2; break;	/* Compress the no-case block if run is >= 128 chars */
-				}
-				st = 1;			/* Do not compress short run */
-				/* FALLTHROUGH */
-			case 1:
-				ch = si++;		/* Fill the short run */
-				if (--j == 0) st = 0;
-				break;
-
-			default:
-				ch = (WCHAR)j; si += (WCHAR)j;	/* Number of chars to skip */
-				st = 0;
-			}
-			sum = xsum32(buf[i + 0] = (BYTE)ch, sum);	/* Put it into the write buffer */
-			sum = xsum32(buf[i + 1] = (BYTE)(ch >> 8), sum);
-			i += 2; szb_case += 2;
-			if (si == 0 || i == sz_buf * ss) {		/* Write buffered data when buffer full or end of process */
-				n = (i + ss - 1) / ss;
-				if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-				sect += n; i = 0;
-			}
-		} while (si);
-		clen[1] = (szb_case + sz_au * ss - 1) / (sz_au * ss);	/* Number of up-case table clusters */
-		clen[2] = 1;	/* Number of root dir clusters */
-
-		/* Initialize the allocation bitmap */
-		sect = b_data; nsect = (szb_bit + ss - 1) / ss;	/* Start of bitmap and number of bitmap sectors */
-		nbit = clen[0] + clen[1] + clen[2];				/* Number of clusters in-use by system (bitmap, up-case and root-dir) */
-		do {
-			memset(buf, 0, sz_buf * ss);				/* Initialize bitmap buffer */
-			for (i = 0; nbit != 0 && i / 8 < sz_buf * ss; buf[i / 8] |= 1 << (i % 8), i++, nbit--) ;	/* Mark used clusters */
-			n = (nsect > sz_buf) ? sz_buf : nsect;		/* Write the buffered data */
-			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			sect += n; nsect -= n;
-		} while (nsect);
-
-		/* Initialize the FAT */
-		sect = b_fat; nsect = sz_fat;	/* Start of FAT and number of FAT sectors */
-		j = nbit = clu = 0;
-		do {
-			memset(buf, 0, sz_buf * ss); i = 0;	/* Clear work area and reset write offset */
-			if (clu == 0) {	/* Initialize FAT [0] and FAT[1] */
-				st_dword(buf + i, 0xFFFFFFF8); i += 4; clu++;
-				st_dword(buf + i, 0xFFFFFFFF); i += 4; clu++;
-			}
-			do {			/* Create chains of bitmap, up-case and root dir */
-				while (nbit != 0 && i < sz_buf * ss) {	/* Create a chain */
-					st_dword(buf + i, (nbit > 1) ? clu + 1 : 0xFFFFFFFF);
-					i += 4; clu++; nbit--;
-				}
-				if (nbit == 0 && j < 3) nbit = clen[j++];	/* Get next chain length */
-			} while (nbit != 0 && i < sz_buf * ss);
-			n = (nsect > sz_buf) ? sz_buf : nsect;	/* Write the buffered data */
-			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			sect += n; nsect -= n;
-		} while (nsect);
-
-		/* Initialize the root directory */
-		memset(buf, 0, sz_buf * ss);
-		buf[SZDIRE * 0 + 0] = ET_VLABEL;				/* Volume label entry (no label) */
-		buf[SZDIRE * 1 + 0] = ET_BITMAP;				/* Bitmap entry */
-		st_dword(buf + SZDIRE * 1 + 20, 2);				/*  cluster */
-		st_dword(buf + SZDIRE * 1 + 24, szb_bit);		/*  size */
-		buf[SZDIRE * 2 + 0] = ET_UPCASE;				/* Up-case table entry */
-		st_dword(buf + SZDIRE * 2 + 4, sum);			/*  sum */
-		st_dword(buf + SZDIRE * 2 + 20, 2 + clen[0]);	/*  cluster */
-		st_dword(buf + SZDIRE * 2 + 24, szb_case);		/*  size */
-		sect = b_data + sz_au * (clen[0] + clen[1]); nsect = sz_au;	/* Start of the root directory and number of sectors */
-		do {	/* Fill root directory sectors */
-			n = (nsect > sz_buf) ? sz_buf : nsect;
-			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			memset(buf, 0, ss);	/* Rest of entries are filled with zero */
-			sect += n; nsect -= n;
-		} while (nsect);
-
-		/* Create two set of the exFAT VBR blocks */
-		sect = b_vol;
-		for (n = 0; n < 2; n++) {
-			/* Main record (+0) */
-			memset(buf, 0, ss);
-			memcpy(buf + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11);	/* Boot jump code (x86), OEM name */
-			st_qword(buf + BPB_VolOfsEx, b_vol);					/* Volume offset in the physical drive [sector] */
-			st_qword(buf + BPB_TotSecEx, sz_vol);					/* Volume size [sector] */
-			st_dword(buf + BPB_FatOfsEx, (DWORD)(b_fat - b_vol));	/* FAT offset [sector] */
-			st_dword(buf + BPB_FatSzEx, sz_fat);					/* FAT size [sector] */
-			st_dword(buf + BPB_DataOfsEx, (DWORD)(b_data - b_vol));	/* Data offset [sector] */
-			st_dword(buf + BPB_NumClusEx, n_clst);					/* Number of clusters */
-			st_dword(buf + BPB_RootClusEx, 2 + clen[0] + clen[1]);	/* Root dir cluster # */
-			st_dword(buf + BPB_VolIDEx, vsn);						/* VSN */
-			st_word(buf + BPB_FSVerEx, 0x100);						/* Filesystem version (1.00) */
-			for (buf[BPB_BytsPerSecEx] = 0, i = ss; i >>= 1; buf[BPB_BytsPerSecEx]++) ;	/* Log2 of sector size [byte] */
-			for (buf[BPB_SecPerClusEx] = 0, i = sz_au; i >>= 1; buf[BPB_SecPerClusEx]++) ;	/* Log2 of cluster size [sector] */
-			buf[BPB_NumFATsEx] = 1;					/* Number of FATs */
-			buf[BPB_DrvNumEx] = 0x80;				/* Drive number (for int13) */
-			st_word(buf + BS_BootCodeEx, 0xFEEB);	/* Boot code (x86) */
-			st_word(buf + BS_55AA, 0xAA55);			/* Signature (placed here regardless of sector size) */
-			for (i = sum = 0; i < ss; i++) {		/* VBR checksum */
-				if (i != BPB_VolFlagEx && i != BPB_VolFlagEx + 1 && i != BPB_PercInUseEx) sum = xsum32(buf[i], sum);
-			}
-			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			/* Extended bootstrap record (+1..+8) */
-			memset(buf, 0, ss);
-			st_word(buf + ss - 2, 0xAA55);	/* Signature (placed at end of sector) */
-			for (j = 1; j < 9; j++) {
-				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
-				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			}
-			/* OEM/Reserved record (+9..+10) */
-			memset(buf, 0, ss);
-			for ( ; j < 11; j++) {
-				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
-				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			}
-			/* Sum record (+11) */
-			for (i = 0; i < ss; i += 4) st_dword(buf + i, sum);		/* Fill with checksum value */
-			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-		}
-
-	} else
-#endif	/* FF_FS_EXFAT */
-	{	/* Create an FAT/FAT32 volume */
-		do {
-			pau = sz_au;
-			/* Pre-determine number of clusters and FAT sub-type */
-			if (fsty == FS_FAT32) {	/* FAT32 volume */
-				if (pau == 0) {	/* AU auto-selection */
-					n = (DWORD)sz_vol / 0x20000;	/* Volume size in unit of 128KS */
-					for (i = 0, pau = 1; cst32[i] && cst32[i] <= n; i++, pau <<= 1) ;	/* Get from table */
-				}
-				n_clst = (DWORD)sz_vol / pau;	/* Number of clusters */
-				sz_fat = (n_clst * 4 + 8 + ss - 1) / ss;	/* FAT size [sector] */
-				sz_rsv = 32;	/* Number of reserved sectors */
-				sz_dir = 0;		/* No static directory */
-				if (n_clst <= MAX_FAT16 || n_clst > MAX_FAT32) LEAVE_MKFS(FR_MKFS_ABORTED);
-			} else {				/* FAT volume */
-				if (pau == 0) {	/* au auto-selection */
-					n = (DWORD)sz_vol / 0x1000;	/* Volume size in unit of 4KS */
-					for (i = 0, pau = 1; cst[i] && cst[i] <= n; i++, pau <<= 1) ;	/* Get from table */
-				}
-				n_clst = (DWORD)sz_vol / pau;
-				if (n_clst > MAX_FAT12) {
-					n = n_clst * 2 + 4;		/* FAT size [byte] */
-				} else {
-					fsty = FS_FAT12;
-					n = (n_clst * 3 + 1) / 2 + 3;	/* FAT size [byte] */
-				}
-				sz_fat = (n + ss - 1) / ss;		/* FAT size [sector] */
-				sz_rsv = 1;						/* Number of reserved sectors */
-				sz_dir = (DWORD)n_root * SZDIRE / ss;	/* Root dir size [sector] */
-			}
-			b_fat = b_vol + sz_rsv;						/* FAT base */
-			b_data = b_fat + sz_fat * n_fat + sz_dir;	/* Data base */
-
-			/* Align data area to erase block boundary (for flash memory media) */
-			n = (DWORD)(((b_data + sz_blk - 1) & ~(sz_blk - 1)) - b_data);	/* Sectors to next nearest from current data base */
-			if (fsty == FS_FAT32) {		/* FAT32: Move FAT */
-				sz_rsv += n; b_fat += n;
-			} else {					/* FAT: Expand FAT */
-				if (n % n_fat) {	/* Adjust fractional error if needed */
-					n--; sz_rsv++; b_fat++;
-				}
-				sz_fat += n / n_fat;
-			}
-
-			/* Determine number of clusters and final check of validity of the FAT sub-type */
-			if (sz_vol < b_data + pau * 16 - b_vol) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
-			n_clst = ((DWORD)sz_vol - sz_rsv - sz_fat * n_fat - sz_dir) / pau;
-			if (fsty == FS_FAT32) {
-				if (n_clst <= MAX_FAT16) {	/* Too few clusters for FAT32? */
-					if (sz_au == 0 && (sz_au = pau / 2) != 0) continue;	/* Adjust cluster size and retry */
-					LEAVE_MKFS(FR_MKFS_ABORTED);
-				}
-			}
-			if (fsty == FS_FAT16) {
-				if (n_clst > MAX_FAT16) {	/* Too many clusters for FAT16 */
-					if (sz_au == 0 && (pau * 2) <= 64) {
-						sz_au = pau * 2; continue;	/* Adjust cluster size and retry */
-					}
-					if ((fsopt & FM_FAT32)) {
-						fsty = FS_FAT32; continue;	/* Switch type to FAT32 and retry */
-					}
-					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
-					LEAVE_MKFS(FR_MKFS_ABORTED);
-				}
-				if  (n_clst <= MAX_FAT12) {	/* Too few clusters for FAT16 */
-					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
-					LEAVE_MKFS(FR_MKFS_ABORTED);
-				}
-			}
-			if (fsty == FS_FAT12 && n_clst > MAX_FAT12) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters for FAT12 */
-
-			/* Ok, it is the valid cluster configuration */
-			break;
-		} while (1);
-
-#if FF_USE_TRIM
-		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
-		disk_ioctl(pdrv, CTRL_TRIM, lba);
-#endif
-		/* Create FAT VBR */
-		memset(buf, 0, ss);
-		memcpy(buf + BS_JmpBoot, "\xEB\xFE\x90" "MSDOS5.0", 11);	/* Boot jump code (x86), OEM name */
-		st_word(buf + BPB_BytsPerSec, ss);				/* Sector size [byte] */
-		buf[BPB_SecPerClus] = (BYTE)pau;				/* Cluster size [sector] */
-		st_word(buf + BPB_RsvdSecCnt, (WORD)sz_rsv);	/* Size of reserved area */
-		buf[BPB_NumFATs] = (BYTE)n_fat;					/* Number of FATs */
-		st_word(buf + BPB_RootEntCnt, (WORD)((fsty == FS_FAT32) ? 0 : n_root));	/* Number of root directory entries */
-		if (sz_vol < 0x10000) {
-			st_word(buf + BPB_TotSec16, (WORD)sz_vol);	/* Volume size in 16-bit LBA */
-		} else {
-			st_dword(buf + BPB_TotSec32, (DWORD)sz_vol);	/* Volume size in 32-bit LBA */
-		}
-		buf[BPB_Media] = 0xF8;							/* Media descriptor byte */
-		st_word(buf + BPB_SecPerTrk, 63);				/* Number of sectors per track (for int13) */
-		st_word(buf + BPB_NumHeads, 255);				/* Number of heads (for int13) */
-		st_dword(buf + BPB_HiddSec, (DWORD)b_vol);		/* Volume offset in the physical drive [sector] */
-		if (fsty == FS_FAT32) {
-			st_dword(buf + BS_VolID32, vsn);			/* VSN */
-			st_dword(buf + BPB_FATSz32, sz_fat);		/* FAT size [sector] */
-			st_dword(buf + BPB_RootClus32, 2);			/* Root directory cluster # (2) */
-			st_word(buf + BPB_FSInfo32, 1);				/* Offset of FSINFO sector (VBR + 1) */
-			st_word(buf + BPB_BkBootSec32, 6);			/* Offset of backup VBR (VBR + 6) */
-			buf[BS_DrvNum32] = 0x80;					/* Drive number (for int13) */
-			buf[BS_BootSig32] = 0x29;					/* Extended boot signature */
-			memcpy(buf + BS_VolLab32, "NO NAME    " "FAT32   ", 19);	/* Volume label, FAT signature */
-		} else {
-			st_dword(buf + BS_VolID, vsn);				/* VSN */
-			st_word(buf + BPB_FATSz16, (WORD)sz_fat);	/* FAT size [sector] */
-			buf[BS_DrvNum] = 0x80;						/* Drive number (for int13) */
-			buf[BS_BootSig] = 0x29;						/* Extended boot signature */
-			memcpy(buf + BS_VolLab, "NO NAME    " "FAT     ", 19);	/* Volume label, FAT signature */
-		}
-		st_word(buf + BS_55AA, 0xAA55);					/* Signature (offset is fixed here regardless of sector size) */
-		if (disk_write(pdrv, buf, b_vol, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it to the VBR sector */
-
-		/* Create FSINFO record if needed */
-		if (fsty == FS_FAT32) {
-			disk_write(pdrv, buf, b_vol + 6, 1);		/* Write backup VBR (VBR + 6) */
-			memset(buf, 0, ss);
-			st_dword(buf + FSI_LeadSig, 0x41615252);
-			st_dword(buf + FSI_StrucSig, 0x61417272);
-			st_dword(buf + FSI_Free_Count, n_clst - 1);	/* Number of free clusters */
-			st_dword(buf + FSI_Nxt_Free, 2);			/* Last allocated cluster# */
-			st_word(buf + BS_55AA, 0xAA55);
-			disk_write(pdrv, buf, b_vol + 7, 1);		/* Write backup FSINFO (VBR + 7) */
-			disk_write(pdrv, buf, b_vol + 1, 1);		/* Write original FSINFO (VBR + 1) */
-		}
-
-		/* Initialize FAT area */
-		memset(buf, 0, sz_buf * ss);
-		sect = b_fat;		/* FAT start sector */
-		for (i = 0; i < n_fat; i++) {			/* Initialize FATs each */
-			if (fsty == FS_FAT32) {
-				st_dword(buf + 0, 0xFFFFFFF8);	/* FAT[0] */
-				st_dword(buf + 4, 0xFFFFFFFF);	/* FAT[1] */
-				st_dword(buf + 8, 0x0FFFFFFF);	/* FAT[2] (root directory) */
-			} else {
-				st_dword(buf + 0, (fsty == FS_FAT12) ? 0xFFFFF8 : 0xFFFFFFF8);	/* FAT[0] and FAT[1] */
-			}
-			nsect = sz_fat;		/* Number of FAT sectors */
-			do {	/* Fill FAT sectors */
-				n = (nsect > sz_buf) ? sz_buf : nsect;
-				if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-				memset(buf, 0, ss);	/* Rest of FAT all are cleared */
-				sect += n; nsect -= n;
-			} while (nsect);
-		}
-
-		/* Initialize root directory (fill with zero) */
-		nsect = (fsty == FS_FAT32) ? pau : sz_dir;	/* Number of root directory sectors */
-		do {
-			n = (nsect > sz_buf) ? sz_buf : nsect;
-			if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-			sect += n; nsect -= n;
-		} while (nsect);
-	}
-
-	/* A FAT volume has been created here */
-
-	/* Determine system ID in the MBR partition table */
-	if (FF_FS_EXFAT && fsty == FS_EXFAT) {
-		sys = 0x07;			/* exFAT */
-	} else {
-		if (fsty == FS_FAT32) {
-			sys = 0x0C;		/* FAT32X */
-		} else {
-			if (sz_vol >= 0x10000) {
-				sys = 0x06;	/* FAT12/16 (large) */
-			} else {
-				sys = (fsty == FS_FAT16) ? 0x04 : 0x01;	/* FAT16 : FAT12 */
-			}
-		}
-	}
-
-	/* Update partition information */
-	if (FF_MULTI_PARTITION && ipart != 0) {	/* Volume is in the existing partition */
-		if (!FF_LBA64 || !(fsopt & 0x80)) {
-			/* Update system ID in the partition table */
-			if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Read the MBR */
-			buf[MBR_Table + (ipart - 1) * SZ_PTE + PTE_System] = sys;			/* Set system ID */
-			if (disk_write(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it back to the MBR */
-		}
-	} else {								/* Volume as a new single partition */
-		if (!(fsopt & FM_SFD)) {			/* Create partition table if not in SFD */
-			lba[0] = sz_vol; lba[1] = 0;
-			fr = create_partition(pdrv, lba, sys, buf);
-			if (fr != FR_OK) LEAVE_MKFS(fr);
-		}
-	}
-
-	if (disk_ioctl(pdrv, CTRL_SYNC, 0) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
-
-	LEAVE_MKFS(FR_OK);
-}
-
-
-
-
-#if FF_MULTI_PARTITION
-/*-----------------------------------------------------------------------*/
-/* Create Partition Table on the Physical Drive                          */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_fdisk (
-	BYTE pdrv,			/* Physical drive number */
-	const LBA_t ptbl[],	/* Pointer to the size table for each partitions */
-	void* work			/* Pointer to the working buffer (null: use heap memory) */
-)
-{
-	BYTE *buf = (BYTE*)work;
-	DSTATUS stat;
-
-
-	stat = disk_initialize(pdrv);
-	if (stat & STA_NOINIT) return FR_NOT_READY;
-	if (stat & STA_PROTECT) return FR_WRITE_PROTECTED;
-#if FF_USE_LFN == 3
-	if (!buf) buf = ff_memalloc(FF_MAX_SS);	/* Use heap memory for working buffer */
-#endif
-	if (!buf) return FR_NOT_ENOUGH_CORE;
-
-	LEAVE_MKFS(create_partition(pdrv, ptbl, 0x07, buf));
-}
-
-#endif /* FF_MULTI_PARTITION */
-#endif /* !FF_FS_READONLY && FF_USE_MKFS */
-
-
-
-
-#if FF_USE_STRFUNC
-#if FF_USE_LFN && FF_LFN_UNICODE && (FF_STRF_ENCODE < 0 || FF_STRF_ENCODE > 3)
-#error Wrong FF_STRF_ENCODE setting
-#endif
-/*-----------------------------------------------------------------------*/
-/* Get a String from the File                                            */
-/*-----------------------------------------------------------------------*/
-
-TCHAR* f_gets (
-	TCHAR* buff,	/* Pointer to the buffer to store read string */
-	int len,		/* Size of string buffer (items) */
-	FIL* fp			/* Pointer to the file object */
-)
-{
-	int nc = 0;
-	TCHAR *p = buff;
-	BYTE s[4];
-	UINT rc;
-	DWORD dc;
-#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE <= 2
-	WCHAR wc;
-#endif
-#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE == 3
-	UINT ct;
-#endif
-
-#if FF_USE_LFN && FF_LFN_UNICODE			/* With code conversion (Unicode API) */
-	/* Make a room for the character and terminator  */
-	if (FF_LFN_UNICODE == 1) len -= (FF_STRF_ENCODE == 0) ? 1 : 2;
-	if (FF_LFN_UNICODE == 2) len -= (FF_STRF_ENCODE == 0) ? 3 : 4;
-	if (FF_LFN_UNICODE == 3) len -= 1;
-	while (nc < len) {
-#if FF_STRF_ENCODE == 0				/* Read a character in ANSI/OEM */
-		f_read(fp, s, 1, &rc);		/* Get a code unit */
-		if (rc != 1) break;			/* EOF? */
-		wc = s[0];
-		if (dbc_1st((BYTE)wc)) {	/* DBC 1st byte? */
-			f_read(fp, s, 1, &rc);	/* Get 2nd byte */
-			if (rc != 1 || !dbc_2nd(s[0])) continue;	/* Wrong code? */
-			wc = wc << 8 | s[0];
-		}
-		dc = ff_oem2uni(wc, CODEPAGE);	/* Convert ANSI/OEM into Unicode */
-		if (dc == 0) continue;		/* Conversion error? */
-#elif FF_STRF_ENCODE == 1 || FF_STRF_ENCODE == 2 	/* Read a character in UTF-16LE/BE */
-		f_read(fp, s, 2, &rc);		/* Get a code unit */
-		if (rc != 2) break;			/* EOF? */
-		dc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
-		if (IsSurrogateL(dc)) continue;	/* Broken surrogate pair? */
-		if (IsSurrogateH(dc)) {		/* High surrogate? */
-			f_read(fp, s, 2, &rc);	/* Get low surrogate */
-			if (rc != 2) break;		/* EOF? */
-			wc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
-			if (!IsSurrogateL(wc)) continue;	/* Broken surrogate pair? */
-			dc = ((dc & 0x3FF) + 0x40) << 10 | (wc & 0x3FF);	/* Merge surrogate pair */
-		}
-#else	/* Read a character in UTF-8 */
-		f_read(fp, s, 1, &rc);		/* Get a code unit */
-		if (rc != 1) break;			/* EOF? */
-		dc = s[0];
-		if (dc >= 0x80) {			/* Multi-byte sequence? */
-			ct = 0;
-			if ((dc & 0xE0) == 0xC0) { dc &= 0x1F; ct = 1; }	/* 2-byte sequence? */
-			if ((dc & 0xF0) == 0xE0) { dc &= 0x0F; ct = 2; }	/* 3-byte sequence? */
-			if ((dc & 0xF8) == 0xF0) { dc &= 0x07; ct = 3; }	/* 4-byte sequence? */
-			if (ct == 0) continue;
-			f_read(fp, s, ct, &rc);	/* Get trailing bytes */
-			if (rc != ct) break;
-			rc = 0;
-			do {	/* Merge the byte sequence */
-				if ((s[rc] & 0xC0) != 0x80) break;
-				dc = dc << 6 | (s[rc] & 0x3F);
-			} while (++rc < ct);
-			if (rc != ct || dc < 0x80 || IsSurrogate(dc) || dc >= 0x110000) continue;	/* Wrong encoding? */
-		}
-#endif
-		/* A code point is avaialble in dc to be output */
-
-		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;	/* Strip \r off if needed */
-#if FF_LFN_UNICODE == 1	|| FF_LFN_UNICODE == 3	/* Output it in UTF-16/32 encoding */
-		if (FF_LFN_UNICODE == 1 && dc >= 0x10000) {	/* Out of BMP at UTF-16? */
-			*p++ = (TCHAR)(0xD800 | ((dc >> 10) - 0x40)); nc++;	/* Make and output high surrogate */
-			dc = 0xDC00 | (dc & 0x3FF);		/* Make low surrogate */
-		}
-		*p++ = (TCHAR)dc; nc++;
-		if (dc == '\n') break;	/* End of line? */
-#elif FF_LFN_UNICODE == 2		/* Output it in UTF-8 encoding */
-		if (dc < 0x80) {	/* Single byte? */
-			*p++ = (TCHAR)dc;
-			nc++;
-			if (dc == '\n') break;	/* End of line? */
-		} else {
-			if (dc < 0x800) {		/* 2-byte sequence? */
-				*p++ = (TCHAR)(0xC0 | (dc >> 6 & 0x1F));
-				*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
-				nc += 2;
-			} else {
-				if (dc < 0x10000) {	/* 3-byte sequence? */
-					*p++ = (TCHAR)(0xE0 | (dc >> 12 & 0x0F));
-					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
-					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
-					nc += 3;
-				} else {			/* 4-byte sequence? */
-					*p++ = (TCHAR)(0xF0 | (dc >> 18 & 0x07));
-					*p++ = (TCHAR)(0x80 | (dc >> 12 & 0x3F));
-					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
-					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
-					nc += 4;
-				}
-			}
-		}
-#endif
-	}
-
-#else			/* Byte-by-byte read without any conversion (ANSI/OEM API) */
-	len -= 1;	/* Make a room for the terminator */
-	while (nc < len) {
-		f_read(fp, s, 1, &rc);	/* Get a byte */
-		if (rc != 1) break;		/* EOF? */
-		dc = s[0];
-		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;
-		*p++ = (TCHAR)dc; nc++;
-		if (dc == '\n') break;
-	}
-#endif
-
-	*p = 0;		/* Terminate the string */
-	return nc ? buff : 0;	/* When no data read due to EOF or error, return with error. */
-}
-
-
-
-
-#if !FF_FS_READONLY
-#include <stdarg.h>
-#define SZ_PUTC_BUF	64
-#define SZ_NUM_BUF	32
-
-/*-----------------------------------------------------------------------*/
-/* Put a Character to the File (with sub-functions)                      */
-/*-----------------------------------------------------------------------*/
-
-/* Output buffer and work area */
-
-typedef struct {
-	FIL *fp;		/* Ptr to the writing file */
-	int idx, nchr;	/* Write index of buf[] (-1:error), number of encoding units written */
-#if FF_USE_LFN && FF_LFN_UNICODE == 1
-	WCHAR hs;
-#elif FF_USE_LFN && FF_LFN_UNICODE == 2
-	BYTE bs[4];
-	UINT wi, ct;
-#endif
-	BYTE buf[SZ_PUTC_BUF];	/* Write buffer */
-} putbuff;
-
-
-/* Buffered file write with code conversion */
-
-static void putc_bfd (putbuff* pb, TCHAR c)
-{
-	UINT n;
-	int i, nc;
-#if FF_USE_LFN && FF_LFN_UNICODE
-	WCHAR hs, wc;
-#if FF_LFN_UNICODE == 2
-	DWORD dc;
-	const TCHAR *tp;
-#endif
-#endif
-
-	if (FF_USE_STRFUNC == 2 && c == '\n') {	 /* LF -> CRLF conversion */
-		putc_bfd(pb, '\r');
-	}
-
-	i = pb->idx;			/* Write index of pb->buf[] */
-	if (i < 0) return;		/* In write error? */
-	nc = pb->nchr;			/* Write unit counter */
-
-#if FF_USE_LFN && FF_LFN_UNICODE
-#if FF_LFN_UNICODE == 1		/* UTF-16 input */
-	if (IsSurrogateH(c)) {	/* High surrogate? */
-		pb->hs = c; return;	/* Save it for next */
-	}
-	hs = pb->hs; pb->hs = 0;
-	if (hs != 0) {			/* There is a leading high surrogate */
-		if (!IsSurrogateL(c)) hs = 0;	/* Discard high surrogate if not a surrogate pair */
-	} else {
-		if (IsSurrogateL(c)) return;	/* Discard stray low surrogate */
-	}
-	wc = c;
-#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
-	for (;;) {
-		if (pb->ct == 0) {	/* Out of multi-byte sequence? */
-			pb->bs[pb->wi = 0] = (BYTE)c;	/* Save 1st byte */
-			if ((BYTE)c < 0x80) break;					/* Single byte? */
-			if (((BYTE)c & 0xE0) == 0xC0) pb->ct = 1;	/* 2-byte sequence? */
-			if (((BYTE)c & 0xF0) == 0xE0) pb->ct = 2;	/* 3-byte sequence? */
-			if (((BYTE)c & 0xF1) == 0xF0) pb->ct = 3;	/* 4-byte sequence? */
-			return;
-		} else {				/* In the multi-byte sequence */
-			if (((BYTE)c & 0xC0) != 0x80) {	/* Broken sequence? */
-				pb->ct = 0; continue;
-			}
-			pb->bs[++pb->wi] = (BYTE)c;	/* Save the trailing byte */
-			if (--pb->ct == 0) break;	/* End of multi-byte sequence? */
-			return;
-		}
-	}
-	tp = (const TCHAR*)pb->bs;
-	dc = tchar2uni(&tp);	/* UTF-8 ==> UTF-16 */
-	if (dc == 0xFFFFFFFF) return;	/* Wrong code? */
-	wc = (WCHAR)dc;
-	hs = (WCHAR)(dc >> 16);
-#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
-	if (IsSurrogate(c) || c >= 0x110000) return;	/* Discard invalid code */
-	if (c >= 0x10000) {		/* Out of BMP? */
-		hs = (WCHAR)(0xD800 | ((c >> 10) - 0x40)); 	/* Make high surrogate */
-		wc = 0xDC00 | (c & 0x3FF);					/* Make low surrogate */
-	} else {
-		hs = 0;
-		wc = (WCHAR)c;
-	}
-#endif
-	/* A code point in UTF-16 is available in hs and wc */
-
-#if FF_STRF_ENCODE == 1		/* Write a code point in UTF-16LE */
-	if (hs != 0) {	/* Surrogate pair? */
-		st_word(&pb->buf[i], hs);
-		i += 2;
-		nc++;
-	}
-	st_word(&pb->buf[i], wc);
-	i += 2;
-#elif FF_STRF_ENCODE == 2	/* Write a code point in UTF-16BE */
-	if (hs != 0) {	/* Surrogate pair? */
-		pb->buf[i++] = (BYTE)(hs >> 8);
-		pb->buf[i++] = (BYTE)hs;
-		nc++;
-	}
-	pb->buf[i++] = (BYTE)(wc >> 8);
-	pb->buf[i++] = (BYTE)wc;
-#elif FF_STRF_ENCODE == 3	/* Write a code point in UTF-8 */
-	if (hs != 0) {	/* 4-byte sequence? */
-		nc += 3;
-		hs = (hs & 0x3FF) + 0x40;
-		pb->buf[i++] = (BYTE)(0xF0 | hs >> 8);
-		pb->buf[i++] = (BYTE)(0x80 | (hs >> 2 & 0x3F));
-		pb->buf[i++] = (BYTE)(0x80 | (hs & 3) << 4 | (wc >> 6 & 0x0F));
-		pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
-	} else {
-		if (wc < 0x80) {	/* Single byte? */
-			pb->buf[i++] = (BYTE)wc;
-		} else {
-			if (wc < 0x800) {	/* 2-byte sequence? */
-				nc += 1;
-				pb->buf[i++] = (BYTE)(0xC0 | wc >> 6);
-			} else {			/* 3-byte sequence */
-				nc += 2;
-				pb->buf[i++] = (BYTE)(0xE0 | wc >> 12);
-				pb->buf[i++] = (BYTE)(0x80 | (wc >> 6 & 0x3F));
-			}
-			pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
-		}
-	}
-#else						/* Write a code point in ANSI/OEM */
-	if (hs != 0) return;
-	wc = ff_uni2oem(wc, CODEPAGE);	/* UTF-16 ==> ANSI/OEM */
-	if (wc == 0) return;
-	if (wc >= 0x100) {
-		pb->buf[i++] = (BYTE)(wc >> 8); nc++;
-	}
-	pb->buf[i++] = (BYTE)wc;
-#endif
-
-#else							/* ANSI/OEM input (without re-encoding) */
-	pb->buf[i++] = (BYTE)c;
-#endif
-
-	if (i >= (int)(sizeof pb->buf) - 4) {	/* Write buffered characters to the file */
-		f_write(pb->fp, pb->buf, (UINT)i, &n);
-		i = (n == (UINT)i) ? 0 : -1;
-	}
-	pb->idx = i;
-	pb->nchr = nc + 1;
-}
-
-
-/* Flush remaining characters in the buffer */
-
-static int putc_flush (putbuff* pb)
-{
-	UINT nw;
-
-	if (   pb->idx >= 0	/* Flush buffered characters to the file */
-		&& f_write(pb->fp, pb->buf, (UINT)pb->idx, &nw) == FR_OK
-		&& (UINT)pb->idx == nw) return pb->nchr;
-	return -1;
-}
-
-
-/* Initialize write buffer */
-
-static void putc_init (putbuff* pb, FIL* fp)
-{
-	memset(pb, 0, sizeof (putbuff));
-	pb->fp = fp;
-}
-
-
-
-int f_putc (
-	TCHAR c,	/* A character to be output */
-	FIL* fp		/* Pointer to the file object */
-)
-{
-	putbuff pb;
-
-
-	putc_init(&pb, fp);
-	putc_bfd(&pb, c);	/* Put the character */
-	return putc_flush(&pb);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Put a String to the File                                              */
-/*-----------------------------------------------------------------------*/
-
-int f_puts (
-	const TCHAR* str,	/* Pointer to the string to be output */
-	FIL* fp				/* Pointer to the file object */
-)
-{
-	putbuff pb;
-
-
-	putc_init(&pb, fp);
-	while (*str) putc_bfd(&pb, *str++);		/* Put the string */
-	return putc_flush(&pb);
-}
-
-
-
-
-/*-----------------------------------------------------------------------*/
-/* Put a Formatted String to the File (with sub-functions)               */
-/*-----------------------------------------------------------------------*/
-#if FF_PRINT_FLOAT && FF_INTDEF == 2
-#include <math.h>
-
-static int ilog10 (double n)	/* Calculate log10(n) in integer output */
-{
-	int rv = 0;
-
-	while (n >= 10) {	/* Decimate digit in right shift */
-		if (n >= 100000) {
-			n /= 100000; rv += 5;
-		} else {
-			n /= 10; rv++;
-		}
-	}
-	while (n < 1) {		/* Decimate digit in left shift */
-		if (n < 0.00001) {
-			n *= 100000; rv -= 5;
-		} else {
-			n *= 10; rv--;
-		}
-	}
-	return rv;
-}
-
-
-static double i10x (int n)	/* Calculate 10^n in integer input */
-{
-	double rv = 1;
-
-	while (n > 0) {		/* Left shift */
-		if (n >= 5) {
-			rv *= 100000; n -= 5;
-		} else {
-			rv *= 10; n--;
-		}
-	}
-	while (n < 0) {		/* Right shift */
-		if (n <= -5) {
-			rv /= 100000; n += 5;
-		} else {
-			rv /= 10; n++;
-		}
-	}
-	return rv;
-}
-
-
-static void ftoa (
-	char* buf,	/* Buffer to output the floating point string */
-	double val,	/* Value to output */
-	int prec,	/* Number of fractional digits */
-	TCHAR fmt	/* Notation */
-)
-{
-	int d;
-	int e = 0, m = 0;
-	char sign = 0;
-	double w;
-	const char *er = 0;
-	const char ds = FF_PRINT_FLOAT == 2 ? ',' : '.';
-
-
-	if (isnan(val)) {			/* Not a number? */
-		er = "NaN";
-	} else {
-		if (prec < 0) prec = 6;	/* Default precision? (6 fractional digits) */
-		if (val < 0) {			/* Nagative? */
-			val = 0 - val; sign = '-';
-		} else {
-			sign = '+';
-		}
-		if (isinf(val)) {		/* Infinite? */
-			er = "INF";
-		} else {
-			if (fmt == 'f') {	/* Decimal notation? */
-				val += i10x(0 - prec) / 2;	/* Round (nearest) */
-				m = ilog10(val);
-				if (m < 0) m = 0;
-				if (m + prec + 3 >= SZ_NUM_BUF) er = "OV";	/* Buffer overflow? */
-			} else {			/* E notation */
-				if (val != 0) {		/* Not a true zero? */
-					val += i10x(ilog10(val) - prec) / 2;	/* Round (nearest) */
-					e = ilog10(val);
-					if (e > 99 || prec + 7 >= SZ_NUM_BUF) {	/* Buffer overflow or E > +99? */
-						er = "OV";
-					} else {
-						if (e < -99) e = -99;
-						val /= i10x(e);	/* Normalize */
-					}
-				}
-			}
-		}
-		if (!er) {	/* Not error condition */
-			if (sign == '-') *buf++ = sign;	/* Add a - if negative value */
-			do {				/* Put decimal number */
-				if (m == -1) *buf++ = ds;	/* Insert a decimal separator when get into fractional part */
-				w = i10x(m);				/* Snip the highest digit d */
-				d = (int)(val / w); val -= d * w;
-				*buf++ = (char)('0' + d);	/* Put the digit */
-			} while (--m >= -prec);			/* Output all digits specified by prec */
-			if (fmt != 'f') {	/* Put exponent if needed */
-				*buf++ = (char)fmt;
-				if (e < 0) {
-					e = 0 - e; *buf++ = '-';
-				} else {
-					*buf++ = '+';
-				}
-				*buf++ = (char)('0' + e / 10);
-				*buf++ = (char)('0' + e % 10);
-			}
-		}
-	}
-	if (er) {	/* Error condition */
-		if (sign) *buf++ = sign;		/* Add sign if needed */
-		do *buf++ = *er++; while (*er);	/* Put error symbol */
-	}
-	*buf = 0;	/* Term */
-}
-#endif	/* FF_PRINT_FLOAT && FF_INTDEF == 2 */
-
-
-
-int f_printf (
-	FIL* fp,			/* Pointer to the file object */
-	const TCHAR* fmt,	/* Pointer to the format string */
-	...					/* Optional arguments... */
-)
-{
-	va_list arp;
-	putbuff pb;
-	UINT i, j, w, f, r;
-	int prec;
-#if FF_PRINT_LLI && FF_INTDEF == 2
-	QWORD v;
-#else
-	DWORD v;
-#endif
-	TCHAR tc, pad, *tp;
-	TCHAR nul = 0;
-	char d, str[SZ_NUM_BUF];
-
-
-	putc_init(&pb, fp);
-
-	va_start(arp, fmt);
-
-	for (;;) {
-		tc = *fmt++;
-		if (tc == 0) break;			/* End of format string */
-		if (tc != '%') {			/* Not an escape character (pass-through) */
-			putc_bfd(&pb, tc);
-			continue;
-		}
-		f = w = 0; pad = ' '; prec = -1;	/* Initialize parms */
-		tc = *fmt++;
-		if (tc == '0') {			/* Flag: '0' padded */
-			pad = '0'; tc = *fmt++;
-		} else if (tc == '-') {		/* Flag: Left aligned */
-			f = 2; tc = *fmt++;
-		}
-		if (tc == '*') {			/* Minimum width from an argument */
-			w = va_arg(arp, int);
-			tc = *fmt++;
-		} else {
-			while (IsDigit(tc)) {	/* Minimum width */
-				w = w * 10 + tc - '0';
-				tc = *fmt++;
-			}
-		}
-		if (tc == '.') {			/* Precision */
-			tc = *fmt++;
-			if (tc == '*') {		/* Precision from an argument */
-				prec = va_arg(arp, int);
-				tc = *fmt++;
-			} else {
-				prec = 0;
-				while (IsDigit(tc)) {	/* Precision */
-					prec = prec * 10 + tc - '0';
-					tc = *fmt++;
-				}
-			}
-		}
-		if (tc == 'l') {			/* Size: long int */
-			f |= 4; tc = *fmt++;
-#if FF_PRINT_LLI && FF_INTDEF == 2
-			if (tc == 'l') {		/* Size: long long int */
-				f |= 8; tc = *fmt++;
-			}
-#endif
-		}
-		if (tc == 0) break;			/* End of format string */
-		switch (tc) {				/* Atgument type is... */
-		case 'b':					/* Unsigned binary */
-			r = 2; break;
-		case 'o':					/* Unsigned octal */
-			r = 8; break;
-		case 'd':					/* Signed decimal */
-		case 'u':					/* Unsigned decimal */
-			r = 10; break;
-		case 'x':					/* Unsigned hexdecimal (lower case) */
-		case 'X':					/* Unsigned hexdecimal (upper case) */
-			r = 16; break;
-		case 'c':					/* Character */
-			putc_bfd(&pb, (TCHAR)va_arg(arp, int));
-			continue;
-		case 's':					/* String */
-			tp = va_arg(arp, TCHAR*);	/* Get a pointer argument */
-			if (!tp) tp = &nul;		/* Null ptr generates a null string */
-			for (j = 0; tp[j]; j++) ;	/* j = tcslen(tp) */
-			if (prec >= 0 && j > (UINT)prec) j = prec;	/* Limited length of string body */
-			for ( ; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
-			while (*tp && prec--) putc_bfd(&pb, *tp++);	/* Body */
-			while (j++ < w) putc_bfd(&pb, ' ');			/* Right pads */
-			continue;
-#if FF_PRINT_FLOAT && FF_INTDEF == 2
-		case 'f':					/* Floating point (decimal) */
-		case 'e':					/* Floating point (e) */
-		case 'E':					/* Floating point (E) */
-			ftoa(str, va_arg(arp, double), prec, tc);	/* Make a flaoting point string */
-			for (j = strlen(str); !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
-			for (i = 0; str[i]; putc_bfd(&pb, str[i++])) ;	/* Body */
-			while (j++ < w) putc_bfd(&pb, ' ');	/* Right pads */
-			continue;
-#endif
-		default:					/* Unknown type (pass-through) */
-			putc_bfd(&pb, tc); continue;
-		}
-
-		/* Get an integer argument and put it in numeral */
-#if FF_PRINT_LLI && FF_INTDEF == 2
-		if (f & 8) {	/* long long argument? */
-			v = (QWORD)va_arg(arp, LONGLONG);
-		} else {
-			if (f & 4) {	/* long argument? */
-				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, long) : (QWORD)va_arg(arp, unsigned long);
-			} else {		/* int/short/char argument */
-				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, int) : (QWORD)va_arg(arp, unsigned int);
-			}
-		}
-		if (tc == 'd' && (v & 0x8000000000000000)) {	/* Negative value? */
-			v = 0 - v; f |= 1;
-		}
-#else
-		if (f & 4) {	/* long argument? */
-			v = (DWORD)va_arg(arp, long);
-		} else {		/* int/short/char argument */
-			v = (tc == 'd') ? (DWORD)(long)va_arg(arp, int) : (DWORD)va_arg(arp, unsigned int);
-		}
-		if (tc == 'd' && (v & 0x80000000)) {	/* Negative value? */
-			v = 0 - v; f |= 1;
-		}
-#endif
-		i = 0;
-		do {	/* Make an integer number string */
-			d = (char)(v % r); v /= r;
-			if (d > 9) d += (tc == 'x') ? 0x27 : 0x07;
-			str[i++] = d + '0';
-		} while (v && i < SZ_NUM_BUF);
-		if (f & 1) str[i++] = '-';	/* Sign */
-		/* Write it */
-		for (j = i; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
-		do putc_bfd(&pb, (TCHAR)str[--i]); while (i);	/* Body */
-		while (j++ < w) putc_bfd(&pb, ' ');		/* Right pads */
-	}
-
-	va_end(arp);
-
-	return putc_flush(&pb);
-}
-
-#endif /* !FF_FS_READONLY */
-#endif /* FF_USE_STRFUNC */
-
-
-
-#if FF_CODE_PAGE == 0
-/*-----------------------------------------------------------------------*/
-/* Set Active Codepage for the Path Name                                 */
-/*-----------------------------------------------------------------------*/
-
-FRESULT f_setcp (
-	WORD cp		/* Value to be set as active code page */
-)
-{
-	static const WORD       validcp[22] = {  437,   720,   737,   771,   775,   850,   852,   855,   857,   860,   861,   862,   863,   864,   865,   866,   869,   932,   936,   949,   950, 0};
-	static const BYTE* const tables[22] = {Ct437, Ct720, Ct737, Ct771, Ct775, Ct850, Ct852, Ct855, Ct857, Ct860, Ct861, Ct862, Ct863, Ct864, Ct865, Ct866, Ct869, Dc932, Dc936, Dc949, Dc950, 0};
-	UINT i;
-
-
-	for (i = 0; validcp[i] != 0 && validcp[i] != cp; i++) ;	/* Find the code page */
-	if (validcp[i] != cp) return FR_INVALID_PARAMETER;	/* Not found? */
-
-	CodePage = cp;
-	if (cp >= 900) {	/* DBCS */
-		ExCvt = 0;
-		DbcTbl = tables[i];
-	} else {			/* SBCS */
-		ExCvt = tables[i];
-		DbcTbl = 0;
-	}
-	return FR_OK;
-}
-#endif	/* FF_CODE_PAGE == 0 */
-
+/*----------------------------------------------------------------------------/
+/  FatFs - Generic FAT Filesystem Module  R0.14b                              /
+/-----------------------------------------------------------------------------/
+/
+/ Copyright (C) 2021, ChaN, all right reserved.
+/
+/ FatFs module is an open source software. Redistribution and use of FatFs in
+/ source and binary forms, with or without modification, are permitted provided
+/ that the following condition is met:
+/
+/ 1. Redistributions of source code must retain the above copyright notice,
+/    this condition and the following disclaimer.
+/
+/ This software is provided by the copyright holder and contributors "AS IS"
+/ and any warranties related to this software are DISCLAIMED.
+/ The copyright owner or contributors be NOT LIABLE for any damages caused
+/ by use of this software.
+/
+/----------------------------------------------------------------------------*/
+
+
+#include <string.h>
+#include "ff.h"			/* Declarations of FatFs API */
+#include "diskio.h"		/* Declarations of device I/O functions */
+
+
+/*--------------------------------------------------------------------------
+
+   Module Private Definitions
+
+---------------------------------------------------------------------------*/
+
+#if FF_DEFINED != 86631	/* Revision ID */
+#error Wrong include file (ff.h).
+#endif
+
+
+/* Limits and boundaries */
+#define MAX_DIR		0x200000		/* Max size of FAT directory */
+#define MAX_DIR_EX	0x10000000		/* Max size of exFAT directory */
+#define MAX_FAT12	0xFF5			/* Max FAT12 clusters (differs from specs, but right for real DOS/Windows behavior) */
+#define MAX_FAT16	0xFFF5			/* Max FAT16 clusters (differs from specs, but right for real DOS/Windows behavior) */
+#define MAX_FAT32	0x0FFFFFF5		/* Max FAT32 clusters (not specified, practical limit) */
+#define MAX_EXFAT	0x7FFFFFFD		/* Max exFAT clusters (differs from specs, implementation limit) */
+
+
+/* Character code support macros */
+#define IsUpper(c)		((c) >= 'A' && (c) <= 'Z')
+#define IsLower(c)		((c) >= 'a' && (c) <= 'z')
+#define IsDigit(c)		((c) >= '0' && (c) <= '9')
+#define IsSeparator(c)	((c) == '/' || (c) == '\\')
+#define IsTerminator(c)	((UINT)(c) < (FF_USE_LFN ? ' ' : '!'))
+#define IsSurrogate(c)	((c) >= 0xD800 && (c) <= 0xDFFF)
+#define IsSurrogateH(c)	((c) >= 0xD800 && (c) <= 0xDBFF)
+#define IsSurrogateL(c)	((c) >= 0xDC00 && (c) <= 0xDFFF)
+
+
+/* Additional file access control and file status flags for internal use */
+#define FA_SEEKEND	0x20	/* Seek to end of the file on file open */
+#define FA_MODIFIED	0x40	/* File has been modified */
+#define FA_DIRTY	0x80	/* FIL.buf[] needs to be written-back */
+
+
+/* Additional file attribute bits for internal use */
+#define AM_VOL		0x08	/* Volume label */
+#define AM_LFN		0x0F	/* LFN entry */
+#define AM_MASK		0x3F	/* Mask of defined bits in FAT */
+#define AM_MASKX	0x37	/* Mask of defined bits in exFAT */
+
+
+/* Name status flags in fn[11] */
+#define NSFLAG		11		/* Index of the name status byte */
+#define NS_LOSS		0x01	/* Out of 8.3 format */
+#define NS_LFN		0x02	/* Force to create LFN entry */
+#define NS_LAST		0x04	/* Last segment */
+#define NS_BODY		0x08	/* Lower case flag (body) */
+#define NS_EXT		0x10	/* Lower case flag (ext) */
+#define NS_DOT		0x20	/* Dot entry */
+#define NS_NOLFN	0x40	/* Do not find LFN */
+#define NS_NONAME	0x80	/* Not followed */
+
+
+/* exFAT directory entry types */
+#define	ET_BITMAP	0x81	/* Allocation bitmap */
+#define	ET_UPCASE	0x82	/* Up-case table */
+#define	ET_VLABEL	0x83	/* Volume label */
+#define	ET_FILEDIR	0x85	/* File and directory */
+#define	ET_STREAM	0xC0	/* Stream extension */
+#define	ET_FILENAME	0xC1	/* Name extension */
+
+
+/* FatFs refers the FAT structure as simple byte array instead of structure member
+/ because the C structure is not binary compatible between different platforms */
+
+#define BS_JmpBoot			0		/* x86 jump instruction (3-byte) */
+#define BS_OEMName			3		/* OEM name (8-byte) */
+#define BPB_BytsPerSec		11		/* Sector size [byte] (WORD) */
+#define BPB_SecPerClus		13		/* Cluster size [sector] (BYTE) */
+#define BPB_RsvdSecCnt		14		/* Size of reserved area [sector] (WORD) */
+#define BPB_NumFATs			16		/* Number of FATs (BYTE) */
+#define BPB_RootEntCnt		17		/* Size of root directory area for FAT [entry] (WORD) */
+#define BPB_TotSec16		19		/* Volume size (16-bit) [sector] (WORD) */
+#define BPB_Media			21		/* Media descriptor byte (BYTE) */
+#define BPB_FATSz16			22		/* FAT size (16-bit) [sector] (WORD) */
+#define BPB_SecPerTrk		24		/* Number of sectors per track for int13h [sector] (WORD) */
+#define BPB_NumHeads		26		/* Number of heads for int13h (WORD) */
+#define BPB_HiddSec			28		/* Volume offset from top of the drive (DWORD) */
+#define BPB_TotSec32		32		/* Volume size (32-bit) [sector] (DWORD) */
+#define BS_DrvNum			36		/* Physical drive number for int13h (BYTE) */
+#define BS_NTres			37		/* WindowsNT error flag (BYTE) */
+#define BS_BootSig			38		/* Extended boot signature (BYTE) */
+#define BS_VolID			39		/* Volume serial number (DWORD) */
+#define BS_VolLab			43		/* Volume label string (8-byte) */
+#define BS_FilSysType		54		/* Filesystem type string (8-byte) */
+#define BS_BootCode			62		/* Boot code (448-byte) */
+#define BS_55AA				510		/* Signature word (WORD) */
+
+#define BPB_FATSz32			36		/* FAT32: FAT size [sector] (DWORD) */
+#define BPB_ExtFlags32		40		/* FAT32: Extended flags (WORD) */
+#define BPB_FSVer32			42		/* FAT32: Filesystem version (WORD) */
+#define BPB_RootClus32		44		/* FAT32: Root directory cluster (DWORD) */
+#define BPB_FSInfo32		48		/* FAT32: Offset of FSINFO sector (WORD) */
+#define BPB_BkBootSec32		50		/* FAT32: Offset of backup boot sector (WORD) */
+#define BS_DrvNum32			64		/* FAT32: Physical drive number for int13h (BYTE) */
+#define BS_NTres32			65		/* FAT32: Error flag (BYTE) */
+#define BS_BootSig32		66		/* FAT32: Extended boot signature (BYTE) */
+#define BS_VolID32			67		/* FAT32: Volume serial number (DWORD) */
+#define BS_VolLab32			71		/* FAT32: Volume label string (8-byte) */
+#define BS_FilSysType32		82		/* FAT32: Filesystem type string (8-byte) */
+#define BS_BootCode32		90		/* FAT32: Boot code (420-byte) */
+
+#define BPB_ZeroedEx		11		/* exFAT: MBZ field (53-byte) */
+#define BPB_VolOfsEx		64		/* exFAT: Volume offset from top of the drive [sector] (QWORD) */
+#define BPB_TotSecEx		72		/* exFAT: Volume size [sector] (QWORD) */
+#define BPB_FatOfsEx		80		/* exFAT: FAT offset from top of the volume [sector] (DWORD) */
+#define BPB_FatSzEx			84		/* exFAT: FAT size [sector] (DWORD) */
+#define BPB_DataOfsEx		88		/* exFAT: Data offset from top of the volume [sector] (DWORD) */
+#define BPB_NumClusEx		92		/* exFAT: Number of clusters (DWORD) */
+#define BPB_RootClusEx		96		/* exFAT: Root directory start cluster (DWORD) */
+#define BPB_VolIDEx			100		/* exFAT: Volume serial number (DWORD) */
+#define BPB_FSVerEx			104		/* exFAT: Filesystem version (WORD) */
+#define BPB_VolFlagEx		106		/* exFAT: Volume flags (WORD) */
+#define BPB_BytsPerSecEx	108		/* exFAT: Log2 of sector size in unit of byte (BYTE) */
+#define BPB_SecPerClusEx	109		/* exFAT: Log2 of cluster size in unit of sector (BYTE) */
+#define BPB_NumFATsEx		110		/* exFAT: Number of FATs (BYTE) */
+#define BPB_DrvNumEx		111		/* exFAT: Physical drive number for int13h (BYTE) */
+#define BPB_PercInUseEx		112		/* exFAT: Percent in use (BYTE) */
+#define BPB_RsvdEx			113		/* exFAT: Reserved (7-byte) */
+#define BS_BootCodeEx		120		/* exFAT: Boot code (390-byte) */
+
+#define DIR_Name			0		/* Short file name (11-byte) */
+#define DIR_Attr			11		/* Attribute (BYTE) */
+#define DIR_NTres			12		/* Lower case flag (BYTE) */
+#define DIR_CrtTime10		13		/* Created time sub-second (BYTE) */
+#define DIR_CrtTime			14		/* Created time (DWORD) */
+#define DIR_LstAccDate		18		/* Last accessed date (WORD) */
+#define DIR_FstClusHI		20		/* Higher 16-bit of first cluster (WORD) */
+#define DIR_ModTime			22		/* Modified time (DWORD) */
+#define DIR_FstClusLO		26		/* Lower 16-bit of first cluster (WORD) */
+#define DIR_FileSize		28		/* File size (DWORD) */
+#define LDIR_Ord			0		/* LFN: LFN order and LLE flag (BYTE) */
+#define LDIR_Attr			11		/* LFN: LFN attribute (BYTE) */
+#define LDIR_Type			12		/* LFN: Entry type (BYTE) */
+#define LDIR_Chksum			13		/* LFN: Checksum of the SFN (BYTE) */
+#define LDIR_FstClusLO		26		/* LFN: MBZ field (WORD) */
+#define XDIR_Type			0		/* exFAT: Type of exFAT directory entry (BYTE) */
+#define XDIR_NumLabel		1		/* exFAT: Number of volume label characters (BYTE) */
+#define XDIR_Label			2		/* exFAT: Volume label (11-WORD) */
+#define XDIR_CaseSum		4		/* exFAT: Sum of case conversion table (DWORD) */
+#define XDIR_NumSec			1		/* exFAT: Number of secondary entries (BYTE) */
+#define XDIR_SetSum			2		/* exFAT: Sum of the set of directory entries (WORD) */
+#define XDIR_Attr			4		/* exFAT: File attribute (WORD) */
+#define XDIR_CrtTime		8		/* exFAT: Created time (DWORD) */
+#define XDIR_ModTime		12		/* exFAT: Modified time (DWORD) */
+#define XDIR_AccTime		16		/* exFAT: Last accessed time (DWORD) */
+#define XDIR_CrtTime10		20		/* exFAT: Created time subsecond (BYTE) */
+#define XDIR_ModTime10		21		/* exFAT: Modified time subsecond (BYTE) */
+#define XDIR_CrtTZ			22		/* exFAT: Created timezone (BYTE) */
+#define XDIR_ModTZ			23		/* exFAT: Modified timezone (BYTE) */
+#define XDIR_AccTZ			24		/* exFAT: Last accessed timezone (BYTE) */
+#define XDIR_GenFlags		33		/* exFAT: General secondary flags (BYTE) */
+#define XDIR_NumName		35		/* exFAT: Number of file name characters (BYTE) */
+#define XDIR_NameHash		36		/* exFAT: Hash of file name (WORD) */
+#define XDIR_ValidFileSize	40		/* exFAT: Valid file size (QWORD) */
+#define XDIR_FstClus		52		/* exFAT: First cluster of the file data (DWORD) */
+#define XDIR_FileSize		56		/* exFAT: File/Directory size (QWORD) */
+
+#define SZDIRE				32		/* Size of a directory entry */
+#define DDEM				0xE5	/* Deleted directory entry mark set to DIR_Name[0] */
+#define RDDEM				0x05	/* Replacement of the character collides with DDEM */
+#define LLEF				0x40	/* Last long entry flag in LDIR_Ord */
+
+#define FSI_LeadSig			0		/* FAT32 FSI: Leading signature (DWORD) */
+#define FSI_StrucSig		484		/* FAT32 FSI: Structure signature (DWORD) */
+#define FSI_Free_Count		488		/* FAT32 FSI: Number of free clusters (DWORD) */
+#define FSI_Nxt_Free		492		/* FAT32 FSI: Last allocated cluster (DWORD) */
+
+#define MBR_Table			446		/* MBR: Offset of partition table in the MBR */
+#define SZ_PTE				16		/* MBR: Size of a partition table entry */
+#define PTE_Boot			0		/* MBR PTE: Boot indicator */
+#define PTE_StHead			1		/* MBR PTE: Start head */
+#define PTE_StSec			2		/* MBR PTE: Start sector */
+#define PTE_StCyl			3		/* MBR PTE: Start cylinder */
+#define PTE_System			4		/* MBR PTE: System ID */
+#define PTE_EdHead			5		/* MBR PTE: End head */
+#define PTE_EdSec			6		/* MBR PTE: End sector */
+#define PTE_EdCyl			7		/* MBR PTE: End cylinder */
+#define PTE_StLba			8		/* MBR PTE: Start in LBA */
+#define PTE_SizLba			12		/* MBR PTE: Size in LBA */
+
+#define GPTH_Sign			0		/* GPT: Header signature (8-byte) */
+#define GPTH_Rev			8		/* GPT: Revision (DWORD) */
+#define GPTH_Size			12		/* GPT: Header size (DWORD) */
+#define GPTH_Bcc			16		/* GPT: Header BCC (DWORD) */
+#define GPTH_CurLba			24		/* GPT: Main header LBA (QWORD) */
+#define GPTH_BakLba			32		/* GPT: Backup header LBA (QWORD) */
+#define GPTH_FstLba			40		/* GPT: First LBA for partitions (QWORD) */
+#define GPTH_LstLba			48		/* GPT: Last LBA for partitions (QWORD) */
+#define GPTH_DskGuid		56		/* GPT: Disk GUID (16-byte) */
+#define GPTH_PtOfs			72		/* GPT: Partation table LBA (QWORD) */
+#define GPTH_PtNum			80		/* GPT: Number of table entries (DWORD) */
+#define GPTH_PteSize		84		/* GPT: Size of table entry (DWORD) */
+#define GPTH_PtBcc			88		/* GPT: Partation table BCC (DWORD) */
+#define SZ_GPTE				128		/* GPT: Size of partition table entry */
+#define GPTE_PtGuid			0		/* GPT PTE: Partition type GUID (16-byte) */
+#define GPTE_UpGuid			16		/* GPT PTE: Partition unique GUID (16-byte) */
+#define GPTE_FstLba			32		/* GPT PTE: First LBA (QWORD) */
+#define GPTE_LstLba			40		/* GPT PTE: Last LBA inclusive (QWORD) */
+#define GPTE_Flags			48		/* GPT PTE: Flags (QWORD) */
+#define GPTE_Name			56		/* GPT PTE: Name */
+
+
+/* Post process on fatal error in the file operations */
+#define ABORT(fs, res)		{ fp->err = (BYTE)(res); LEAVE_FF(fs, res); }
+
+
+/* Re-entrancy related */
+#if FF_FS_REENTRANT
+#if FF_USE_LFN == 1
+#error Static LFN work area cannot be used in thread-safe configuration
+#endif
+#define LEAVE_FF(fs, res)	{ unlock_fs(fs, res); return res; }
+#else
+#define LEAVE_FF(fs, res)	return res
+#endif
+
+
+/* Definitions of logical drive - physical location conversion */
+#if FF_MULTI_PARTITION
+#define LD2PD(vol) VolToPart[vol].pd	/* Get physical drive number */
+#define LD2PT(vol) VolToPart[vol].pt	/* Get partition number (0:auto search, 1..:forced partition number) */
+#else
+#define LD2PD(vol) (BYTE)(vol)	/* Each logical drive is associated with the same physical drive number */
+#define LD2PT(vol) 0			/* Auto partition search */
+#endif
+
+
+/* Definitions of sector size */
+#if (FF_MAX_SS < FF_MIN_SS) || (FF_MAX_SS != 512 && FF_MAX_SS != 1024 && FF_MAX_SS != 2048 && FF_MAX_SS != 4096) || (FF_MIN_SS != 512 && FF_MIN_SS != 1024 && FF_MIN_SS != 2048 && FF_MIN_SS != 4096)
+#error Wrong sector size configuration
+#endif
+#if FF_MAX_SS == FF_MIN_SS
+#define SS(fs)	((UINT)FF_MAX_SS)	/* Fixed sector size */
+#else
+#define SS(fs)	((fs)->ssize)	/* Variable sector size */
+#endif
+
+
+/* Timestamp */
+#if FF_FS_NORTC == 1
+#if FF_NORTC_YEAR < 1980 || FF_NORTC_YEAR > 2107 || FF_NORTC_MON < 1 || FF_NORTC_MON > 12 || FF_NORTC_MDAY < 1 || FF_NORTC_MDAY > 31
+#error Invalid FF_FS_NORTC settings
+#endif
+#define GET_FATTIME()	((DWORD)(FF_NORTC_YEAR - 1980) << 25 | (DWORD)FF_NORTC_MON << 21 | (DWORD)FF_NORTC_MDAY << 16)
+#else
+#define GET_FATTIME()	get_fattime()
+#endif
+
+
+/* File lock controls */
+#if FF_FS_LOCK != 0
+#if FF_FS_READONLY
+#error FF_FS_LOCK must be 0 at read-only configuration
+#endif
+typedef struct {
+	FATFS *fs;		/* Object ID 1, volume (NULL:blank entry) */
+	DWORD clu;		/* Object ID 2, containing directory (0:root) */
+	DWORD ofs;		/* Object ID 3, offset in the directory */
+	WORD ctr;		/* Object open counter, 0:none, 0x01..0xFF:read mode open count, 0x100:write mode */
+} FILESEM;
+#endif
+
+
+/* SBCS up-case tables (\x80-\xFF) */
+#define TBL_CT437  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT720  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT737  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x92,0x92,0x93,0x94,0x95,0x96,0x97,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87, \
+					0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0xAA,0x92,0x93,0x94,0x95,0x96, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0x97,0xEA,0xEB,0xEC,0xE4,0xED,0xEE,0xEF,0xF5,0xF0,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT771  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDC,0xDE,0xDE, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFE,0xFF}
+#define TBL_CT775  {0x80,0x9A,0x91,0xA0,0x8E,0x95,0x8F,0x80,0xAD,0xED,0x8A,0x8A,0xA1,0x8D,0x8E,0x8F, \
+					0x90,0x92,0x92,0xE2,0x99,0x95,0x96,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
+					0xA0,0xA1,0xE0,0xA3,0xA3,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xA5,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE3,0xE8,0xE8,0xEA,0xEA,0xEE,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT850  {0x43,0x55,0x45,0x41,0x41,0x41,0x41,0x43,0x45,0x45,0x45,0x49,0x49,0x49,0x41,0x41, \
+					0x45,0x92,0x92,0x4F,0x4F,0x4F,0x55,0x55,0x59,0x4F,0x55,0x4F,0x9C,0x4F,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0x41,0x41,0x41,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0x41,0x41,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD1,0xD1,0x45,0x45,0x45,0x49,0x49,0x49,0x49,0xD9,0xDA,0xDB,0xDC,0xDD,0x49,0xDF, \
+					0x4F,0xE1,0x4F,0x4F,0x4F,0x4F,0xE6,0xE8,0xE8,0x55,0x55,0x55,0x59,0x59,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT852  {0x80,0x9A,0x90,0xB6,0x8E,0xDE,0x8F,0x80,0x9D,0xD3,0x8A,0x8A,0xD7,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x91,0xE2,0x99,0x95,0x95,0x97,0x97,0x99,0x9A,0x9B,0x9B,0x9D,0x9E,0xAC, \
+					0xB5,0xD6,0xE0,0xE9,0xA4,0xA4,0xA6,0xA6,0xA8,0xA8,0xAA,0x8D,0xAC,0xB8,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBD,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC6,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD1,0xD1,0xD2,0xD3,0xD2,0xD5,0xD6,0xD7,0xB7,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE3,0xD5,0xE6,0xE6,0xE8,0xE9,0xE8,0xEB,0xED,0xED,0xDD,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xEB,0xFC,0xFC,0xFE,0xFF}
+#define TBL_CT855  {0x81,0x81,0x83,0x83,0x85,0x85,0x87,0x87,0x89,0x89,0x8B,0x8B,0x8D,0x8D,0x8F,0x8F, \
+					0x91,0x91,0x93,0x93,0x95,0x95,0x97,0x97,0x99,0x99,0x9B,0x9B,0x9D,0x9D,0x9F,0x9F, \
+					0xA1,0xA1,0xA3,0xA3,0xA5,0xA5,0xA7,0xA7,0xA9,0xA9,0xAB,0xAB,0xAD,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB6,0xB6,0xB8,0xB8,0xB9,0xBA,0xBB,0xBC,0xBE,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD1,0xD1,0xD3,0xD3,0xD5,0xD5,0xD7,0xD7,0xDD,0xD9,0xDA,0xDB,0xDC,0xDD,0xE0,0xDF, \
+					0xE0,0xE2,0xE2,0xE4,0xE4,0xE6,0xE6,0xE8,0xE8,0xEA,0xEA,0xEC,0xEC,0xEE,0xEE,0xEF, \
+					0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF8,0xFA,0xFA,0xFC,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT857  {0x80,0x9A,0x90,0xB6,0x8E,0xB7,0x8F,0x80,0xD2,0xD3,0xD4,0xD8,0xD7,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0xE2,0x99,0xE3,0xEA,0xEB,0x98,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9E, \
+					0xB5,0xD6,0xE0,0xE9,0xA5,0xA5,0xA6,0xA6,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC7,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0x49,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE5,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xDE,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT860  {0x80,0x9A,0x90,0x8F,0x8E,0x91,0x86,0x80,0x89,0x89,0x92,0x8B,0x8C,0x98,0x8E,0x8F, \
+					0x90,0x91,0x92,0x8C,0x99,0xA9,0x96,0x9D,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x86,0x8B,0x9F,0x96,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT861  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x8B,0x8B,0x8D,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x8D,0x55,0x97,0x97,0x99,0x9A,0x9D,0x9C,0x9D,0x9E,0x9F, \
+					0xA4,0xA5,0xA6,0xA7,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT862  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT863  {0x43,0x55,0x45,0x41,0x41,0x41,0x86,0x43,0x45,0x45,0x45,0x49,0x49,0x8D,0x41,0x8F, \
+					0x45,0x45,0x45,0x4F,0x45,0x49,0x55,0x55,0x98,0x4F,0x55,0x9B,0x9C,0x55,0x55,0x9F, \
+					0xA0,0xA1,0x4F,0x55,0xA4,0xA5,0xA6,0xA7,0x49,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT864  {0x80,0x9A,0x45,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT865  {0x80,0x9A,0x90,0x41,0x8E,0x41,0x8F,0x80,0x45,0x45,0x45,0x49,0x49,0x49,0x8E,0x8F, \
+					0x90,0x92,0x92,0x4F,0x99,0x4F,0x55,0x55,0x59,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x41,0x49,0x4F,0x55,0xA5,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF, \
+					0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT866  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F, \
+					0xF0,0xF0,0xF2,0xF2,0xF4,0xF4,0xF6,0xF6,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF}
+#define TBL_CT869  {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F, \
+					0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x86,0x9C,0x8D,0x8F,0x90, \
+					0x91,0x90,0x92,0x95,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF, \
+					0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF, \
+					0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF, \
+					0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xA4,0xA5,0xA6,0xD9,0xDA,0xDB,0xDC,0xA7,0xA8,0xDF, \
+					0xA9,0xAA,0xAC,0xAD,0xB5,0xB6,0xB7,0xB8,0xBD,0xBE,0xC6,0xC7,0xCF,0xCF,0xD0,0xEF, \
+					0xF0,0xF1,0xD1,0xD2,0xD3,0xF5,0xD4,0xF7,0xF8,0xF9,0xD5,0x96,0x95,0x98,0xFE,0xFF}
+
+
+/* DBCS code range |----- 1st byte -----|  |----------- 2nd byte -----------| */
+/*                  <------>    <------>    <------>    <------>    <------>  */
+#define TBL_DC932 {0x81, 0x9F, 0xE0, 0xFC, 0x40, 0x7E, 0x80, 0xFC, 0x00, 0x00}
+#define TBL_DC936 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0x80, 0xFE, 0x00, 0x00}
+#define TBL_DC949 {0x81, 0xFE, 0x00, 0x00, 0x41, 0x5A, 0x61, 0x7A, 0x81, 0xFE}
+#define TBL_DC950 {0x81, 0xFE, 0x00, 0x00, 0x40, 0x7E, 0xA1, 0xFE, 0x00, 0x00}
+
+
+/* Macros for table definitions */
+#define MERGE_2STR(a, b) a ## b
+#define MKCVTBL(hd, cp) MERGE_2STR(hd, cp)
+
+
+
+
+/*--------------------------------------------------------------------------
+
+   Module Private Work Area
+
+---------------------------------------------------------------------------*/
+/* Remark: Variables defined here without initial value shall be guaranteed
+/  zero/null at start-up. If not, the linker option or start-up routine is
+/  not compliance with C standard. */
+
+/*--------------------------------*/
+/* File/Volume controls           */
+/*--------------------------------*/
+
+#if FF_VOLUMES < 1 || FF_VOLUMES > 10
+#error Wrong FF_VOLUMES setting
+#endif
+static FATFS* FatFs[FF_VOLUMES];	/* Pointer to the filesystem objects (logical drives) */
+static WORD Fsid;					/* Filesystem mount ID */
+
+#if FF_FS_RPATH != 0
+static BYTE CurrVol;				/* Current drive */
+#endif
+
+#if FF_FS_LOCK != 0
+static FILESEM Files[FF_FS_LOCK];	/* Open object lock semaphores */
+#endif
+
+#if FF_STR_VOLUME_ID
+#ifdef FF_VOLUME_STRS
+static const char* const VolumeStr[FF_VOLUMES] = {FF_VOLUME_STRS};	/* Pre-defined volume ID */
+#endif
+#endif
+
+#if FF_LBA64
+#if FF_MIN_GPT > 0x100000000
+#error Wrong FF_MIN_GPT setting
+#endif
+static const BYTE GUID_MS_Basic[16] = {0xA2,0xA0,0xD0,0xEB,0xE5,0xB9,0x33,0x44,0x87,0xC0,0x68,0xB6,0xB7,0x26,0x99,0xC7};
+#endif
+
+
+
+/*--------------------------------*/
+/* LFN/Directory working buffer   */
+/*--------------------------------*/
+
+#if FF_USE_LFN == 0		/* Non-LFN configuration */
+#if FF_FS_EXFAT
+#error LFN must be enabled when enable exFAT
+#endif
+#define DEF_NAMBUF
+#define INIT_NAMBUF(fs)
+#define FREE_NAMBUF()
+#define LEAVE_MKFS(res)	return res
+
+#else					/* LFN configurations */
+#if FF_MAX_LFN < 12 || FF_MAX_LFN > 255
+#error Wrong setting of FF_MAX_LFN
+#endif
+#if FF_LFN_BUF < FF_SFN_BUF || FF_SFN_BUF < 12
+#error Wrong setting of FF_LFN_BUF or FF_SFN_BUF
+#endif
+#if FF_LFN_UNICODE < 0 || FF_LFN_UNICODE > 3
+#error Wrong setting of FF_LFN_UNICODE
+#endif
+static const BYTE LfnOfs[] = {1,3,5,7,9,14,16,18,20,22,24,28,30};	/* FAT: Offset of LFN characters in the directory entry */
+#define MAXDIRB(nc)	((nc + 44U) / 15 * SZDIRE)	/* exFAT: Size of directory entry block scratchpad buffer needed for the name length */
+
+#if FF_USE_LFN == 1		/* LFN enabled with static working buffer */
+#if FF_FS_EXFAT
+static BYTE	DirBuf[MAXDIRB(FF_MAX_LFN)];	/* Directory entry block scratchpad buffer */
+#endif
+static WCHAR LfnBuf[FF_MAX_LFN + 1];		/* LFN working buffer */
+#define DEF_NAMBUF
+#define INIT_NAMBUF(fs)
+#define FREE_NAMBUF()
+#define LEAVE_MKFS(res)	return res
+
+#elif FF_USE_LFN == 2 	/* LFN enabled with dynamic working buffer on the stack */
+#if FF_FS_EXFAT
+#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1]; BYTE dbuf[MAXDIRB(FF_MAX_LFN)];	/* LFN working buffer and directory entry block scratchpad buffer */
+#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; (fs)->dirbuf = dbuf; }
+#define FREE_NAMBUF()
+#else
+#define DEF_NAMBUF		WCHAR lbuf[FF_MAX_LFN+1];	/* LFN working buffer */
+#define INIT_NAMBUF(fs)	{ (fs)->lfnbuf = lbuf; }
+#define FREE_NAMBUF()
+#endif
+#define LEAVE_MKFS(res)	return res
+
+#elif FF_USE_LFN == 3 	/* LFN enabled with dynamic working buffer on the heap */
+#if FF_FS_EXFAT
+#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer and directory entry block scratchpad buffer */
+#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2 + MAXDIRB(FF_MAX_LFN)); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; (fs)->dirbuf = (BYTE*)(lfn+FF_MAX_LFN+1); }
+#define FREE_NAMBUF()	ff_memfree(lfn)
+#else
+#define DEF_NAMBUF		WCHAR *lfn;	/* Pointer to LFN working buffer */
+#define INIT_NAMBUF(fs)	{ lfn = ff_memalloc((FF_MAX_LFN+1)*2); if (!lfn) LEAVE_FF(fs, FR_NOT_ENOUGH_CORE); (fs)->lfnbuf = lfn; }
+#define FREE_NAMBUF()	ff_memfree(lfn)
+#endif
+#define LEAVE_MKFS(res)	{ if (!work) ff_memfree(buf); return res; }
+#define MAX_MALLOC	0x8000	/* Must be >=FF_MAX_SS */
+
+#else
+#error Wrong setting of FF_USE_LFN
+
+#endif	/* FF_USE_LFN == 1 */
+#endif	/* FF_USE_LFN == 0 */
+
+
+
+/*--------------------------------*/
+/* Code conversion tables         */
+/*--------------------------------*/
+
+#if FF_CODE_PAGE == 0	/* Run-time code page configuration */
+#define CODEPAGE CodePage
+static WORD CodePage;	/* Current code page */
+static const BYTE *ExCvt, *DbcTbl;	/* Pointer to current SBCS up-case table and DBCS code range table below */
+
+static const BYTE Ct437[] = TBL_CT437;
+static const BYTE Ct720[] = TBL_CT720;
+static const BYTE Ct737[] = TBL_CT737;
+static const BYTE Ct771[] = TBL_CT771;
+static const BYTE Ct775[] = TBL_CT775;
+static const BYTE Ct850[] = TBL_CT850;
+static const BYTE Ct852[] = TBL_CT852;
+static const BYTE Ct855[] = TBL_CT855;
+static const BYTE Ct857[] = TBL_CT857;
+static const BYTE Ct860[] = TBL_CT860;
+static const BYTE Ct861[] = TBL_CT861;
+static const BYTE Ct862[] = TBL_CT862;
+static const BYTE Ct863[] = TBL_CT863;
+static const BYTE Ct864[] = TBL_CT864;
+static const BYTE Ct865[] = TBL_CT865;
+static const BYTE Ct866[] = TBL_CT866;
+static const BYTE Ct869[] = TBL_CT869;
+static const BYTE Dc932[] = TBL_DC932;
+static const BYTE Dc936[] = TBL_DC936;
+static const BYTE Dc949[] = TBL_DC949;
+static const BYTE Dc950[] = TBL_DC950;
+
+#elif FF_CODE_PAGE < 900	/* Static code page configuration (SBCS) */
+#define CODEPAGE FF_CODE_PAGE
+static const BYTE ExCvt[] = MKCVTBL(TBL_CT, FF_CODE_PAGE);
+
+#else					/* Static code page configuration (DBCS) */
+#define CODEPAGE FF_CODE_PAGE
+static const BYTE DbcTbl[] = MKCVTBL(TBL_DC, FF_CODE_PAGE);
+
+#endif
+
+
+
+
+/*--------------------------------------------------------------------------
+
+   Module Private Functions
+
+---------------------------------------------------------------------------*/
+
+
+/*-----------------------------------------------------------------------*/
+/* Load/Store multi-byte word in the FAT structure                       */
+/*-----------------------------------------------------------------------*/
+
+static WORD ld_word (const BYTE* ptr)	/*	 Load a 2-byte little-endian word */
+{
+	WORD rv;
+
+	rv = ptr[1];
+	rv = rv << 8 | ptr[0];
+	return rv;
+}
+
+static DWORD ld_dword (const BYTE* ptr)	/* Load a 4-byte little-endian word */
+{
+	DWORD rv;
+
+	rv = ptr[3];
+	rv = rv << 8 | ptr[2];
+	rv = rv << 8 | ptr[1];
+	rv = rv << 8 | ptr[0];
+	return rv;
+}
+
+#if FF_FS_EXFAT
+static QWORD ld_qword (const BYTE* ptr)	/* Load an 8-byte little-endian word */
+{
+	QWORD rv;
+
+	rv = ptr[7];
+	rv = rv << 8 | ptr[6];
+	rv = rv << 8 | ptr[5];
+	rv = rv << 8 | ptr[4];
+	rv = rv << 8 | ptr[3];
+	rv = rv << 8 | ptr[2];
+	rv = rv << 8 | ptr[1];
+	rv = rv << 8 | ptr[0];
+	return rv;
+}
+#endif
+
+#if !FF_FS_READONLY
+static void st_word (BYTE* ptr, WORD val)	/* Store a 2-byte word in little-endian */
+{
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val;
+}
+
+static void st_dword (BYTE* ptr, DWORD val)	/* Store a 4-byte word in little-endian */
+{
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val;
+}
+
+#if FF_FS_EXFAT
+static void st_qword (BYTE* ptr, QWORD val)	/* Store an 8-byte word in little-endian */
+{
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val; val >>= 8;
+	*ptr++ = (BYTE)val;
+}
+#endif
+#endif	/* !FF_FS_READONLY */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* String functions                                                      */
+/*-----------------------------------------------------------------------*/
+
+/* Test if the byte is DBC 1st byte */
+static int dbc_1st (BYTE c)
+{
+#if FF_CODE_PAGE == 0		/* Variable code page */
+	if (DbcTbl && c >= DbcTbl[0]) {
+		if (c <= DbcTbl[1]) return 1;					/* 1st byte range 1 */
+		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;	/* 1st byte range 2 */
+	}
+#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
+	if (c >= DbcTbl[0]) {
+		if (c <= DbcTbl[1]) return 1;
+		if (c >= DbcTbl[2] && c <= DbcTbl[3]) return 1;
+	}
+#else						/* SBCS fixed code page */
+	if (c != 0) return 0;	/* Always false */
+#endif
+	return 0;
+}
+
+
+/* Test if the byte is DBC 2nd byte */
+static int dbc_2nd (BYTE c)
+{
+#if FF_CODE_PAGE == 0		/* Variable code page */
+	if (DbcTbl && c >= DbcTbl[4]) {
+		if (c <= DbcTbl[5]) return 1;					/* 2nd byte range 1 */
+		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;	/* 2nd byte range 2 */
+		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;	/* 2nd byte range 3 */
+	}
+#elif FF_CODE_PAGE >= 900	/* DBCS fixed code page */
+	if (c >= DbcTbl[4]) {
+		if (c <= DbcTbl[5]) return 1;
+		if (c >= DbcTbl[6] && c <= DbcTbl[7]) return 1;
+		if (c >= DbcTbl[8] && c <= DbcTbl[9]) return 1;
+	}
+#else						/* SBCS fixed code page */
+	if (c != 0) return 0;	/* Always false */
+#endif
+	return 0;
+}
+
+
+#if FF_USE_LFN
+
+/* Get a Unicode code point from the TCHAR string in defined API encodeing */
+static DWORD tchar2uni (	/* Returns a character in UTF-16 encoding (>=0x10000 on surrogate pair, 0xFFFFFFFF on decode error) */
+	const TCHAR** str		/* Pointer to pointer to TCHAR string in configured encoding */
+)
+{
+	DWORD uc;
+	const TCHAR *p = *str;
+
+#if FF_LFN_UNICODE == 1		/* UTF-16 input */
+	WCHAR wc;
+
+	uc = *p++;	/* Get a unit */
+	if (IsSurrogate(uc)) {	/* Surrogate? */
+		wc = *p++;		/* Get low surrogate */
+		if (!IsSurrogateH(uc) || !IsSurrogateL(wc)) return 0xFFFFFFFF;	/* Wrong surrogate? */
+		uc = uc << 16 | wc;
+	}
+
+#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
+	BYTE b;
+	int nf;
+
+	uc = (BYTE)*p++;	/* Get an encoding unit */
+	if (uc & 0x80) {	/* Multiple byte code? */
+		if        ((uc & 0xE0) == 0xC0) {	/* 2-byte sequence? */
+			uc &= 0x1F; nf = 1;
+		} else if ((uc & 0xF0) == 0xE0) {	/* 3-byte sequence? */
+			uc &= 0x0F; nf = 2;
+		} else if ((uc & 0xF8) == 0xF0) {	/* 4-byte sequence? */
+			uc &= 0x07; nf = 3;
+		} else {							/* Wrong sequence */
+			return 0xFFFFFFFF;
+		}
+		do {	/* Get trailing bytes */
+			b = (BYTE)*p++;
+			if ((b & 0xC0) != 0x80) return 0xFFFFFFFF;	/* Wrong sequence? */
+			uc = uc << 6 | (b & 0x3F);
+		} while (--nf != 0);
+		if (uc < 0x80 || IsSurrogate(uc) || uc >= 0x110000) return 0xFFFFFFFF;	/* Wrong code? */
+		if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
+	}
+
+#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
+	uc = (TCHAR)*p++;	/* Get a unit */
+	if (uc >= 0x110000 || IsSurrogate(uc)) return 0xFFFFFFFF;	/* Wrong code? */
+	if (uc >= 0x010000) uc = 0xD800DC00 | ((uc - 0x10000) << 6 & 0x3FF0000) | (uc & 0x3FF);	/* Make a surrogate pair if needed */
+
+#else		/* ANSI/OEM input */
+	BYTE b;
+	WCHAR wc;
+
+	wc = (BYTE)*p++;			/* Get a byte */
+	if (dbc_1st((BYTE)wc)) {	/* Is it a DBC 1st byte? */
+		b = (BYTE)*p++;			/* Get 2nd byte */
+		if (!dbc_2nd(b)) return 0xFFFFFFFF;	/* Invalid code? */
+		wc = (wc << 8) + b;		/* Make a DBC */
+	}
+	if (wc != 0) {
+		wc = ff_oem2uni(wc, CODEPAGE);	/* ANSI/OEM ==> Unicode */
+		if (wc == 0) return 0xFFFFFFFF;	/* Invalid code? */
+	}
+	uc = wc;
+
+#endif
+	*str = p;	/* Next read pointer */
+	return uc;
+}
+
+
+/* Store a Unicode char in defined API encoding */
+static UINT put_utf (	/* Returns number of encoding units written (0:buffer overflow or wrong encoding) */
+	DWORD chr,	/* UTF-16 encoded character (Surrogate pair if >=0x10000) */
+	TCHAR* buf,	/* Output buffer */
+	UINT szb	/* Size of the buffer */
+)
+{
+#if FF_LFN_UNICODE == 1	/* UTF-16 output */
+	WCHAR hs, wc;
+
+	hs = (WCHAR)(chr >> 16);
+	wc = (WCHAR)chr;
+	if (hs == 0) {	/* Single encoding unit? */
+		if (szb < 1 || IsSurrogate(wc)) return 0;	/* Buffer overflow or wrong code? */
+		*buf = wc;
+		return 1;
+	}
+	if (szb < 2 || !IsSurrogateH(hs) || !IsSurrogateL(wc)) return 0;	/* Buffer overflow or wrong surrogate? */
+	*buf++ = hs;
+	*buf++ = wc;
+	return 2;
+
+#elif FF_LFN_UNICODE == 2	/* UTF-8 output */
+	DWORD hc;
+
+	if (chr < 0x80) {	/* Single byte code? */
+		if (szb < 1) return 0;	/* Buffer overflow? */
+		*buf = (TCHAR)chr;
+		return 1;
+	}
+	if (chr < 0x800) {	/* 2-byte sequence? */
+		if (szb < 2) return 0;	/* Buffer overflow? */
+		*buf++ = (TCHAR)(0xC0 | (chr >> 6 & 0x1F));
+		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
+		return 2;
+	}
+	if (chr < 0x10000) {	/* 3-byte sequence? */
+		if (szb < 3 || IsSurrogate(chr)) return 0;	/* Buffer overflow or wrong code? */
+		*buf++ = (TCHAR)(0xE0 | (chr >> 12 & 0x0F));
+		*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
+		*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
+		return 3;
+	}
+	/* 4-byte sequence */
+	if (szb < 4) return 0;	/* Buffer overflow? */
+	hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
+	chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
+	if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
+	chr = (hc | chr) + 0x10000;
+	*buf++ = (TCHAR)(0xF0 | (chr >> 18 & 0x07));
+	*buf++ = (TCHAR)(0x80 | (chr >> 12 & 0x3F));
+	*buf++ = (TCHAR)(0x80 | (chr >> 6 & 0x3F));
+	*buf++ = (TCHAR)(0x80 | (chr >> 0 & 0x3F));
+	return 4;
+
+#elif FF_LFN_UNICODE == 3	/* UTF-32 output */
+	DWORD hc;
+
+	if (szb < 1) return 0;	/* Buffer overflow? */
+	if (chr >= 0x10000) {	/* Out of BMP? */
+		hc = ((chr & 0xFFFF0000) - 0xD8000000) >> 6;	/* Get high 10 bits */
+		chr = (chr & 0xFFFF) - 0xDC00;					/* Get low 10 bits */
+		if (hc >= 0x100000 || chr >= 0x400) return 0;	/* Wrong surrogate? */
+		chr = (hc | chr) + 0x10000;
+	}
+	*buf++ = (TCHAR)chr;
+	return 1;
+
+#else						/* ANSI/OEM output */
+	WCHAR wc;
+
+	wc = ff_uni2oem(chr, CODEPAGE);
+	if (wc >= 0x100) {	/* Is this a DBC? */
+		if (szb < 2) return 0;
+		*buf++ = (char)(wc >> 8);	/* Store DBC 1st byte */
+		*buf++ = (TCHAR)wc;			/* Store DBC 2nd byte */
+		return 2;
+	}
+	if (wc == 0 || szb < 1) return 0;	/* Invalid char or buffer overflow? */
+	*buf++ = (TCHAR)wc;					/* Store the character */
+	return 1;
+#endif
+}
+#endif	/* FF_USE_LFN */
+
+
+#if FF_FS_REENTRANT
+/*-----------------------------------------------------------------------*/
+/* Request/Release grant to access the volume                            */
+/*-----------------------------------------------------------------------*/
+static int lock_fs (		/* 1:Ok, 0:timeout */
+	FATFS* fs		/* Filesystem object */
+)
+{
+	return ff_req_grant(fs->sobj);
+}
+
+
+static void unlock_fs (
+	FATFS* fs,		/* Filesystem object */
+	FRESULT res		/* Result code to be returned */
+)
+{
+	if (fs && res != FR_NOT_ENABLED && res != FR_INVALID_DRIVE && res != FR_TIMEOUT) {
+		ff_rel_grant(fs->sobj);
+	}
+}
+
+#endif
+
+
+
+#if FF_FS_LOCK != 0
+/*-----------------------------------------------------------------------*/
+/* File lock control functions                                           */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT chk_lock (	/* Check if the file can be accessed */
+	DIR* dp,		/* Directory object pointing the file to be checked */
+	int acc			/* Desired access type (0:Read mode open, 1:Write mode open, 2:Delete or rename) */
+)
+{
+	UINT i, be;
+
+	/* Search open object table for the object */
+	be = 0;
+	for (i = 0; i < FF_FS_LOCK; i++) {
+		if (Files[i].fs) {	/* Existing entry */
+			if (Files[i].fs == dp->obj.fs &&	 	/* Check if the object matches with an open object */
+				Files[i].clu == dp->obj.sclust &&
+				Files[i].ofs == dp->dptr) break;
+		} else {			/* Blank entry */
+			be = 1;
+		}
+	}
+	if (i == FF_FS_LOCK) {	/* The object has not been opened */
+		return (!be && acc != 2) ? FR_TOO_MANY_OPEN_FILES : FR_OK;	/* Is there a blank entry for new object? */
+	}
+
+	/* The object was opened. Reject any open against writing file and all write mode open */
+	return (acc != 0 || Files[i].ctr == 0x100) ? FR_LOCKED : FR_OK;
+}
+
+
+static int enq_lock (void)	/* Check if an entry is available for a new object */
+{
+	UINT i;
+
+	for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
+	return (i == FF_FS_LOCK) ? 0 : 1;
+}
+
+
+static UINT inc_lock (	/* Increment object open counter and returns its index (0:Internal error) */
+	DIR* dp,	/* Directory object pointing the file to register or increment */
+	int acc		/* Desired access (0:Read, 1:Write, 2:Delete/Rename) */
+)
+{
+	UINT i;
+
+
+	for (i = 0; i < FF_FS_LOCK; i++) {	/* Find the object */
+		if (Files[i].fs == dp->obj.fs
+		 && Files[i].clu == dp->obj.sclust
+		 && Files[i].ofs == dp->dptr) break;
+	}
+
+	if (i == FF_FS_LOCK) {			/* Not opened. Register it as new. */
+		for (i = 0; i < FF_FS_LOCK && Files[i].fs; i++) ;
+		if (i == FF_FS_LOCK) return 0;	/* No free entry to register (int err) */
+		Files[i].fs = dp->obj.fs;
+		Files[i].clu = dp->obj.sclust;
+		Files[i].ofs = dp->dptr;
+		Files[i].ctr = 0;
+	}
+
+	if (acc >= 1 && Files[i].ctr) return 0;	/* Access violation (int err) */
+
+	Files[i].ctr = acc ? 0x100 : Files[i].ctr + 1;	/* Set semaphore value */
+
+	return i + 1;	/* Index number origin from 1 */
+}
+
+
+static FRESULT dec_lock (	/* Decrement object open counter */
+	UINT i			/* Semaphore index (1..) */
+)
+{
+	WORD n;
+	FRESULT res;
+
+
+	if (--i < FF_FS_LOCK) {	/* Index number origin from 0 */
+		n = Files[i].ctr;
+		if (n == 0x100) n = 0;	/* If write mode open, delete the entry */
+		if (n > 0) n--;			/* Decrement read mode open count */
+		Files[i].ctr = n;
+		if (n == 0) Files[i].fs = 0;	/* Delete the entry if open count gets zero */
+		res = FR_OK;
+	} else {
+		res = FR_INT_ERR;		/* Invalid index nunber */
+	}
+	return res;
+}
+
+
+static void clear_lock (	/* Clear lock entries of the volume */
+	FATFS *fs
+)
+{
+	UINT i;
+
+	for (i = 0; i < FF_FS_LOCK; i++) {
+		if (Files[i].fs == fs) Files[i].fs = 0;
+	}
+}
+
+#endif	/* FF_FS_LOCK != 0 */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Move/Flush disk access window in the filesystem object                */
+/*-----------------------------------------------------------------------*/
+#if !FF_FS_READONLY
+static FRESULT sync_window (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS* fs			/* Filesystem object */
+)
+{
+	FRESULT res = FR_OK;
+
+
+	if (fs->wflag) {	/* Is the disk access window dirty? */
+		if (disk_write(fs->pdrv, fs->win, fs->winsect, 1) == RES_OK) {	/* Write it back into the volume */
+			fs->wflag = 0;	/* Clear window dirty flag */
+			if (fs->winsect - fs->fatbase < fs->fsize) {	/* Is it in the 1st FAT? */
+				if (fs->n_fats == 2) disk_write(fs->pdrv, fs->win, fs->winsect + fs->fsize, 1);	/* Reflect it to 2nd FAT if needed */
+			}
+		} else {
+			res = FR_DISK_ERR;
+		}
+	}
+	return res;
+}
+#endif
+
+
+static FRESULT move_window (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS* fs,		/* Filesystem object */
+	LBA_t sect		/* Sector LBA to make appearance in the fs->win[] */
+)
+{
+	FRESULT res = FR_OK;
+
+
+	if (sect != fs->winsect) {	/* Window offset changed? */
+#if !FF_FS_READONLY
+		res = sync_window(fs);		/* Flush the window */
+#endif
+		if (res == FR_OK) {			/* Fill sector window with new data */
+			if (disk_read(fs->pdrv, fs->win, sect, 1) != RES_OK) {
+				sect = (LBA_t)0 - 1;	/* Invalidate window if read data is not valid */
+				res = FR_DISK_ERR;
+			}
+			fs->winsect = sect;
+		}
+	}
+	return res;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Synchronize filesystem and data on the storage                        */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT sync_fs (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS* fs		/* Filesystem object */
+)
+{
+	FRESULT res;
+
+
+	res = sync_window(fs);
+	if (res == FR_OK) {
+		if (fs->fs_type == FS_FAT32 && fs->fsi_flag == 1) {	/* FAT32: Update FSInfo sector if needed */
+			/* Create FSInfo structure */
+			memset(fs->win, 0, sizeof fs->win);
+			st_word(fs->win + BS_55AA, 0xAA55);					/* Boot signature */
+			st_dword(fs->win + FSI_LeadSig, 0x41615252);		/* Leading signature */
+			st_dword(fs->win + FSI_StrucSig, 0x61417272);		/* Structure signature */
+			st_dword(fs->win + FSI_Free_Count, fs->free_clst);	/* Number of free clusters */
+			st_dword(fs->win + FSI_Nxt_Free, fs->last_clst);	/* Last allocated culuster */
+			fs->winsect = fs->volbase + 1;						/* Write it into the FSInfo sector (Next to VBR) */
+			disk_write(fs->pdrv, fs->win, fs->winsect, 1);
+			fs->fsi_flag = 0;
+		}
+		/* Make sure that no pending write process in the lower layer */
+		if (disk_ioctl(fs->pdrv, CTRL_SYNC, 0) != RES_OK) res = FR_DISK_ERR;
+	}
+
+	return res;
+}
+
+#endif
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Get physical sector number from cluster number                        */
+/*-----------------------------------------------------------------------*/
+
+static LBA_t clst2sect (	/* !=0:Sector number, 0:Failed (invalid cluster#) */
+	FATFS* fs,		/* Filesystem object */
+	DWORD clst		/* Cluster# to be converted */
+)
+{
+	clst -= 2;		/* Cluster number is origin from 2 */
+	if (clst >= fs->n_fatent - 2) return 0;		/* Is it invalid cluster number? */
+	return fs->database + (LBA_t)fs->csize * clst;	/* Start sector number of the cluster */
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* FAT access - Read value of an FAT entry                               */
+/*-----------------------------------------------------------------------*/
+
+static DWORD get_fat (		/* 0xFFFFFFFF:Disk error, 1:Internal error, 2..0x7FFFFFFF:Cluster status */
+	FFOBJID* obj,	/* Corresponding object */
+	DWORD clst		/* Cluster number to get the value */
+)
+{
+	UINT wc, bc;
+	DWORD val;
+	FATFS *fs = obj->fs;
+
+
+	if (clst < 2 || clst >= fs->n_fatent) {	/* Check if in valid range */
+		val = 1;	/* Internal error */
+
+	} else {
+		val = 0xFFFFFFFF;	/* Default value falls on disk error */
+
+		switch (fs->fs_type) {
+		case FS_FAT12 :
+			bc = (UINT)clst; bc += bc / 2;
+			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
+			wc = fs->win[bc++ % SS(fs)];		/* Get 1st byte of the entry */
+			if (move_window(fs, fs->fatbase + (bc / SS(fs))) != FR_OK) break;
+			wc |= fs->win[bc % SS(fs)] << 8;	/* Merge 2nd byte of the entry */
+			val = (clst & 1) ? (wc >> 4) : (wc & 0xFFF);	/* Adjust bit position */
+			break;
+
+		case FS_FAT16 :
+			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 2))) != FR_OK) break;
+			val = ld_word(fs->win + clst * 2 % SS(fs));		/* Simple WORD array */
+			break;
+
+		case FS_FAT32 :
+			if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
+			val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x0FFFFFFF;	/* Simple DWORD array but mask out upper 4 bits */
+			break;
+#if FF_FS_EXFAT
+		case FS_EXFAT :
+			if ((obj->objsize != 0 && obj->sclust != 0) || obj->stat == 0) {	/* Object except root dir must have valid data length */
+				DWORD cofs = clst - obj->sclust;	/* Offset from start cluster */
+				DWORD clen = (DWORD)((LBA_t)((obj->objsize - 1) / SS(fs)) / fs->csize);	/* Number of clusters - 1 */
+
+				if (obj->stat == 2 && cofs <= clen) {	/* Is it a contiguous chain? */
+					val = (cofs == clen) ? 0x7FFFFFFF : clst + 1;	/* No data on the FAT, generate the value */
+					break;
+				}
+				if (obj->stat == 3 && cofs < obj->n_cont) {	/* Is it in the 1st fragment? */
+					val = clst + 1; 	/* Generate the value */
+					break;
+				}
+				if (obj->stat != 2) {	/* Get value from FAT if FAT chain is valid */
+					if (obj->n_frag != 0) {	/* Is it on the growing edge? */
+						val = 0x7FFFFFFF;	/* Generate EOC */
+					} else {
+						if (move_window(fs, fs->fatbase + (clst / (SS(fs) / 4))) != FR_OK) break;
+						val = ld_dword(fs->win + clst * 4 % SS(fs)) & 0x7FFFFFFF;
+					}
+					break;
+				}
+			}
+			val = 1;	/* Internal error */
+			break;
+#endif
+		default:
+			val = 1;	/* Internal error */
+		}
+	}
+
+	return val;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* FAT access - Change value of an FAT entry                             */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT put_fat (	/* FR_OK(0):succeeded, !=0:error */
+	FATFS* fs,		/* Corresponding filesystem object */
+	DWORD clst,		/* FAT index number (cluster number) to be changed */
+	DWORD val		/* New value to be set to the entry */
+)
+{
+	UINT bc;
+	BYTE *p;
+	FRESULT res = FR_INT_ERR;
+
+
+	if (clst >= 2 && clst < fs->n_fatent) {	/* Check if in valid range */
+		switch (fs->fs_type) {
+		case FS_FAT12:
+			bc = (UINT)clst; bc += bc / 2;	/* bc: byte offset of the entry */
+			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
+			if (res != FR_OK) break;
+			p = fs->win + bc++ % SS(fs);
+			*p = (clst & 1) ? ((*p & 0x0F) | ((BYTE)val << 4)) : (BYTE)val;	/* Update 1st byte */
+			fs->wflag = 1;
+			res = move_window(fs, fs->fatbase + (bc / SS(fs)));
+			if (res != FR_OK) break;
+			p = fs->win + bc % SS(fs);
+			*p = (clst & 1) ? (BYTE)(val >> 4) : ((*p & 0xF0) | ((BYTE)(val >> 8) & 0x0F));	/* Update 2nd byte */
+			fs->wflag = 1;
+			break;
+
+		case FS_FAT16:
+			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 2)));
+			if (res != FR_OK) break;
+			st_word(fs->win + clst * 2 % SS(fs), (WORD)val);	/* Simple WORD array */
+			fs->wflag = 1;
+			break;
+
+		case FS_FAT32:
+#if FF_FS_EXFAT
+		case FS_EXFAT:
+#endif
+			res = move_window(fs, fs->fatbase + (clst / (SS(fs) / 4)));
+			if (res != FR_OK) break;
+			if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
+				val = (val & 0x0FFFFFFF) | (ld_dword(fs->win + clst * 4 % SS(fs)) & 0xF0000000);
+			}
+			st_dword(fs->win + clst * 4 % SS(fs), val);
+			fs->wflag = 1;
+			break;
+		}
+	}
+	return res;
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+
+#if FF_FS_EXFAT && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* exFAT: Accessing FAT and Allocation Bitmap                            */
+/*-----------------------------------------------------------------------*/
+
+/*--------------------------------------*/
+/* Find a contiguous free cluster block */
+/*--------------------------------------*/
+
+static DWORD find_bitmap (	/* 0:Not found, 2..:Cluster block found, 0xFFFFFFFF:Disk error */
+	FATFS* fs,	/* Filesystem object */
+	DWORD clst,	/* Cluster number to scan from */
+	DWORD ncl	/* Number of contiguous clusters to find (1..) */
+)
+{
+	BYTE bm, bv;
+	UINT i;
+	DWORD val, scl, ctr;
+
+
+	clst -= 2;	/* The first bit in the bitmap corresponds to cluster #2 */
+	if (clst >= fs->n_fatent - 2) clst = 0;
+	scl = val = clst; ctr = 0;
+	for (;;) {
+		if (move_window(fs, fs->bitbase + val / 8 / SS(fs)) != FR_OK) return 0xFFFFFFFF;
+		i = val / 8 % SS(fs); bm = 1 << (val % 8);
+		do {
+			do {
+				bv = fs->win[i] & bm; bm <<= 1;		/* Get bit value */
+				if (++val >= fs->n_fatent - 2) {	/* Next cluster (with wrap-around) */
+					val = 0; bm = 0; i = SS(fs);
+				}
+				if (bv == 0) {	/* Is it a free cluster? */
+					if (++ctr == ncl) return scl + 2;	/* Check if run length is sufficient for required */
+				} else {
+					scl = val; ctr = 0;		/* Encountered a cluster in-use, restart to scan */
+				}
+				if (val == clst) return 0;	/* All cluster scanned? */
+			} while (bm != 0);
+			bm = 1;
+		} while (++i < SS(fs));
+	}
+}
+
+
+/*----------------------------------------*/
+/* Set/Clear a block of allocation bitmap */
+/*----------------------------------------*/
+
+static FRESULT change_bitmap (
+	FATFS* fs,	/* Filesystem object */
+	DWORD clst,	/* Cluster number to change from */
+	DWORD ncl,	/* Number of clusters to be changed */
+	int bv		/* bit value to be set (0 or 1) */
+)
+{
+	BYTE bm;
+	UINT i;
+	LBA_t sect;
+
+
+	clst -= 2;	/* The first bit corresponds to cluster #2 */
+	sect = fs->bitbase + clst / 8 / SS(fs);	/* Sector address */
+	i = clst / 8 % SS(fs);					/* Byte offset in the sector */
+	bm = 1 << (clst % 8);					/* Bit mask in the byte */
+	for (;;) {
+		if (move_window(fs, sect++) != FR_OK) return FR_DISK_ERR;
+		do {
+			do {
+				if (bv == (int)((fs->win[i] & bm) != 0)) return FR_INT_ERR;	/* Is the bit expected value? */
+				fs->win[i] ^= bm;	/* Flip the bit */
+				fs->wflag = 1;
+				if (--ncl == 0) return FR_OK;	/* All bits processed? */
+			} while (bm <<= 1);		/* Next bit */
+			bm = 1;
+		} while (++i < SS(fs));		/* Next byte */
+		i = 0;
+	}
+}
+
+
+/*---------------------------------------------*/
+/* Fill the first fragment of the FAT chain    */
+/*---------------------------------------------*/
+
+static FRESULT fill_first_frag (
+	FFOBJID* obj	/* Pointer to the corresponding object */
+)
+{
+	FRESULT res;
+	DWORD cl, n;
+
+
+	if (obj->stat == 3) {	/* Has the object been changed 'fragmented' in this session? */
+		for (cl = obj->sclust, n = obj->n_cont; n; cl++, n--) {	/* Create cluster chain on the FAT */
+			res = put_fat(obj->fs, cl, cl + 1);
+			if (res != FR_OK) return res;
+		}
+		obj->stat = 0;	/* Change status 'FAT chain is valid' */
+	}
+	return FR_OK;
+}
+
+
+/*---------------------------------------------*/
+/* Fill the last fragment of the FAT chain     */
+/*---------------------------------------------*/
+
+static FRESULT fill_last_frag (
+	FFOBJID* obj,	/* Pointer to the corresponding object */
+	DWORD lcl,		/* Last cluster of the fragment */
+	DWORD term		/* Value to set the last FAT entry */
+)
+{
+	FRESULT res;
+
+
+	while (obj->n_frag > 0) {	/* Create the chain of last fragment */
+		res = put_fat(obj->fs, lcl - obj->n_frag + 1, (obj->n_frag > 1) ? lcl - obj->n_frag + 2 : term);
+		if (res != FR_OK) return res;
+		obj->n_frag--;
+	}
+	return FR_OK;
+}
+
+#endif	/* FF_FS_EXFAT && !FF_FS_READONLY */
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* FAT handling - Remove a cluster chain                                 */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT remove_chain (	/* FR_OK(0):succeeded, !=0:error */
+	FFOBJID* obj,		/* Corresponding object */
+	DWORD clst,			/* Cluster to remove a chain from */
+	DWORD pclst			/* Previous cluster of clst (0 if entire chain) */
+)
+{
+	FRESULT res = FR_OK;
+	DWORD nxt;
+	FATFS *fs = obj->fs;
+#if FF_FS_EXFAT || FF_USE_TRIM
+	DWORD scl = clst, ecl = clst;
+#endif
+#if FF_USE_TRIM
+	LBA_t rt[2];
+#endif
+
+	if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Check if in valid range */
+
+	/* Mark the previous cluster 'EOC' on the FAT if it exists */
+	if (pclst != 0 && (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT || obj->stat != 2)) {
+		res = put_fat(fs, pclst, 0xFFFFFFFF);
+		if (res != FR_OK) return res;
+	}
+
+	/* Remove the chain */
+	do {
+		nxt = get_fat(obj, clst);			/* Get cluster status */
+		if (nxt == 0) break;				/* Empty cluster? */
+		if (nxt == 1) return FR_INT_ERR;	/* Internal error? */
+		if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error? */
+		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {
+			res = put_fat(fs, clst, 0);		/* Mark the cluster 'free' on the FAT */
+			if (res != FR_OK) return res;
+		}
+		if (fs->free_clst < fs->n_fatent - 2) {	/* Update FSINFO */
+			fs->free_clst++;
+			fs->fsi_flag |= 1;
+		}
+#if FF_FS_EXFAT || FF_USE_TRIM
+		if (ecl + 1 == nxt) {	/* Is next cluster contiguous? */
+			ecl = nxt;
+		} else {				/* End of contiguous cluster block */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				res = change_bitmap(fs, scl, ecl - scl + 1, 0);	/* Mark the cluster block 'free' on the bitmap */
+				if (res != FR_OK) return res;
+			}
+#endif
+#if FF_USE_TRIM
+			rt[0] = clst2sect(fs, scl);					/* Start of data area to be freed */
+			rt[1] = clst2sect(fs, ecl) + fs->csize - 1;	/* End of data area to be freed */
+			disk_ioctl(fs->pdrv, CTRL_TRIM, rt);		/* Inform storage device that the data in the block may be erased */
+#endif
+			scl = ecl = nxt;
+		}
+#endif
+		clst = nxt;					/* Next cluster */
+	} while (clst < fs->n_fatent);	/* Repeat while not the last link */
+
+#if FF_FS_EXFAT
+	/* Some post processes for chain status */
+	if (fs->fs_type == FS_EXFAT) {
+		if (pclst == 0) {	/* Has the entire chain been removed? */
+			obj->stat = 0;		/* Change the chain status 'initial' */
+		} else {
+			if (obj->stat == 0) {	/* Is it a fragmented chain from the beginning of this session? */
+				clst = obj->sclust;		/* Follow the chain to check if it gets contiguous */
+				while (clst != pclst) {
+					nxt = get_fat(obj, clst);
+					if (nxt < 2) return FR_INT_ERR;
+					if (nxt == 0xFFFFFFFF) return FR_DISK_ERR;
+					if (nxt != clst + 1) break;	/* Not contiguous? */
+					clst++;
+				}
+				if (clst == pclst) {	/* Has the chain got contiguous again? */
+					obj->stat = 2;		/* Change the chain status 'contiguous' */
+				}
+			} else {
+				if (obj->stat == 3 && pclst >= obj->sclust && pclst <= obj->sclust + obj->n_cont) {	/* Was the chain fragmented in this session and got contiguous again? */
+					obj->stat = 2;	/* Change the chain status 'contiguous' */
+				}
+			}
+		}
+	}
+#endif
+	return FR_OK;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* FAT handling - Stretch a chain or Create a new chain                  */
+/*-----------------------------------------------------------------------*/
+
+static DWORD create_chain (	/* 0:No free cluster, 1:Internal error, 0xFFFFFFFF:Disk error, >=2:New cluster# */
+	FFOBJID* obj,		/* Corresponding object */
+	DWORD clst			/* Cluster# to stretch, 0:Create a new chain */
+)
+{
+	DWORD cs, ncl, scl;
+	FRESULT res;
+	FATFS *fs = obj->fs;
+
+
+	if (clst == 0) {	/* Create a new chain */
+		scl = fs->last_clst;				/* Suggested cluster to start to find */
+		if (scl == 0 || scl >= fs->n_fatent) scl = 1;
+	}
+	else {				/* Stretch a chain */
+		cs = get_fat(obj, clst);			/* Check the cluster status */
+		if (cs < 2) return 1;				/* Test for insanity */
+		if (cs == 0xFFFFFFFF) return cs;	/* Test for disk error */
+		if (cs < fs->n_fatent) return cs;	/* It is already followed by next cluster */
+		scl = clst;							/* Cluster to start to find */
+	}
+	if (fs->free_clst == 0) return 0;		/* No free cluster */
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		ncl = find_bitmap(fs, scl, 1);				/* Find a free cluster */
+		if (ncl == 0 || ncl == 0xFFFFFFFF) return ncl;	/* No free cluster or hard error? */
+		res = change_bitmap(fs, ncl, 1, 1);			/* Mark the cluster 'in use' */
+		if (res == FR_INT_ERR) return 1;
+		if (res == FR_DISK_ERR) return 0xFFFFFFFF;
+		if (clst == 0) {							/* Is it a new chain? */
+			obj->stat = 2;							/* Set status 'contiguous' */
+		} else {									/* It is a stretched chain */
+			if (obj->stat == 2 && ncl != scl + 1) {	/* Is the chain got fragmented? */
+				obj->n_cont = scl - obj->sclust;	/* Set size of the contiguous part */
+				obj->stat = 3;						/* Change status 'just fragmented' */
+			}
+		}
+		if (obj->stat != 2) {	/* Is the file non-contiguous? */
+			if (ncl == clst + 1) {	/* Is the cluster next to previous one? */
+				obj->n_frag = obj->n_frag ? obj->n_frag + 1 : 2;	/* Increment size of last framgent */
+			} else {				/* New fragment */
+				if (obj->n_frag == 0) obj->n_frag = 1;
+				res = fill_last_frag(obj, clst, ncl);	/* Fill last fragment on the FAT and link it to new one */
+				if (res == FR_OK) obj->n_frag = 1;
+			}
+		}
+	} else
+#endif
+	{	/* On the FAT/FAT32 volume */
+		ncl = 0;
+		if (scl == clst) {						/* Stretching an existing chain? */
+			ncl = scl + 1;						/* Test if next cluster is free */
+			if (ncl >= fs->n_fatent) ncl = 2;
+			cs = get_fat(obj, ncl);				/* Get next cluster status */
+			if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
+			if (cs != 0) {						/* Not free? */
+				cs = fs->last_clst;				/* Start at suggested cluster if it is valid */
+				if (cs >= 2 && cs < fs->n_fatent) scl = cs;
+				ncl = 0;
+			}
+		}
+		if (ncl == 0) {	/* The new cluster cannot be contiguous and find another fragment */
+			ncl = scl;	/* Start cluster */
+			for (;;) {
+				ncl++;							/* Next cluster */
+				if (ncl >= fs->n_fatent) {		/* Check wrap-around */
+					ncl = 2;
+					if (ncl > scl) return 0;	/* No free cluster found? */
+				}
+				cs = get_fat(obj, ncl);			/* Get the cluster status */
+				if (cs == 0) break;				/* Found a free cluster? */
+				if (cs == 1 || cs == 0xFFFFFFFF) return cs;	/* Test for error */
+				if (ncl == scl) return 0;		/* No free cluster found? */
+			}
+		}
+		res = put_fat(fs, ncl, 0xFFFFFFFF);		/* Mark the new cluster 'EOC' */
+		if (res == FR_OK && clst != 0) {
+			res = put_fat(fs, clst, ncl);		/* Link it from the previous one if needed */
+		}
+	}
+
+	if (res == FR_OK) {			/* Update FSINFO if function succeeded. */
+		fs->last_clst = ncl;
+		if (fs->free_clst <= fs->n_fatent - 2) fs->free_clst--;
+		fs->fsi_flag |= 1;
+	} else {
+		ncl = (res == FR_DISK_ERR) ? 0xFFFFFFFF : 1;	/* Failed. Generate error status */
+	}
+
+	return ncl;		/* Return new cluster number or error status */
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+
+#if FF_USE_FASTSEEK
+/*-----------------------------------------------------------------------*/
+/* FAT handling - Convert offset into cluster with link map table        */
+/*-----------------------------------------------------------------------*/
+
+static DWORD clmt_clust (	/* <2:Error, >=2:Cluster number */
+	FIL* fp,		/* Pointer to the file object */
+	FSIZE_t ofs		/* File offset to be converted to cluster# */
+)
+{
+	DWORD cl, ncl, *tbl;
+	FATFS *fs = fp->obj.fs;
+
+
+	tbl = fp->cltbl + 1;	/* Top of CLMT */
+	cl = (DWORD)(ofs / SS(fs) / fs->csize);	/* Cluster order from top of the file */
+	for (;;) {
+		ncl = *tbl++;			/* Number of cluters in the fragment */
+		if (ncl == 0) return 0;	/* End of table? (error) */
+		if (cl < ncl) break;	/* In this fragment? */
+		cl -= ncl; tbl++;		/* Next fragment */
+	}
+	return cl + *tbl;	/* Return the cluster number */
+}
+
+#endif	/* FF_USE_FASTSEEK */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Fill a cluster with zeros                        */
+/*-----------------------------------------------------------------------*/
+
+#if !FF_FS_READONLY
+static FRESULT dir_clear (	/* Returns FR_OK or FR_DISK_ERR */
+	FATFS *fs,		/* Filesystem object */
+	DWORD clst		/* Directory table to clear */
+)
+{
+	LBA_t sect;
+	UINT n, szb;
+	BYTE *ibuf;
+
+
+	if (sync_window(fs) != FR_OK) return FR_DISK_ERR;	/* Flush disk access window */
+	sect = clst2sect(fs, clst);		/* Top of the cluster */
+	fs->winsect = sect;				/* Set window to top of the cluster */
+	memset(fs->win, 0, sizeof fs->win);	/* Clear window buffer */
+#if FF_USE_LFN == 3		/* Quick table clear by using multi-secter write */
+	/* Allocate a temporary buffer */
+	for (szb = ((DWORD)fs->csize * SS(fs) >= MAX_MALLOC) ? MAX_MALLOC : fs->csize * SS(fs), ibuf = 0; szb > SS(fs) && (ibuf = ff_memalloc(szb)) == 0; szb /= 2) ;
+	if (szb > SS(fs)) {		/* Buffer allocated? */
+		memset(ibuf, 0, szb);
+		szb /= SS(fs);		/* Bytes -> Sectors */
+		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
+		ff_memfree(ibuf);
+	} else
+#endif
+	{
+		ibuf = fs->win; szb = 1;	/* Use window buffer (many single-sector writes may take a time) */
+		for (n = 0; n < fs->csize && disk_write(fs->pdrv, ibuf, sect + n, szb) == RES_OK; n += szb) ;	/* Fill the cluster with 0 */
+	}
+	return (n == fs->csize) ? FR_OK : FR_DISK_ERR;
+}
+#endif	/* !FF_FS_READONLY */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Set directory index                              */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_sdi (	/* FR_OK(0):succeeded, !=0:error */
+	DIR* dp,		/* Pointer to directory object */
+	DWORD ofs		/* Offset of directory table */
+)
+{
+	DWORD csz, clst;
+	FATFS *fs = dp->obj.fs;
+
+
+	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR) || ofs % SZDIRE) {	/* Check range of offset and alignment */
+		return FR_INT_ERR;
+	}
+	dp->dptr = ofs;				/* Set current offset */
+	clst = dp->obj.sclust;		/* Table start cluster (0:root) */
+	if (clst == 0 && fs->fs_type >= FS_FAT32) {	/* Replace cluster# 0 with root cluster# */
+		clst = (DWORD)fs->dirbase;
+		if (FF_FS_EXFAT) dp->obj.stat = 0;	/* exFAT: Root dir has an FAT chain */
+	}
+
+	if (clst == 0) {	/* Static table (root-directory on the FAT volume) */
+		if (ofs / SZDIRE >= fs->n_rootdir) return FR_INT_ERR;	/* Is index out of range? */
+		dp->sect = fs->dirbase;
+
+	} else {			/* Dynamic table (sub-directory or root-directory on the FAT32/exFAT volume) */
+		csz = (DWORD)fs->csize * SS(fs);	/* Bytes per cluster */
+		while (ofs >= csz) {				/* Follow cluster chain */
+			clst = get_fat(&dp->obj, clst);				/* Get next cluster */
+			if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
+			if (clst < 2 || clst >= fs->n_fatent) return FR_INT_ERR;	/* Reached to end of table or internal error */
+			ofs -= csz;
+		}
+		dp->sect = clst2sect(fs, clst);
+	}
+	dp->clust = clst;					/* Current cluster# */
+	if (dp->sect == 0) return FR_INT_ERR;
+	dp->sect += ofs / SS(fs);			/* Sector# of the directory entry */
+	dp->dir = fs->win + (ofs % SS(fs));	/* Pointer to the entry in the win[] */
+
+	return FR_OK;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Move directory table index next                  */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_next (	/* FR_OK(0):succeeded, FR_NO_FILE:End of table, FR_DENIED:Could not stretch */
+	DIR* dp,				/* Pointer to the directory object */
+	int stretch				/* 0: Do not stretch table, 1: Stretch table if needed */
+)
+{
+	DWORD ofs, clst;
+	FATFS *fs = dp->obj.fs;
+
+
+	ofs = dp->dptr + SZDIRE;	/* Next entry */
+	if (ofs >= (DWORD)((FF_FS_EXFAT && fs->fs_type == FS_EXFAT) ? MAX_DIR_EX : MAX_DIR)) dp->sect = 0;	/* Disable it if the offset reached the max value */
+	if (dp->sect == 0) return FR_NO_FILE;	/* Report EOT if it has been disabled */
+
+	if (ofs % SS(fs) == 0) {	/* Sector changed? */
+		dp->sect++;				/* Next sector */
+
+		if (dp->clust == 0) {	/* Static table */
+			if (ofs / SZDIRE >= fs->n_rootdir) {	/* Report EOT if it reached end of static table */
+				dp->sect = 0; return FR_NO_FILE;
+			}
+		}
+		else {					/* Dynamic table */
+			if ((ofs / SS(fs) & (fs->csize - 1)) == 0) {	/* Cluster changed? */
+				clst = get_fat(&dp->obj, dp->clust);		/* Get next cluster */
+				if (clst <= 1) return FR_INT_ERR;			/* Internal error */
+				if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
+				if (clst >= fs->n_fatent) {					/* It reached end of dynamic table */
+#if !FF_FS_READONLY
+					if (!stretch) {								/* If no stretch, report EOT */
+						dp->sect = 0; return FR_NO_FILE;
+					}
+					clst = create_chain(&dp->obj, dp->clust);	/* Allocate a cluster */
+					if (clst == 0) return FR_DENIED;			/* No free cluster */
+					if (clst == 1) return FR_INT_ERR;			/* Internal error */
+					if (clst == 0xFFFFFFFF) return FR_DISK_ERR;	/* Disk error */
+					if (dir_clear(fs, clst) != FR_OK) return FR_DISK_ERR;	/* Clean up the stretched table */
+					if (FF_FS_EXFAT) dp->obj.stat |= 4;			/* exFAT: The directory has been stretched */
+#else
+					if (!stretch) dp->sect = 0;					/* (this line is to suppress compiler warning) */
+					dp->sect = 0; return FR_NO_FILE;			/* Report EOT */
+#endif
+				}
+				dp->clust = clst;		/* Initialize data for new cluster */
+				dp->sect = clst2sect(fs, clst);
+			}
+		}
+	}
+	dp->dptr = ofs;						/* Current entry */
+	dp->dir = fs->win + ofs % SS(fs);	/* Pointer to the entry in the win[] */
+
+	return FR_OK;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Reserve a block of directory entries             */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_alloc (	/* FR_OK(0):succeeded, !=0:error */
+	DIR* dp,				/* Pointer to the directory object */
+	UINT n_ent				/* Number of contiguous entries to allocate */
+)
+{
+	FRESULT res;
+	UINT n;
+	FATFS *fs = dp->obj.fs;
+
+
+	res = dir_sdi(dp, 0);
+	if (res == FR_OK) {
+		n = 0;
+		do {
+			res = move_window(fs, dp->sect);
+			if (res != FR_OK) break;
+#if FF_FS_EXFAT
+			if ((fs->fs_type == FS_EXFAT) ? (int)((dp->dir[XDIR_Type] & 0x80) == 0) : (int)(dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0)) {	/* Is the entry free? */
+#else
+			if (dp->dir[DIR_Name] == DDEM || dp->dir[DIR_Name] == 0) {	/* Is the entry free? */
+#endif
+				if (++n == n_ent) break;	/* Is a block of contiguous free entries found? */
+			} else {
+				n = 0;				/* Not a free entry, restart to search */
+			}
+			res = dir_next(dp, 1);	/* Next entry with table stretch enabled */
+		} while (res == FR_OK);
+	}
+
+	if (res == FR_NO_FILE) res = FR_DENIED;	/* No directory entry to allocate */
+	return res;
+}
+
+#endif	/* !FF_FS_READONLY */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* FAT: Directory handling - Load/Store start cluster number             */
+/*-----------------------------------------------------------------------*/
+
+static DWORD ld_clust (	/* Returns the top cluster value of the SFN entry */
+	FATFS* fs,			/* Pointer to the fs object */
+	const BYTE* dir		/* Pointer to the key entry */
+)
+{
+	DWORD cl;
+
+	cl = ld_word(dir + DIR_FstClusLO);
+	if (fs->fs_type == FS_FAT32) {
+		cl |= (DWORD)ld_word(dir + DIR_FstClusHI) << 16;
+	}
+
+	return cl;
+}
+
+
+#if !FF_FS_READONLY
+static void st_clust (
+	FATFS* fs,	/* Pointer to the fs object */
+	BYTE* dir,	/* Pointer to the key entry */
+	DWORD cl	/* Value to be set */
+)
+{
+	st_word(dir + DIR_FstClusLO, (WORD)cl);
+	if (fs->fs_type == FS_FAT32) {
+		st_word(dir + DIR_FstClusHI, (WORD)(cl >> 16));
+	}
+}
+#endif
+
+
+
+#if FF_USE_LFN
+/*--------------------------------------------------------*/
+/* FAT-LFN: Compare a part of file name with an LFN entry */
+/*--------------------------------------------------------*/
+
+static int cmp_lfn (		/* 1:matched, 0:not matched */
+	const WCHAR* lfnbuf,	/* Pointer to the LFN working buffer to be compared */
+	BYTE* dir				/* Pointer to the directory entry containing the part of LFN */
+)
+{
+	UINT i, s;
+	WCHAR wc, uc;
+
+
+	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO */
+
+	i = ((dir[LDIR_Ord] & 0x3F) - 1) * 13;	/* Offset in the LFN buffer */
+
+	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
+		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
+		if (wc != 0) {
+			if (i >= FF_MAX_LFN + 1 || ff_wtoupper(uc) != ff_wtoupper(lfnbuf[i++])) {	/* Compare it */
+				return 0;					/* Not matched */
+			}
+			wc = uc;
+		} else {
+			if (uc != 0xFFFF) return 0;		/* Check filler */
+		}
+	}
+
+	if ((dir[LDIR_Ord] & LLEF) && wc && lfnbuf[i]) return 0;	/* Last segment matched but different length */
+
+	return 1;		/* The part of LFN matched */
+}
+
+
+#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
+/*-----------------------------------------------------*/
+/* FAT-LFN: Pick a part of file name from an LFN entry */
+/*-----------------------------------------------------*/
+
+static int pick_lfn (	/* 1:succeeded, 0:buffer overflow or invalid LFN entry */
+	WCHAR* lfnbuf,		/* Pointer to the LFN working buffer */
+	BYTE* dir			/* Pointer to the LFN entry */
+)
+{
+	UINT i, s;
+	WCHAR wc, uc;
+
+
+	if (ld_word(dir + LDIR_FstClusLO) != 0) return 0;	/* Check LDIR_FstClusLO is 0 */
+
+	i = ((dir[LDIR_Ord] & ~LLEF) - 1) * 13;	/* Offset in the LFN buffer */
+
+	for (wc = 1, s = 0; s < 13; s++) {		/* Process all characters in the entry */
+		uc = ld_word(dir + LfnOfs[s]);		/* Pick an LFN character */
+		if (wc != 0) {
+			if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
+			lfnbuf[i++] = wc = uc;			/* Store it */
+		} else {
+			if (uc != 0xFFFF) return 0;		/* Check filler */
+		}
+	}
+
+	if (dir[LDIR_Ord] & LLEF && wc != 0) {	/* Put terminator if it is the last LFN part and not terminated */
+		if (i >= FF_MAX_LFN + 1) return 0;	/* Buffer overflow? */
+		lfnbuf[i] = 0;
+	}
+
+	return 1;		/* The part of LFN is valid */
+}
+#endif
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------*/
+/* FAT-LFN: Create an entry of LFN entries */
+/*-----------------------------------------*/
+
+static void put_lfn (
+	const WCHAR* lfn,	/* Pointer to the LFN */
+	BYTE* dir,			/* Pointer to the LFN entry to be created */
+	BYTE ord,			/* LFN order (1-20) */
+	BYTE sum			/* Checksum of the corresponding SFN */
+)
+{
+	UINT i, s;
+	WCHAR wc;
+
+
+	dir[LDIR_Chksum] = sum;			/* Set checksum */
+	dir[LDIR_Attr] = AM_LFN;		/* Set attribute. LFN entry */
+	dir[LDIR_Type] = 0;
+	st_word(dir + LDIR_FstClusLO, 0);
+
+	i = (ord - 1) * 13;				/* Get offset in the LFN working buffer */
+	s = wc = 0;
+	do {
+		if (wc != 0xFFFF) wc = lfn[i++];	/* Get an effective character */
+		st_word(dir + LfnOfs[s], wc);		/* Put it */
+		if (wc == 0) wc = 0xFFFF;			/* Padding characters for following items */
+	} while (++s < 13);
+	if (wc == 0xFFFF || !lfn[i]) ord |= LLEF;	/* Last LFN part is the start of LFN sequence */
+	dir[LDIR_Ord] = ord;			/* Set the LFN order */
+}
+
+#endif	/* !FF_FS_READONLY */
+#endif	/* FF_USE_LFN */
+
+
+
+#if FF_USE_LFN && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* FAT-LFN: Create a Numbered SFN                                        */
+/*-----------------------------------------------------------------------*/
+
+static void gen_numname (
+	BYTE* dst,			/* Pointer to the buffer to store numbered SFN */
+	const BYTE* src,	/* Pointer to SFN in directory form */
+	const WCHAR* lfn,	/* Pointer to LFN */
+	UINT seq			/* Sequence number */
+)
+{
+	BYTE ns[8], c;
+	UINT i, j;
+	WCHAR wc;
+	DWORD sreg;
+
+
+	memcpy(dst, src, 11);	/* Prepare the SFN to be modified */
+
+	if (seq > 5) {	/* In case of many collisions, generate a hash number instead of sequential number */
+		sreg = seq;
+		while (*lfn) {	/* Create a CRC as hash value */
+			wc = *lfn++;
+			for (i = 0; i < 16; i++) {
+				sreg = (sreg << 1) + (wc & 1);
+				wc >>= 1;
+				if (sreg & 0x10000) sreg ^= 0x11021;
+			}
+		}
+		seq = (UINT)sreg;
+	}
+
+	/* Make suffix (~ + hexdecimal) */
+	i = 7;
+	do {
+		c = (BYTE)((seq % 16) + '0'); seq /= 16;
+		if (c > '9') c += 7;
+		ns[i--] = c;
+	} while (i && seq);
+	ns[i] = '~';
+
+	/* Append the suffix to the SFN body */
+	for (j = 0; j < i && dst[j] != ' '; j++) {	/* Find the offset to append */
+		if (dbc_1st(dst[j])) {	/* To avoid DBC break up */
+			if (j == i - 1) break;
+			j++;
+		}
+	}
+	do {	/* Append the suffix */
+		dst[j++] = (i < 8) ? ns[i++] : ' ';
+	} while (j < 8);
+}
+#endif	/* FF_USE_LFN && !FF_FS_READONLY */
+
+
+
+#if FF_USE_LFN
+/*-----------------------------------------------------------------------*/
+/* FAT-LFN: Calculate checksum of an SFN entry                           */
+/*-----------------------------------------------------------------------*/
+
+static BYTE sum_sfn (
+	const BYTE* dir		/* Pointer to the SFN entry */
+)
+{
+	BYTE sum = 0;
+	UINT n = 11;
+
+	do {
+		sum = (sum >> 1) + (sum << 7) + *dir++;
+	} while (--n);
+	return sum;
+}
+
+#endif	/* FF_USE_LFN */
+
+
+
+#if FF_FS_EXFAT
+/*-----------------------------------------------------------------------*/
+/* exFAT: Checksum                                                       */
+/*-----------------------------------------------------------------------*/
+
+static WORD xdir_sum (	/* Get checksum of the directoly entry block */
+	const BYTE* dir		/* Directory entry block to be calculated */
+)
+{
+	UINT i, szblk;
+	WORD sum;
+
+
+	szblk = (dir[XDIR_NumSec] + 1) * SZDIRE;	/* Number of bytes of the entry block */
+	for (i = sum = 0; i < szblk; i++) {
+		if (i == XDIR_SetSum) {	/* Skip 2-byte sum field */
+			i++;
+		} else {
+			sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + dir[i];
+		}
+	}
+	return sum;
+}
+
+
+
+static WORD xname_sum (	/* Get check sum (to be used as hash) of the file name */
+	const WCHAR* name	/* File name to be calculated */
+)
+{
+	WCHAR chr;
+	WORD sum = 0;
+
+
+	while ((chr = *name++) != 0) {
+		chr = (WCHAR)ff_wtoupper(chr);		/* File name needs to be up-case converted */
+		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr & 0xFF);
+		sum = ((sum & 1) ? 0x8000 : 0) + (sum >> 1) + (chr >> 8);
+	}
+	return sum;
+}
+
+
+#if !FF_FS_READONLY && FF_USE_MKFS
+static DWORD xsum32 (	/* Returns 32-bit checksum */
+	BYTE  dat,			/* Byte to be calculated (byte-by-byte processing) */
+	DWORD sum			/* Previous sum value */
+)
+{
+	sum = ((sum & 1) ? 0x80000000 : 0) + (sum >> 1) + dat;
+	return sum;
+}
+#endif
+
+
+
+/*-----------------------------------*/
+/* exFAT: Get a directry entry block */
+/*-----------------------------------*/
+
+static FRESULT load_xdir (	/* FR_INT_ERR: invalid entry block */
+	DIR* dp					/* Reading direcotry object pointing top of the entry block to load */
+)
+{
+	FRESULT res;
+	UINT i, sz_ent;
+	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the on-memory direcotry entry block 85+C0+C1s */
+
+
+	/* Load file directory entry */
+	res = move_window(dp->obj.fs, dp->sect);
+	if (res != FR_OK) return res;
+	if (dp->dir[XDIR_Type] != ET_FILEDIR) return FR_INT_ERR;	/* Invalid order */
+	memcpy(dirb + 0 * SZDIRE, dp->dir, SZDIRE);
+	sz_ent = (dirb[XDIR_NumSec] + 1) * SZDIRE;
+	if (sz_ent < 3 * SZDIRE || sz_ent > 19 * SZDIRE) return FR_INT_ERR;
+
+	/* Load stream extension entry */
+	res = dir_next(dp, 0);
+	if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
+	if (res != FR_OK) return res;
+	res = move_window(dp->obj.fs, dp->sect);
+	if (res != FR_OK) return res;
+	if (dp->dir[XDIR_Type] != ET_STREAM) return FR_INT_ERR;	/* Invalid order */
+	memcpy(dirb + 1 * SZDIRE, dp->dir, SZDIRE);
+	if (MAXDIRB(dirb[XDIR_NumName]) > sz_ent) return FR_INT_ERR;
+
+	/* Load file name entries */
+	i = 2 * SZDIRE;	/* Name offset to load */
+	do {
+		res = dir_next(dp, 0);
+		if (res == FR_NO_FILE) res = FR_INT_ERR;	/* It cannot be */
+		if (res != FR_OK) return res;
+		res = move_window(dp->obj.fs, dp->sect);
+		if (res != FR_OK) return res;
+		if (dp->dir[XDIR_Type] != ET_FILENAME) return FR_INT_ERR;	/* Invalid order */
+		if (i < MAXDIRB(FF_MAX_LFN)) memcpy(dirb + i, dp->dir, SZDIRE);
+	} while ((i += SZDIRE) < sz_ent);
+
+	/* Sanity check (do it for only accessible object) */
+	if (i <= MAXDIRB(FF_MAX_LFN)) {
+		if (xdir_sum(dirb) != ld_word(dirb + XDIR_SetSum)) return FR_INT_ERR;
+	}
+	return FR_OK;
+}
+
+
+/*------------------------------------------------------------------*/
+/* exFAT: Initialize object allocation info with loaded entry block */
+/*------------------------------------------------------------------*/
+
+static void init_alloc_info (
+	FATFS* fs,		/* Filesystem object */
+	FFOBJID* obj	/* Object allocation information to be initialized */
+)
+{
+	obj->sclust = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Start cluster */
+	obj->objsize = ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
+	obj->stat = fs->dirbuf[XDIR_GenFlags] & 2;				/* Allocation status */
+	obj->n_frag = 0;										/* No last fragment info */
+}
+
+
+
+#if !FF_FS_READONLY || FF_FS_RPATH != 0
+/*------------------------------------------------*/
+/* exFAT: Load the object's directory entry block */
+/*------------------------------------------------*/
+
+static FRESULT load_obj_xdir (
+	DIR* dp,			/* Blank directory object to be used to access containing direcotry */
+	const FFOBJID* obj	/* Object with its containing directory information */
+)
+{
+	FRESULT res;
+
+	/* Open object containing directory */
+	dp->obj.fs = obj->fs;
+	dp->obj.sclust = obj->c_scl;
+	dp->obj.stat = (BYTE)obj->c_size;
+	dp->obj.objsize = obj->c_size & 0xFFFFFF00;
+	dp->obj.n_frag = 0;
+	dp->blk_ofs = obj->c_ofs;
+
+	res = dir_sdi(dp, dp->blk_ofs);	/* Goto object's entry block */
+	if (res == FR_OK) {
+		res = load_xdir(dp);		/* Load the object's entry block */
+	}
+	return res;
+}
+#endif
+
+
+#if !FF_FS_READONLY
+/*----------------------------------------*/
+/* exFAT: Store the directory entry block */
+/*----------------------------------------*/
+
+static FRESULT store_xdir (
+	DIR* dp				/* Pointer to the direcotry object */
+)
+{
+	FRESULT res;
+	UINT nent;
+	BYTE *dirb = dp->obj.fs->dirbuf;	/* Pointer to the direcotry entry block 85+C0+C1s */
+
+	/* Create set sum */
+	st_word(dirb + XDIR_SetSum, xdir_sum(dirb));
+	nent = dirb[XDIR_NumSec] + 1;
+
+	/* Store the direcotry entry block to the directory */
+	res = dir_sdi(dp, dp->blk_ofs);
+	while (res == FR_OK) {
+		res = move_window(dp->obj.fs, dp->sect);
+		if (res != FR_OK) break;
+		memcpy(dp->dir, dirb, SZDIRE);
+		dp->obj.fs->wflag = 1;
+		if (--nent == 0) break;
+		dirb += SZDIRE;
+		res = dir_next(dp, 0);
+	}
+	return (res == FR_OK || res == FR_DISK_ERR) ? res : FR_INT_ERR;
+}
+
+
+
+/*-------------------------------------------*/
+/* exFAT: Create a new directory enrty block */
+/*-------------------------------------------*/
+
+static void create_xdir (
+	BYTE* dirb,			/* Pointer to the direcotry entry block buffer */
+	const WCHAR* lfn	/* Pointer to the object name */
+)
+{
+	UINT i;
+	BYTE nc1, nlen;
+	WCHAR wc;
+
+
+	/* Create file-directory and stream-extension entry */
+	memset(dirb, 0, 2 * SZDIRE);
+	dirb[0 * SZDIRE + XDIR_Type] = ET_FILEDIR;
+	dirb[1 * SZDIRE + XDIR_Type] = ET_STREAM;
+
+	/* Create file-name entries */
+	i = SZDIRE * 2;	/* Top of file_name entries */
+	nlen = nc1 = 0; wc = 1;
+	do {
+		dirb[i++] = ET_FILENAME; dirb[i++] = 0;
+		do {	/* Fill name field */
+			if (wc != 0 && (wc = lfn[nlen]) != 0) nlen++;	/* Get a character if exist */
+			st_word(dirb + i, wc); 	/* Store it */
+			i += 2;
+		} while (i % SZDIRE != 0);
+		nc1++;
+	} while (lfn[nlen]);	/* Fill next entry if any char follows */
+
+	dirb[XDIR_NumName] = nlen;		/* Set name length */
+	dirb[XDIR_NumSec] = 1 + nc1;	/* Set secondary count (C0 + C1s) */
+	st_word(dirb + XDIR_NameHash, xname_sum(lfn));	/* Set name hash */
+}
+
+#endif	/* !FF_FS_READONLY */
+#endif	/* FF_FS_EXFAT */
+
+
+
+#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 || FF_USE_LABEL || FF_FS_EXFAT
+/*-----------------------------------------------------------------------*/
+/* Read an object from the directory                                     */
+/*-----------------------------------------------------------------------*/
+
+#define DIR_READ_FILE(dp) dir_read(dp, 0)
+#define DIR_READ_LABEL(dp) dir_read(dp, 1)
+
+static FRESULT dir_read (
+	DIR* dp,		/* Pointer to the directory object */
+	int vol			/* Filtered by 0:file/directory or 1:volume label */
+)
+{
+	FRESULT res = FR_NO_FILE;
+	FATFS *fs = dp->obj.fs;
+	BYTE attr, b;
+#if FF_USE_LFN
+	BYTE ord = 0xFF, sum = 0xFF;
+#endif
+
+	while (dp->sect) {
+		res = move_window(fs, dp->sect);
+		if (res != FR_OK) break;
+		b = dp->dir[DIR_Name];	/* Test for the entry type */
+		if (b == 0) {
+			res = FR_NO_FILE; break; /* Reached to end of the directory */
+		}
+#if FF_FS_EXFAT
+		if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+			if (FF_USE_LABEL && vol) {
+				if (b == ET_VLABEL) break;	/* Volume label entry? */
+			} else {
+				if (b == ET_FILEDIR) {		/* Start of the file entry block? */
+					dp->blk_ofs = dp->dptr;	/* Get location of the block */
+					res = load_xdir(dp);	/* Load the entry block */
+					if (res == FR_OK) {
+						dp->obj.attr = fs->dirbuf[XDIR_Attr] & AM_MASK;	/* Get attribute */
+					}
+					break;
+				}
+			}
+		} else
+#endif
+		{	/* On the FAT/FAT32 volume */
+			dp->obj.attr = attr = dp->dir[DIR_Attr] & AM_MASK;	/* Get attribute */
+#if FF_USE_LFN		/* LFN configuration */
+			if (b == DDEM || b == '.' || (int)((attr & ~AM_ARC) == AM_VOL) != vol) {	/* An entry without valid data */
+				ord = 0xFF;
+			} else {
+				if (attr == AM_LFN) {	/* An LFN entry is found */
+					if (b & LLEF) {		/* Is it start of an LFN sequence? */
+						sum = dp->dir[LDIR_Chksum];
+						b &= (BYTE)~LLEF; ord = b;
+						dp->blk_ofs = dp->dptr;
+					}
+					/* Check LFN validity and capture it */
+					ord = (b == ord && sum == dp->dir[LDIR_Chksum] && pick_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
+				} else {				/* An SFN entry is found */
+					if (ord != 0 || sum != sum_sfn(dp->dir)) {	/* Is there a valid LFN? */
+						dp->blk_ofs = 0xFFFFFFFF;	/* It has no LFN. */
+					}
+					break;
+				}
+			}
+#else		/* Non LFN configuration */
+			if (b != DDEM && b != '.' && attr != AM_LFN && (int)((attr & ~AM_ARC) == AM_VOL) == vol) {	/* Is it a valid entry? */
+				break;
+			}
+#endif
+		}
+		res = dir_next(dp, 0);		/* Next entry */
+		if (res != FR_OK) break;
+	}
+
+	if (res != FR_OK) dp->sect = 0;		/* Terminate the read operation on error or EOT */
+	return res;
+}
+
+#endif	/* FF_FS_MINIMIZE <= 1 || FF_USE_LABEL || FF_FS_RPATH >= 2 */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Directory handling - Find an object in the directory                  */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_find (	/* FR_OK(0):succeeded, !=0:error */
+	DIR* dp					/* Pointer to the directory object with the file name */
+)
+{
+	FRESULT res;
+	FATFS *fs = dp->obj.fs;
+	BYTE c;
+#if FF_USE_LFN
+	BYTE a, ord, sum;
+#endif
+
+	res = dir_sdi(dp, 0);			/* Rewind directory object */
+	if (res != FR_OK) return res;
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		BYTE nc;
+		UINT di, ni;
+		WORD hash = xname_sum(fs->lfnbuf);		/* Hash value of the name to find */
+
+		while ((res = DIR_READ_FILE(dp)) == FR_OK) {	/* Read an item */
+#if FF_MAX_LFN < 255
+			if (fs->dirbuf[XDIR_NumName] > FF_MAX_LFN) continue;		/* Skip comparison if inaccessible object name */
+#endif
+			if (ld_word(fs->dirbuf + XDIR_NameHash) != hash) continue;	/* Skip comparison if hash mismatched */
+			for (nc = fs->dirbuf[XDIR_NumName], di = SZDIRE * 2, ni = 0; nc; nc--, di += 2, ni++) {	/* Compare the name */
+				if ((di % SZDIRE) == 0) di += 2;
+				if (ff_wtoupper(ld_word(fs->dirbuf + di)) != ff_wtoupper(fs->lfnbuf[ni])) break;
+			}
+			if (nc == 0 && !fs->lfnbuf[ni]) break;	/* Name matched? */
+		}
+		return res;
+	}
+#endif
+	/* On the FAT/FAT32 volume */
+#if FF_USE_LFN
+	ord = sum = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
+#endif
+	do {
+		res = move_window(fs, dp->sect);
+		if (res != FR_OK) break;
+		c = dp->dir[DIR_Name];
+		if (c == 0) { res = FR_NO_FILE; break; }	/* Reached to end of table */
+#if FF_USE_LFN		/* LFN configuration */
+		dp->obj.attr = a = dp->dir[DIR_Attr] & AM_MASK;
+		if (c == DDEM || ((a & AM_VOL) && a != AM_LFN)) {	/* An entry without valid data */
+			ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
+		} else {
+			if (a == AM_LFN) {			/* An LFN entry is found */
+				if (!(dp->fn[NSFLAG] & NS_NOLFN)) {
+					if (c & LLEF) {		/* Is it start of LFN sequence? */
+						sum = dp->dir[LDIR_Chksum];
+						c &= (BYTE)~LLEF; ord = c;	/* LFN start order */
+						dp->blk_ofs = dp->dptr;	/* Start offset of LFN */
+					}
+					/* Check validity of the LFN entry and compare it with given name */
+					ord = (c == ord && sum == dp->dir[LDIR_Chksum] && cmp_lfn(fs->lfnbuf, dp->dir)) ? ord - 1 : 0xFF;
+				}
+			} else {					/* An SFN entry is found */
+				if (ord == 0 && sum == sum_sfn(dp->dir)) break;	/* LFN matched? */
+				if (!(dp->fn[NSFLAG] & NS_LOSS) && !memcmp(dp->dir, dp->fn, 11)) break;	/* SFN matched? */
+				ord = 0xFF; dp->blk_ofs = 0xFFFFFFFF;	/* Reset LFN sequence */
+			}
+		}
+#else		/* Non LFN configuration */
+		dp->obj.attr = dp->dir[DIR_Attr] & AM_MASK;
+		if (!(dp->dir[DIR_Attr] & AM_VOL) && !memcmp(dp->dir, dp->fn, 11)) break;	/* Is it a valid entry? */
+#endif
+		res = dir_next(dp, 0);	/* Next entry */
+	} while (res == FR_OK);
+
+	return res;
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Register an object to the directory                                   */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_register (	/* FR_OK:succeeded, FR_DENIED:no free entry or too many SFN collision, FR_DISK_ERR:disk error */
+	DIR* dp						/* Target directory with object name to be created */
+)
+{
+	FRESULT res;
+	FATFS *fs = dp->obj.fs;
+#if FF_USE_LFN		/* LFN configuration */
+	UINT n, len, n_ent;
+	BYTE sn[12], sum;
+
+
+	if (dp->fn[NSFLAG] & (NS_DOT | NS_NONAME)) return FR_INVALID_NAME;	/* Check name validity */
+	for (len = 0; fs->lfnbuf[len]; len++) ;	/* Get lfn length */
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		n_ent = (len + 14) / 15 + 2;	/* Number of entries to allocate (85+C0+C1s) */
+		res = dir_alloc(dp, n_ent);		/* Allocate directory entries */
+		if (res != FR_OK) return res;
+		dp->blk_ofs = dp->dptr - SZDIRE * (n_ent - 1);	/* Set the allocated entry block offset */
+
+		if (dp->obj.stat & 4) {			/* Has the directory been stretched by new allocation? */
+			dp->obj.stat &= ~4;
+			res = fill_first_frag(&dp->obj);	/* Fill the first fragment on the FAT if needed */
+			if (res != FR_OK) return res;
+			res = fill_last_frag(&dp->obj, dp->clust, 0xFFFFFFFF);	/* Fill the last fragment on the FAT if needed */
+			if (res != FR_OK) return res;
+			if (dp->obj.sclust != 0) {		/* Is it a sub-directory? */
+				DIR dj;
+
+				res = load_obj_xdir(&dj, &dp->obj);	/* Load the object status */
+				if (res != FR_OK) return res;
+				dp->obj.objsize += (DWORD)fs->csize * SS(fs);		/* Increase the directory size by cluster size */
+				st_qword(fs->dirbuf + XDIR_FileSize, dp->obj.objsize);
+				st_qword(fs->dirbuf + XDIR_ValidFileSize, dp->obj.objsize);
+				fs->dirbuf[XDIR_GenFlags] = dp->obj.stat | 1;		/* Update the allocation status */
+				res = store_xdir(&dj);				/* Store the object status */
+				if (res != FR_OK) return res;
+			}
+		}
+
+		create_xdir(fs->dirbuf, fs->lfnbuf);	/* Create on-memory directory block to be written later */
+		return FR_OK;
+	}
+#endif
+	/* On the FAT/FAT32 volume */
+	memcpy(sn, dp->fn, 12);
+	if (sn[NSFLAG] & NS_LOSS) {			/* When LFN is out of 8.3 format, generate a numbered name */
+		dp->fn[NSFLAG] = NS_NOLFN;		/* Find only SFN */
+		for (n = 1; n < 100; n++) {
+			gen_numname(dp->fn, sn, fs->lfnbuf, n);	/* Generate a numbered name */
+			res = dir_find(dp);				/* Check if the name collides with existing SFN */
+			if (res != FR_OK) break;
+		}
+		if (n == 100) return FR_DENIED;		/* Abort if too many collisions */
+		if (res != FR_NO_FILE) return res;	/* Abort if the result is other than 'not collided' */
+		dp->fn[NSFLAG] = sn[NSFLAG];
+	}
+
+	/* Create an SFN with/without LFNs. */
+	n_ent = (sn[NSFLAG] & NS_LFN) ? (len + 12) / 13 + 1 : 1;	/* Number of entries to allocate */
+	res = dir_alloc(dp, n_ent);		/* Allocate entries */
+	if (res == FR_OK && --n_ent) {	/* Set LFN entry if needed */
+		res = dir_sdi(dp, dp->dptr - n_ent * SZDIRE);
+		if (res == FR_OK) {
+			sum = sum_sfn(dp->fn);	/* Checksum value of the SFN tied to the LFN */
+			do {					/* Store LFN entries in bottom first */
+				res = move_window(fs, dp->sect);
+				if (res != FR_OK) break;
+				put_lfn(fs->lfnbuf, dp->dir, (BYTE)n_ent, sum);
+				fs->wflag = 1;
+				res = dir_next(dp, 0);	/* Next entry */
+			} while (res == FR_OK && --n_ent);
+		}
+	}
+
+#else	/* Non LFN configuration */
+	res = dir_alloc(dp, 1);		/* Allocate an entry for SFN */
+
+#endif
+
+	/* Set SFN entry */
+	if (res == FR_OK) {
+		res = move_window(fs, dp->sect);
+		if (res == FR_OK) {
+			memset(dp->dir, 0, SZDIRE);	/* Clean the entry */
+			memcpy(dp->dir + DIR_Name, dp->fn, 11);	/* Put SFN */
+#if FF_USE_LFN
+			dp->dir[DIR_NTres] = dp->fn[NSFLAG] & (NS_BODY | NS_EXT);	/* Put NT flag */
+#endif
+			fs->wflag = 1;
+		}
+	}
+
+	return res;
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+#if !FF_FS_READONLY && FF_FS_MINIMIZE == 0
+/*-----------------------------------------------------------------------*/
+/* Remove an object from the directory                                   */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT dir_remove (	/* FR_OK:Succeeded, FR_DISK_ERR:A disk error */
+	DIR* dp					/* Directory object pointing the entry to be removed */
+)
+{
+	FRESULT res;
+	FATFS *fs = dp->obj.fs;
+#if FF_USE_LFN		/* LFN configuration */
+	DWORD last = dp->dptr;
+
+	res = (dp->blk_ofs == 0xFFFFFFFF) ? FR_OK : dir_sdi(dp, dp->blk_ofs);	/* Goto top of the entry block if LFN is exist */
+	if (res == FR_OK) {
+		do {
+			res = move_window(fs, dp->sect);
+			if (res != FR_OK) break;
+			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+				dp->dir[XDIR_Type] &= 0x7F;	/* Clear the entry InUse flag. */
+			} else {										/* On the FAT/FAT32 volume */
+				dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'. */
+			}
+			fs->wflag = 1;
+			if (dp->dptr >= last) break;	/* If reached last entry then all entries of the object has been deleted. */
+			res = dir_next(dp, 0);	/* Next entry */
+		} while (res == FR_OK);
+		if (res == FR_NO_FILE) res = FR_INT_ERR;
+	}
+#else			/* Non LFN configuration */
+
+	res = move_window(fs, dp->sect);
+	if (res == FR_OK) {
+		dp->dir[DIR_Name] = DDEM;	/* Mark the entry 'deleted'.*/
+		fs->wflag = 1;
+	}
+#endif
+
+	return res;
+}
+
+#endif /* !FF_FS_READONLY && FF_FS_MINIMIZE == 0 */
+
+
+
+#if FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2
+/*-----------------------------------------------------------------------*/
+/* Get file information from directory entry                             */
+/*-----------------------------------------------------------------------*/
+
+static void get_fileinfo (
+	DIR* dp,			/* Pointer to the directory object */
+	FILINFO* fno		/* Pointer to the file information to be filled */
+)
+{
+	UINT si, di;
+#if FF_USE_LFN
+	BYTE lcf;
+	WCHAR wc, hs;
+	FATFS *fs = dp->obj.fs;
+	UINT nw;
+#else
+	TCHAR c;
+#endif
+
+
+	fno->fname[0] = 0;			/* Invaidate file info */
+	if (dp->sect == 0) return;	/* Exit if read pointer has reached end of directory */
+
+#if FF_USE_LFN		/* LFN configuration */
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* exFAT volume */
+		UINT nc = 0;
+
+		si = SZDIRE * 2; di = 0;	/* 1st C1 entry in the entry block */
+		hs = 0;
+		while (nc < fs->dirbuf[XDIR_NumName]) {
+			if (si >= MAXDIRB(FF_MAX_LFN)) { di = 0; break; }	/* Truncated directory block? */
+			if ((si % SZDIRE) == 0) si += 2;		/* Skip entry type field */
+			wc = ld_word(fs->dirbuf + si); si += 2; nc++;	/* Get a character */
+			if (hs == 0 && IsSurrogate(wc)) {		/* Is it a surrogate? */
+				hs = wc; continue;					/* Get low surrogate */
+			}
+			nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
+			if (nw == 0) { di = 0; break; }			/* Buffer overflow or wrong char? */
+			di += nw;
+			hs = 0;
+		}
+		if (hs != 0) di = 0;					/* Broken surrogate pair? */
+		if (di == 0) fno->fname[di++] = '?';	/* Inaccessible object name? */
+		fno->fname[di] = 0;						/* Terminate the name */
+		fno->altname[0] = 0;					/* exFAT does not support SFN */
+
+		fno->fattrib = fs->dirbuf[XDIR_Attr] & AM_MASKX;		/* Attribute */
+		fno->fsize = (fno->fattrib & AM_DIR) ? 0 : ld_qword(fs->dirbuf + XDIR_FileSize);	/* Size */
+		fno->ftime = ld_word(fs->dirbuf + XDIR_ModTime + 0);	/* Time */
+		fno->fdate = ld_word(fs->dirbuf + XDIR_ModTime + 2);	/* Date */
+		return;
+	} else
+#endif
+	{	/* FAT/FAT32 volume */
+		if (dp->blk_ofs != 0xFFFFFFFF) {	/* Get LFN if available */
+			si = di = 0;
+			hs = 0;
+			while (fs->lfnbuf[si] != 0) {
+				wc = fs->lfnbuf[si++];		/* Get an LFN character (UTF-16) */
+				if (hs == 0 && IsSurrogate(wc)) {	/* Is it a surrogate? */
+					hs = wc; continue;		/* Get low surrogate */
+				}
+				nw = put_utf((DWORD)hs << 16 | wc, &fno->fname[di], FF_LFN_BUF - di);	/* Store it in API encoding */
+				if (nw == 0) { di = 0; break; }	/* Buffer overflow or wrong char? */
+				di += nw;
+				hs = 0;
+			}
+			if (hs != 0) di = 0;	/* Broken surrogate pair? */
+			fno->fname[di] = 0;		/* Terminate the LFN (null string means LFN is invalid) */
+		}
+	}
+
+	si = di = 0;
+	while (si < 11) {		/* Get SFN from SFN entry */
+		wc = dp->dir[si++];			/* Get a char */
+		if (wc == ' ') continue;	/* Skip padding spaces */
+		if (wc == RDDEM) wc = DDEM;	/* Restore replaced DDEM character */
+		if (si == 9 && di < FF_SFN_BUF) fno->altname[di++] = '.';	/* Insert a . if extension is exist */
+#if FF_LFN_UNICODE >= 1	/* Unicode output */
+		if (dbc_1st((BYTE)wc) && si != 8 && si != 11 && dbc_2nd(dp->dir[si])) {	/* Make a DBC if needed */
+			wc = wc << 8 | dp->dir[si++];
+		}
+		wc = ff_oem2uni(wc, CODEPAGE);		/* ANSI/OEM -> Unicode */
+		if (wc == 0) { di = 0; break; }		/* Wrong char in the current code page? */
+		nw = put_utf(wc, &fno->altname[di], FF_SFN_BUF - di);	/* Store it in API encoding */
+		if (nw == 0) { di = 0; break; }		/* Buffer overflow? */
+		di += nw;
+#else					/* ANSI/OEM output */
+		fno->altname[di++] = (TCHAR)wc;	/* Store it without any conversion */
+#endif
+	}
+	fno->altname[di] = 0;	/* Terminate the SFN  (null string means SFN is invalid) */
+
+	if (fno->fname[0] == 0) {	/* If LFN is invalid, altname[] needs to be copied to fname[] */
+		if (di == 0) {	/* If LFN and SFN both are invalid, this object is inaccesible */
+			fno->fname[di++] = '?';
+		} else {
+			for (si = di = 0, lcf = NS_BODY; fno->altname[si]; si++, di++) {	/* Copy altname[] to fname[] with case information */
+				wc = (WCHAR)fno->altname[si];
+				if (wc == '.') lcf = NS_EXT;
+				if (IsUpper(wc) && (dp->dir[DIR_NTres] & lcf)) wc += 0x20;
+				fno->fname[di] = (TCHAR)wc;
+			}
+		}
+		fno->fname[di] = 0;	/* Terminate the LFN */
+		if (!dp->dir[DIR_NTres]) fno->altname[0] = 0;	/* Altname is not needed if neither LFN nor case info is exist. */
+	}
+
+#else	/* Non-LFN configuration */
+	si = di = 0;
+	while (si < 11) {		/* Copy name body and extension */
+		c = (TCHAR)dp->dir[si++];
+		if (c == ' ') continue;		/* Skip padding spaces */
+		if (c == RDDEM) c = DDEM;	/* Restore replaced DDEM character */
+		if (si == 9) fno->fname[di++] = '.';/* Insert a . if extension is exist */
+		fno->fname[di++] = c;
+	}
+	fno->fname[di] = 0;		/* Terminate the SFN */
+#endif
+
+	fno->fattrib = dp->dir[DIR_Attr] & AM_MASK;			/* Attribute */
+	fno->fsize = ld_dword(dp->dir + DIR_FileSize);		/* Size */
+	fno->ftime = ld_word(dp->dir + DIR_ModTime + 0);	/* Time */
+	fno->fdate = ld_word(dp->dir + DIR_ModTime + 2);	/* Date */
+}
+
+#endif /* FF_FS_MINIMIZE <= 1 || FF_FS_RPATH >= 2 */
+
+
+
+#if FF_USE_FIND && FF_FS_MINIMIZE <= 1
+/*-----------------------------------------------------------------------*/
+/* Pattern matching                                                      */
+/*-----------------------------------------------------------------------*/
+
+#define FIND_RECURS	4	/* Maximum number of wildcard terms in the pattern to limit recursion */
+
+
+static DWORD get_achar (	/* Get a character and advance ptr */
+	const TCHAR** ptr		/* Pointer to pointer to the ANSI/OEM or Unicode string */
+)
+{
+	DWORD chr;
+
+
+#if FF_USE_LFN && FF_LFN_UNICODE >= 1	/* Unicode input */
+	chr = tchar2uni(ptr);
+	if (chr == 0xFFFFFFFF) chr = 0;		/* Wrong UTF encoding is recognized as end of the string */
+	chr = ff_wtoupper(chr);
+
+#else									/* ANSI/OEM input */
+	chr = (BYTE)*(*ptr)++;				/* Get a byte */
+	if (IsLower(chr)) chr -= 0x20;		/* To upper ASCII char */
+#if FF_CODE_PAGE == 0
+	if (ExCvt && chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
+#elif FF_CODE_PAGE < 900
+	if (chr >= 0x80) chr = ExCvt[chr - 0x80];	/* To upper SBCS extended char */
+#endif
+#if FF_CODE_PAGE == 0 || FF_CODE_PAGE >= 900
+	if (dbc_1st((BYTE)chr)) {	/* Get DBC 2nd byte if needed */
+		chr = dbc_2nd((BYTE)**ptr) ? chr << 8 | (BYTE)*(*ptr)++ : 0;
+	}
+#endif
+
+#endif
+	return chr;
+}
+
+
+static int pattern_match (	/* 0:mismatched, 1:matched */
+	const TCHAR* pat,	/* Matching pattern */
+	const TCHAR* nam,	/* String to be tested */
+	UINT skip,			/* Number of pre-skip chars (number of ?s, b8:infinite (* specified)) */
+	UINT recur			/* Recursion count */
+)
+{
+	const TCHAR *pptr, *nptr;
+	DWORD pchr, nchr;
+	UINT sk;
+
+
+	while ((skip & 0xFF) != 0) {		/* Pre-skip name chars */
+		if (!get_achar(&nam)) return 0;	/* Branch mismatched if less name chars */
+		skip--;
+	}
+	if (*pat == 0 && skip) return 1;	/* Matched? (short circuit) */
+
+	do {
+		pptr = pat; nptr = nam;			/* Top of pattern and name to match */
+		for (;;) {
+			if (*pptr == '?' || *pptr == '*') {	/* Wildcard term? */
+				if (recur == 0) return 0;	/* Too many wildcard terms? */
+				sk = 0;
+				do {	/* Analyze the wildcard term */
+					if (*pptr++ == '?') sk++; else sk |= 0x100;
+				} while (*pptr == '?' || *pptr == '*');
+				if (pattern_match(pptr, nptr, sk, recur - 1)) return 1;	/* Test new branch (recursive call) */
+				nchr = *nptr; break;	/* Branch mismatched */
+			}
+			pchr = get_achar(&pptr);	/* Get a pattern char */
+			nchr = get_achar(&nptr);	/* Get a name char */
+			if (pchr != nchr) break;	/* Branch mismatched? */
+			if (pchr == 0) return 1;	/* Branch matched? (matched at end of both strings) */
+		}
+		get_achar(&nam);			/* nam++ */
+	} while (skip && nchr);		/* Retry until end of name if infinite search is specified */
+
+	return 0;
+}
+
+#endif /* FF_USE_FIND && FF_FS_MINIMIZE <= 1 */
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Pick a top segment and create the object name in directory form       */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT create_name (	/* FR_OK: successful, FR_INVALID_NAME: could not create */
+	DIR* dp,					/* Pointer to the directory object */
+	const TCHAR** path			/* Pointer to pointer to the segment in the path string */
+)
+{
+#if FF_USE_LFN		/* LFN configuration */
+	BYTE b, cf;
+	WCHAR wc, *lfn;
+	DWORD uc;
+	UINT i, ni, si, di;
+	const TCHAR *p;
+
+
+	/* Create LFN into LFN working buffer */
+	p = *path; lfn = dp->obj.fs->lfnbuf; di = 0;
+	for (;;) {
+		uc = tchar2uni(&p);			/* Get a character */
+		if (uc == 0xFFFFFFFF) return FR_INVALID_NAME;		/* Invalid code or UTF decode error */
+		if (uc >= 0x10000) lfn[di++] = (WCHAR)(uc >> 16);	/* Store high surrogate if needed */
+		wc = (WCHAR)uc;
+		if (wc < ' ' || IsSeparator(wc)) break;	/* Break if end of the path or a separator is found */
+		if (wc < 0x80 && strchr("*:<>|\"\?\x7F", (int)wc)) return FR_INVALID_NAME;	/* Reject illegal characters for LFN */
+		if (di >= FF_MAX_LFN) return FR_INVALID_NAME;	/* Reject too long name */
+		lfn[di++] = wc;				/* Store the Unicode character */
+	}
+	if (wc < ' ') {				/* Stopped at end of the path? */
+		cf = NS_LAST;			/* Last segment */
+	} else {					/* Stopped at a separator */
+		while (IsSeparator(*p)) p++;	/* Skip duplicated separators if exist */
+		cf = 0;					/* Next segment may follow */
+		if (IsTerminator(*p)) cf = NS_LAST;	/* Ignore terminating separator */
+	}
+	*path = p;					/* Return pointer to the next segment */
+
+#if FF_FS_RPATH != 0
+	if ((di == 1 && lfn[di - 1] == '.') ||
+		(di == 2 && lfn[di - 1] == '.' && lfn[di - 2] == '.')) {	/* Is this segment a dot name? */
+		lfn[di] = 0;
+		for (i = 0; i < 11; i++) {	/* Create dot name for SFN entry */
+			dp->fn[i] = (i < di) ? '.' : ' ';
+		}
+		dp->fn[i] = cf | NS_DOT;	/* This is a dot entry */
+		return FR_OK;
+	}
+#endif
+	while (di) {					/* Snip off trailing spaces and dots if exist */
+		wc = lfn[di - 1];
+		if (wc != ' ' && wc != '.') break;
+		di--;
+	}
+	lfn[di] = 0;							/* LFN is created into the working buffer */
+	if (di == 0) return FR_INVALID_NAME;	/* Reject null name */
+
+	/* Create SFN in directory form */
+	for (si = 0; lfn[si] == ' '; si++) ;	/* Remove leading spaces */
+	if (si > 0 || lfn[si] == '.') cf |= NS_LOSS | NS_LFN;	/* Is there any leading space or dot? */
+	while (di > 0 && lfn[di - 1] != '.') di--;	/* Find last dot (di<=si: no extension) */
+
+	memset(dp->fn, ' ', 11);
+	i = b = 0; ni = 8;
+	for (;;) {
+		wc = lfn[si++];					/* Get an LFN character */
+		if (wc == 0) break;				/* Break on end of the LFN */
+		if (wc == ' ' || (wc == '.' && si != di)) {	/* Remove embedded spaces and dots */
+			cf |= NS_LOSS | NS_LFN;
+			continue;
+		}
+
+		if (i >= ni || si == di) {		/* End of field? */
+			if (ni == 11) {				/* Name extension overflow? */
+				cf |= NS_LOSS | NS_LFN;
+				break;
+			}
+			if (si != di) cf |= NS_LOSS | NS_LFN;	/* Name body overflow? */
+			if (si > di) break;						/* No name extension? */
+			si = di; i = 8; ni = 11; b <<= 2;		/* Enter name extension */
+			continue;
+		}
+
+		if (wc >= 0x80) {	/* Is this an extended character? */
+			cf |= NS_LFN;	/* LFN entry needs to be created */
+#if FF_CODE_PAGE == 0
+			if (ExCvt) {	/* In SBCS cfg */
+				wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
+				if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
+			} else {		/* In DBCS cfg */
+				wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
+			}
+#elif FF_CODE_PAGE < 900	/* In SBCS cfg */
+			wc = ff_uni2oem(wc, CODEPAGE);			/* Unicode ==> ANSI/OEM code */
+			if (wc & 0x80) wc = ExCvt[wc & 0x7F];	/* Convert extended character to upper (SBCS) */
+#else						/* In DBCS cfg */
+			wc = ff_uni2oem(ff_wtoupper(wc), CODEPAGE);	/* Unicode ==> Up-convert ==> ANSI/OEM code */
+#endif
+		}
+
+		if (wc >= 0x100) {				/* Is this a DBC? */
+			if (i >= ni - 1) {			/* Field overflow? */
+				cf |= NS_LOSS | NS_LFN;
+				i = ni; continue;		/* Next field */
+			}
+			dp->fn[i++] = (BYTE)(wc >> 8);	/* Put 1st byte */
+		} else {						/* SBC */
+			if (wc == 0 || strchr("+,;=[]", (int)wc)) {	/* Replace illegal characters for SFN */
+				wc = '_'; cf |= NS_LOSS | NS_LFN;/* Lossy conversion */
+			} else {
+				if (IsUpper(wc)) {		/* ASCII upper case? */
+					b |= 2;
+				}
+				if (IsLower(wc)) {		/* ASCII lower case? */
+					b |= 1; wc -= 0x20;
+				}
+			}
+		}
+		dp->fn[i++] = (BYTE)wc;
+	}
+
+	if (dp->fn[0] == DDEM) dp->fn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
+
+	if (ni == 8) b <<= 2;				/* Shift capital flags if no extension */
+	if ((b & 0x0C) == 0x0C || (b & 0x03) == 0x03) cf |= NS_LFN;	/* LFN entry needs to be created if composite capitals */
+	if (!(cf & NS_LFN)) {				/* When LFN is in 8.3 format without extended character, NT flags are created */
+		if (b & 0x01) cf |= NS_EXT;		/* NT flag (Extension has small capital letters only) */
+		if (b & 0x04) cf |= NS_BODY;	/* NT flag (Body has small capital letters only) */
+	}
+
+	dp->fn[NSFLAG] = cf;	/* SFN is created into dp->fn[] */
+
+	return FR_OK;
+
+
+#else	/* FF_USE_LFN : Non-LFN configuration */
+	BYTE c, d, *sfn;
+	UINT ni, si, i;
+	const char *p;
+
+	/* Create file name in directory form */
+	p = *path; sfn = dp->fn;
+	memset(sfn, ' ', 11);
+	si = i = 0; ni = 8;
+#if FF_FS_RPATH != 0
+	if (p[si] == '.') { /* Is this a dot entry? */
+		for (;;) {
+			c = (BYTE)p[si++];
+			if (c != '.' || si >= 3) break;
+			sfn[i++] = c;
+		}
+		if (!IsSeparator(c) && c > ' ') return FR_INVALID_NAME;
+		*path = p + si;					/* Return pointer to the next segment */
+		sfn[NSFLAG] = (c <= ' ') ? NS_LAST | NS_DOT : NS_DOT;	/* Set last segment flag if end of the path */
+		return FR_OK;
+	}
+#endif
+	for (;;) {
+		c = (BYTE)p[si++];				/* Get a byte */
+		if (c <= ' ') break; 			/* Break if end of the path name */
+		if (IsSeparator(c)) {			/* Break if a separator is found */
+			while (IsSeparator(p[si])) si++;	/* Skip duplicated separator if exist */
+			break;
+		}
+		if (c == '.' || i >= ni) {		/* End of body or field overflow? */
+			if (ni == 11 || c != '.') return FR_INVALID_NAME;	/* Field overflow or invalid dot? */
+			i = 8; ni = 11;				/* Enter file extension field */
+			continue;
+		}
+#if FF_CODE_PAGE == 0
+		if (ExCvt && c >= 0x80) {		/* Is SBC extended character? */
+			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
+		}
+#elif FF_CODE_PAGE < 900
+		if (c >= 0x80) {				/* Is SBC extended character? */
+			c = ExCvt[c & 0x7F];		/* To upper SBC extended character */
+		}
+#endif
+		if (dbc_1st(c)) {				/* Check if it is a DBC 1st byte */
+			d = (BYTE)p[si++];			/* Get 2nd byte */
+			if (!dbc_2nd(d) || i >= ni - 1) return FR_INVALID_NAME;	/* Reject invalid DBC */
+			sfn[i++] = c;
+			sfn[i++] = d;
+		} else {						/* SBC */
+			if (strchr("*+,:;<=>[]|\"\?\x7F", (int)c)) return FR_INVALID_NAME;	/* Reject illegal chrs for SFN */
+			if (IsLower(c)) c -= 0x20;	/* To upper */
+			sfn[i++] = c;
+		}
+	}
+	*path = &p[si];						/* Return pointer to the next segment */
+	if (i == 0) return FR_INVALID_NAME;	/* Reject nul string */
+
+	if (sfn[0] == DDEM) sfn[0] = RDDEM;	/* If the first character collides with DDEM, replace it with RDDEM */
+	sfn[NSFLAG] = (c <= ' ' || p[si] <= ' ') ? NS_LAST : 0;	/* Set last segment flag if end of the path */
+
+	return FR_OK;
+#endif /* FF_USE_LFN */
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Follow a file path                                                    */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT follow_path (	/* FR_OK(0): successful, !=0: error code */
+	DIR* dp,					/* Directory object to return last directory and found object */
+	const TCHAR* path			/* Full-path string to find a file or directory */
+)
+{
+	FRESULT res;
+	BYTE ns;
+	FATFS *fs = dp->obj.fs;
+
+
+#if FF_FS_RPATH != 0
+	if (!IsSeparator(*path) && (FF_STR_VOLUME_ID != 2 || !IsTerminator(*path))) {	/* Without heading separator */
+		dp->obj.sclust = fs->cdir;			/* Start at the current directory */
+	} else
+#endif
+	{										/* With heading separator */
+		while (IsSeparator(*path)) path++;	/* Strip separators */
+		dp->obj.sclust = 0;					/* Start from the root directory */
+	}
+#if FF_FS_EXFAT
+	dp->obj.n_frag = 0;	/* Invalidate last fragment counter of the object */
+#if FF_FS_RPATH != 0
+	if (fs->fs_type == FS_EXFAT && dp->obj.sclust) {	/* exFAT: Retrieve the sub-directory's status */
+		DIR dj;
+
+		dp->obj.c_scl = fs->cdc_scl;
+		dp->obj.c_size = fs->cdc_size;
+		dp->obj.c_ofs = fs->cdc_ofs;
+		res = load_obj_xdir(&dj, &dp->obj);
+		if (res != FR_OK) return res;
+		dp->obj.objsize = ld_dword(fs->dirbuf + XDIR_FileSize);
+		dp->obj.stat = fs->dirbuf[XDIR_GenFlags] & 2;
+	}
+#endif
+#endif
+
+	if ((UINT)*path < ' ') {				/* Null path name is the origin directory itself */
+		dp->fn[NSFLAG] = NS_NONAME;
+		res = dir_sdi(dp, 0);
+
+	} else {								/* Follow path */
+		for (;;) {
+			res = create_name(dp, &path);	/* Get a segment name of the path */
+			if (res != FR_OK) break;
+			res = dir_find(dp);				/* Find an object with the segment name */
+			ns = dp->fn[NSFLAG];
+			if (res != FR_OK) {				/* Failed to find the object */
+				if (res == FR_NO_FILE) {	/* Object is not found */
+					if (FF_FS_RPATH && (ns & NS_DOT)) {	/* If dot entry is not exist, stay there */
+						if (!(ns & NS_LAST)) continue;	/* Continue to follow if not last segment */
+						dp->fn[NSFLAG] = NS_NONAME;
+						res = FR_OK;
+					} else {							/* Could not find the object */
+						if (!(ns & NS_LAST)) res = FR_NO_PATH;	/* Adjust error code if not last segment */
+					}
+				}
+				break;
+			}
+			if (ns & NS_LAST) break;		/* Last segment matched. Function completed. */
+			/* Get into the sub-directory */
+			if (!(dp->obj.attr & AM_DIR)) {	/* It is not a sub-directory and cannot follow */
+				res = FR_NO_PATH; break;
+			}
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {	/* Save containing directory information for next dir */
+				dp->obj.c_scl = dp->obj.sclust;
+				dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
+				dp->obj.c_ofs = dp->blk_ofs;
+				init_alloc_info(fs, &dp->obj);	/* Open next directory */
+			} else
+#endif
+			{
+				dp->obj.sclust = ld_clust(fs, fs->win + dp->dptr % SS(fs));	/* Open next directory */
+			}
+		}
+	}
+
+	return res;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Get logical drive number from path name                               */
+/*-----------------------------------------------------------------------*/
+
+static int get_ldnumber (	/* Returns logical drive number (-1:invalid drive number or null pointer) */
+	const TCHAR** path		/* Pointer to pointer to the path name */
+)
+{
+	const TCHAR *tp, *tt;
+	TCHAR tc;
+	int i;
+	int vol = -1;
+#if FF_STR_VOLUME_ID		/* Find string volume ID */
+	const char *sp;
+	char c;
+#endif
+
+	tt = tp = *path;
+	if (!tp) return vol;	/* Invalid path name? */
+	do tc = *tt++; while (!IsTerminator(tc) && tc != ':');	/* Find a colon in the path */
+
+	if (tc == ':') {	/* DOS/Windows style volume ID? */
+		i = FF_VOLUMES;
+		if (IsDigit(*tp) && tp + 2 == tt) {	/* Is there a numeric volume ID + colon? */
+			i = (int)*tp - '0';	/* Get the LD number */
+		}
+#if FF_STR_VOLUME_ID == 1	/* Arbitrary string is enabled */
+		else {
+			i = 0;
+			do {
+				sp = VolumeStr[i]; tp = *path;	/* This string volume ID and path name */
+				do {	/* Compare the volume ID with path name */
+					c = *sp++; tc = *tp++;
+					if (IsLower(c)) c -= 0x20;
+					if (IsLower(tc)) tc -= 0x20;
+				} while (c && (TCHAR)c == tc);
+			} while ((c || tp != tt) && ++i < FF_VOLUMES);	/* Repeat for each id until pattern match */
+		}
+#endif
+		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
+			vol = i;		/* Drive number */
+			*path = tt;		/* Snip the drive prefix off */
+		}
+		return vol;
+	}
+#if FF_STR_VOLUME_ID == 2		/* Unix style volume ID is enabled */
+	if (*tp == '/') {			/* Is there a volume ID? */
+		while (*(tp + 1) == '/') tp++;	/* Skip duplicated separator */
+		i = 0;
+		do {
+			tt = tp; sp = VolumeStr[i]; /* Path name and this string volume ID */
+			do {	/* Compare the volume ID with path name */
+				c = *sp++; tc = *(++tt);
+				if (IsLower(c)) c -= 0x20;
+				if (IsLower(tc)) tc -= 0x20;
+			} while (c && (TCHAR)c == tc);
+		} while ((c || (tc != '/' && !IsTerminator(tc))) && ++i < FF_VOLUMES);	/* Repeat for each ID until pattern match */
+		if (i < FF_VOLUMES) {	/* If a volume ID is found, get the drive number and strip it */
+			vol = i;		/* Drive number */
+			*path = tt;		/* Snip the drive prefix off */
+		}
+		return vol;
+	}
+#endif
+	/* No drive prefix is found */
+#if FF_FS_RPATH != 0
+	vol = CurrVol;	/* Default drive is current drive */
+#else
+	vol = 0;		/* Default drive is 0 */
+#endif
+	return vol;		/* Return the default drive */
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* GPT support functions                                                 */
+/*-----------------------------------------------------------------------*/
+
+#if FF_LBA64
+
+/* Calculate CRC32 in byte-by-byte */
+
+static DWORD crc32 (	/* Returns next CRC value */
+	DWORD crc,			/* Current CRC value */
+	BYTE d				/* A byte to be processed */
+)
+{
+	BYTE b;
+
+
+	for (b = 1; b; b <<= 1) {
+		crc ^= (d & b) ? 1 : 0;
+		crc = (crc & 1) ? crc >> 1 ^ 0xEDB88320 : crc >> 1;
+	}
+	return crc;
+}
+
+
+/* Check validity of GPT header */
+
+static int test_gpt_header (	/* 0:Invalid, 1:Valid */
+	const BYTE* gpth			/* Pointer to the GPT header */
+)
+{
+	UINT i;
+	DWORD bcc;
+
+
+	if (memcmp(gpth + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16)) return 0;	/* Check sign, version (1.0) and length (92) */
+	for (i = 0, bcc = 0xFFFFFFFF; i < 92; i++) {		/* Check header BCC */
+		bcc = crc32(bcc, i - GPTH_Bcc < 4 ? 0 : gpth[i]);
+	}
+	if (~bcc != ld_dword(gpth + GPTH_Bcc)) return 0;
+	if (ld_dword(gpth + GPTH_PteSize) != SZ_GPTE) return 0;	/* Table entry size (must be SZ_GPTE bytes) */
+	if (ld_dword(gpth + GPTH_PtNum) > 128) return 0;	/* Table size (must be 128 entries or less) */
+
+	return 1;
+}
+
+#if !FF_FS_READONLY && FF_USE_MKFS
+
+/* Generate random value */
+static DWORD make_rand (
+	DWORD seed,		/* Seed value */
+	BYTE* buff,		/* Output buffer */
+	UINT n			/* Data length */
+)
+{
+	UINT r;
+
+
+	if (seed == 0) seed = 1;
+	do {
+		for (r = 0; r < 8; r++) seed = seed & 1 ? seed >> 1 ^ 0xA3000000 : seed >> 1;	/* Shift 8 bits the 32-bit LFSR */
+		*buff++ = (BYTE)seed;
+	} while (--n);
+	return seed;
+}
+
+#endif
+#endif
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Load a sector and check if it is an FAT VBR                           */
+/*-----------------------------------------------------------------------*/
+
+/* Check what the sector is */
+
+static UINT check_fs (	/* 0:FAT/FAT32 VBR, 1:exFAT VBR, 2:Not FAT and valid BS, 3:Not FAT and invalid BS, 4:Disk error */
+	FATFS* fs,			/* Filesystem object */
+	LBA_t sect			/* Sector to load and check if it is an FAT-VBR or not */
+)
+{
+	WORD w, sign;
+	BYTE b;
+
+
+	fs->wflag = 0; fs->winsect = (LBA_t)0 - 1;		/* Invaidate window */
+	if (move_window(fs, sect) != FR_OK) return 4;	/* Load the boot sector */
+	sign = ld_word(fs->win + BS_55AA);
+#if FF_FS_EXFAT
+	if (sign == 0xAA55 && !memcmp(fs->win + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11)) return 1;	/* It is an exFAT VBR */
+#endif
+	b = fs->win[BS_JmpBoot];
+	if (b == 0xEB || b == 0xE9 || b == 0xE8) {	/* Valid JumpBoot code? (short jump, near jump or near call) */
+		if (sign == 0xAA55 && !memcmp(fs->win + BS_FilSysType32, "FAT32   ", 8)) {
+			return 0;	/* It is an FAT32 VBR */
+		}
+		/* FAT volumes formatted with early MS-DOS lack BS_55AA and BS_FilSysType, so FAT VBR needs to be identified without them. */
+		w = ld_word(fs->win + BPB_BytsPerSec);
+		b = fs->win[BPB_SecPerClus];
+		if ((w & (w - 1)) == 0 && w >= FF_MIN_SS && w <= FF_MAX_SS	/* Properness of sector size (512-4096 and 2^n) */
+			&& b != 0 && (b & (b - 1)) == 0				/* Properness of cluster size (2^n) */
+			&& ld_word(fs->win + BPB_RsvdSecCnt) != 0	/* Properness of reserved sectors (MNBZ) */
+			&& (UINT)fs->win[BPB_NumFATs] - 1 <= 1		/* Properness of FATs (1 or 2) */
+			&& ld_word(fs->win + BPB_RootEntCnt) != 0	/* Properness of root dir entries (MNBZ) */
+			&& (ld_word(fs->win + BPB_TotSec16) >= 128 || ld_dword(fs->win + BPB_TotSec32) >= 0x10000)	/* Properness of volume sectors (>=128) */
+			&& ld_word(fs->win + BPB_FATSz16) != 0) {	/* Properness of FAT size (MNBZ) */
+				return 0;	/* It can be presumed an FAT VBR */
+		}
+	}
+	return sign == 0xAA55 ? 2 : 3;	/* Not an FAT VBR (valid or invalid BS) */
+}
+
+
+/* Find an FAT volume */
+/* (It supports only generic partitioning rules, MBR, GPT and SFD) */
+
+static UINT find_volume (	/* Returns BS status found in the hosting drive */
+	FATFS* fs,		/* Filesystem object */
+	UINT part		/* Partition to fined = 0:auto, 1..:forced */
+)
+{
+	UINT fmt, i;
+	DWORD mbr_pt[4];
+
+
+	fmt = check_fs(fs, 0);				/* Load sector 0 and check if it is an FAT VBR as SFD format */
+	if (fmt != 2 && (fmt >= 3 || part == 0)) return fmt;	/* Returns if it is an FAT VBR as auto scan, not a BS or disk error */
+
+	/* Sector 0 is not an FAT VBR or forced partition number wants a partition */
+
+#if FF_LBA64
+	if (fs->win[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
+		DWORD n_ent, v_ent, ofs;
+		QWORD pt_lba;
+
+		if (move_window(fs, 1) != FR_OK) return 4;	/* Load GPT header sector (next to MBR) */
+		if (!test_gpt_header(fs->win)) return 3;	/* Check if GPT header is valid */
+		n_ent = ld_dword(fs->win + GPTH_PtNum);		/* Number of entries */
+		pt_lba = ld_qword(fs->win + GPTH_PtOfs);	/* Table location */
+		for (v_ent = i = 0; i < n_ent; i++) {		/* Find FAT partition */
+			if (move_window(fs, pt_lba + i * SZ_GPTE / SS(fs)) != FR_OK) return 4;	/* PT sector */
+			ofs = i * SZ_GPTE % SS(fs);												/* Offset in the sector */
+			if (!memcmp(fs->win + ofs + GPTE_PtGuid, GUID_MS_Basic, 16)) {	/* MS basic data partition? */
+				v_ent++;
+				fmt = check_fs(fs, ld_qword(fs->win + ofs + GPTE_FstLba));	/* Load VBR and check status */
+				if (part == 0 && fmt <= 1) return fmt;			/* Auto search (valid FAT volume found first) */
+				if (part != 0 && v_ent == part) return fmt;		/* Forced partition order (regardless of it is valid or not) */
+			}
+		}
+		return 3;	/* Not found */
+	}
+#endif
+	if (FF_MULTI_PARTITION && part > 4) return 3;	/* MBR has 4 partitions max */
+	for (i = 0; i < 4; i++) {		/* Load partition offset in the MBR */
+		mbr_pt[i] = ld_dword(fs->win + MBR_Table + i * SZ_PTE + PTE_StLba);
+	}
+	i = part ? part - 1 : 0;		/* Table index to find first */
+	do {							/* Find an FAT volume */
+		fmt = mbr_pt[i] ? check_fs(fs, mbr_pt[i]) : 3;	/* Check if the partition is FAT */
+	} while (part == 0 && fmt >= 2 && ++i < 4);
+	return fmt;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Determine logical drive number and mount the volume if needed         */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT mount_volume (	/* FR_OK(0): successful, !=0: an error occurred */
+	const TCHAR** path,			/* Pointer to pointer to the path name (drive number) */
+	FATFS** rfs,				/* Pointer to pointer to the found filesystem object */
+	BYTE mode					/* !=0: Check write protection for write access */
+)
+{
+	int vol;
+	DSTATUS stat;
+	LBA_t bsect;
+	DWORD tsect, sysect, fasize, nclst, szbfat;
+	WORD nrsv;
+	FATFS *fs;
+	UINT fmt;
+
+
+	/* Get logical drive number */
+	*rfs = 0;
+	vol = get_ldnumber(path);
+	if (vol < 0) return FR_INVALID_DRIVE;
+
+	/* Check if the filesystem object is valid or not */
+	fs = FatFs[vol];					/* Get pointer to the filesystem object */
+	if (!fs) return FR_NOT_ENABLED;		/* Is the filesystem object available? */
+#if FF_FS_REENTRANT
+	if (!lock_fs(fs)) return FR_TIMEOUT;	/* Lock the volume */
+#endif
+	*rfs = fs;							/* Return pointer to the filesystem object */
+
+	mode &= (BYTE)~FA_READ;				/* Desired access mode, write access or not */
+	if (fs->fs_type != 0) {				/* If the volume has been mounted */
+		stat = disk_status(fs->pdrv);
+		if (!(stat & STA_NOINIT)) {		/* and the physical drive is kept initialized */
+			if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) {	/* Check write protection if needed */
+				return FR_WRITE_PROTECTED;
+			}
+			return FR_OK;				/* The filesystem object is already valid */
+		}
+	}
+
+	/* The filesystem object is not valid. */
+	/* Following code attempts to mount the volume. (find an FAT volume, analyze the BPB and initialize the filesystem object) */
+
+	fs->fs_type = 0;					/* Clear the filesystem object */
+	fs->pdrv = LD2PD(vol);				/* Volume hosting physical drive */
+	stat = disk_initialize(fs->pdrv);	/* Initialize the physical drive */
+	if (stat & STA_NOINIT) { 			/* Check if the initialization succeeded */
+		return FR_NOT_READY;			/* Failed to initialize due to no medium or hard error */
+	}
+	if (!FF_FS_READONLY && mode && (stat & STA_PROTECT)) { /* Check disk write protection if needed */
+		return FR_WRITE_PROTECTED;
+	}
+#if FF_MAX_SS != FF_MIN_SS				/* Get sector size (multiple sector size cfg only) */
+	if (disk_ioctl(fs->pdrv, GET_SECTOR_SIZE, &SS(fs)) != RES_OK) return FR_DISK_ERR;
+	if (SS(fs) > FF_MAX_SS || SS(fs) < FF_MIN_SS || (SS(fs) & (SS(fs) - 1))) return FR_DISK_ERR;
+#endif
+
+	/* Find an FAT volume on the drive */
+	fmt = find_volume(fs, LD2PT(vol));
+	if (fmt == 4) return FR_DISK_ERR;		/* An error occured in the disk I/O layer */
+	if (fmt >= 2) return FR_NO_FILESYSTEM;	/* No FAT volume is found */
+	bsect = fs->winsect;					/* Volume offset */
+
+	/* An FAT volume is found (bsect). Following code initializes the filesystem object */
+
+#if FF_FS_EXFAT
+	if (fmt == 1) {
+		QWORD maxlba;
+		DWORD so, cv, bcl, i;
+
+		for (i = BPB_ZeroedEx; i < BPB_ZeroedEx + 53 && fs->win[i] == 0; i++) ;	/* Check zero filler */
+		if (i < BPB_ZeroedEx + 53) return FR_NO_FILESYSTEM;
+
+		if (ld_word(fs->win + BPB_FSVerEx) != 0x100) return FR_NO_FILESYSTEM;	/* Check exFAT version (must be version 1.0) */
+
+		if (1 << fs->win[BPB_BytsPerSecEx] != SS(fs)) {	/* (BPB_BytsPerSecEx must be equal to the physical sector size) */
+			return FR_NO_FILESYSTEM;
+		}
+
+		maxlba = ld_qword(fs->win + BPB_TotSecEx) + bsect;	/* Last LBA of the volume + 1 */
+		if (!FF_LBA64 && maxlba >= 0x100000000) return FR_NO_FILESYSTEM;	/* (It cannot be accessed in 32-bit LBA) */
+
+		fs->fsize = ld_dword(fs->win + BPB_FatSzEx);	/* Number of sectors per FAT */
+
+		fs->n_fats = fs->win[BPB_NumFATsEx];			/* Number of FATs */
+		if (fs->n_fats != 1) return FR_NO_FILESYSTEM;	/* (Supports only 1 FAT) */
+
+		fs->csize = 1 << fs->win[BPB_SecPerClusEx];		/* Cluster size */
+		if (fs->csize == 0)	return FR_NO_FILESYSTEM;	/* (Must be 1..32768 sectors) */
+
+		nclst = ld_dword(fs->win + BPB_NumClusEx);		/* Number of clusters */
+		if (nclst > MAX_EXFAT) return FR_NO_FILESYSTEM;	/* (Too many clusters) */
+		fs->n_fatent = nclst + 2;
+
+		/* Boundaries and Limits */
+		fs->volbase = bsect;
+		fs->database = bsect + ld_dword(fs->win + BPB_DataOfsEx);
+		fs->fatbase = bsect + ld_dword(fs->win + BPB_FatOfsEx);
+		if (maxlba < (QWORD)fs->database + nclst * fs->csize) return FR_NO_FILESYSTEM;	/* (Volume size must not be smaller than the size requiered) */
+		fs->dirbase = ld_dword(fs->win + BPB_RootClusEx);
+
+		/* Get bitmap location and check if it is contiguous (implementation assumption) */
+		so = i = 0;
+		for (;;) {	/* Find the bitmap entry in the root directory (in only first cluster) */
+			if (i == 0) {
+				if (so >= fs->csize) return FR_NO_FILESYSTEM;	/* Not found? */
+				if (move_window(fs, clst2sect(fs, (DWORD)fs->dirbase) + so) != FR_OK) return FR_DISK_ERR;
+				so++;
+			}
+			if (fs->win[i] == ET_BITMAP) break;			/* Is it a bitmap entry? */
+			i = (i + SZDIRE) % SS(fs);	/* Next entry */
+		}
+		bcl = ld_dword(fs->win + i + 20);				/* Bitmap cluster */
+		if (bcl < 2 || bcl >= fs->n_fatent) return FR_NO_FILESYSTEM;	/* (Wrong cluster#) */
+		fs->bitbase = fs->database + fs->csize * (bcl - 2);	/* Bitmap sector */
+		for (;;) {	/* Check if bitmap is contiguous */
+			if (move_window(fs, fs->fatbase + bcl / (SS(fs) / 4)) != FR_OK) return FR_DISK_ERR;
+			cv = ld_dword(fs->win + bcl % (SS(fs) / 4) * 4);
+			if (cv == 0xFFFFFFFF) break;				/* Last link? */
+			if (cv != ++bcl) return FR_NO_FILESYSTEM;	/* Fragmented? */
+		}
+
+#if !FF_FS_READONLY
+		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
+#endif
+		fmt = FS_EXFAT;			/* FAT sub-type */
+	} else
+#endif	/* FF_FS_EXFAT */
+	{
+		if (ld_word(fs->win + BPB_BytsPerSec) != SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_BytsPerSec must be equal to the physical sector size) */
+
+		fasize = ld_word(fs->win + BPB_FATSz16);		/* Number of sectors per FAT */
+		if (fasize == 0) fasize = ld_dword(fs->win + BPB_FATSz32);
+		fs->fsize = fasize;
+
+		fs->n_fats = fs->win[BPB_NumFATs];				/* Number of FATs */
+		if (fs->n_fats != 1 && fs->n_fats != 2) return FR_NO_FILESYSTEM;	/* (Must be 1 or 2) */
+		fasize *= fs->n_fats;							/* Number of sectors for FAT area */
+
+		fs->csize = fs->win[BPB_SecPerClus];			/* Cluster size */
+		if (fs->csize == 0 || (fs->csize & (fs->csize - 1))) return FR_NO_FILESYSTEM;	/* (Must be power of 2) */
+
+		fs->n_rootdir = ld_word(fs->win + BPB_RootEntCnt);	/* Number of root directory entries */
+		if (fs->n_rootdir % (SS(fs) / SZDIRE)) return FR_NO_FILESYSTEM;	/* (Must be sector aligned) */
+
+		tsect = ld_word(fs->win + BPB_TotSec16);		/* Number of sectors on the volume */
+		if (tsect == 0) tsect = ld_dword(fs->win + BPB_TotSec32);
+
+		nrsv = ld_word(fs->win + BPB_RsvdSecCnt);		/* Number of reserved sectors */
+		if (nrsv == 0) return FR_NO_FILESYSTEM;			/* (Must not be 0) */
+
+		/* Determine the FAT sub type */
+		sysect = nrsv + fasize + fs->n_rootdir / (SS(fs) / SZDIRE);	/* RSV + FAT + DIR */
+		if (tsect < sysect) return FR_NO_FILESYSTEM;	/* (Invalid volume size) */
+		nclst = (tsect - sysect) / fs->csize;			/* Number of clusters */
+		if (nclst == 0) return FR_NO_FILESYSTEM;		/* (Invalid volume size) */
+		fmt = 0;
+		if (nclst <= MAX_FAT32) fmt = FS_FAT32;
+		if (nclst <= MAX_FAT16) fmt = FS_FAT16;
+		if (nclst <= MAX_FAT12) fmt = FS_FAT12;
+		if (fmt == 0) return FR_NO_FILESYSTEM;
+
+		/* Boundaries and Limits */
+		fs->n_fatent = nclst + 2;						/* Number of FAT entries */
+		fs->volbase = bsect;							/* Volume start sector */
+		fs->fatbase = bsect + nrsv; 					/* FAT start sector */
+		fs->database = bsect + sysect;					/* Data start sector */
+		if (fmt == FS_FAT32) {
+			if (ld_word(fs->win + BPB_FSVer32) != 0) return FR_NO_FILESYSTEM;	/* (Must be FAT32 revision 0.0) */
+			if (fs->n_rootdir != 0) return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must be 0) */
+			fs->dirbase = ld_dword(fs->win + BPB_RootClus32);	/* Root directory start cluster */
+			szbfat = fs->n_fatent * 4;					/* (Needed FAT size) */
+		} else {
+			if (fs->n_rootdir == 0)	return FR_NO_FILESYSTEM;	/* (BPB_RootEntCnt must not be 0) */
+			fs->dirbase = fs->fatbase + fasize;			/* Root directory start sector */
+			szbfat = (fmt == FS_FAT16) ?				/* (Needed FAT size) */
+				fs->n_fatent * 2 : fs->n_fatent * 3 / 2 + (fs->n_fatent & 1);
+		}
+		if (fs->fsize < (szbfat + (SS(fs) - 1)) / SS(fs)) return FR_NO_FILESYSTEM;	/* (BPB_FATSz must not be less than the size needed) */
+
+#if !FF_FS_READONLY
+		/* Get FSInfo if available */
+		fs->last_clst = fs->free_clst = 0xFFFFFFFF;		/* Initialize cluster allocation information */
+		fs->fsi_flag = 0x80;
+#if (FF_FS_NOFSINFO & 3) != 3
+		if (fmt == FS_FAT32				/* Allow to update FSInfo only if BPB_FSInfo32 == 1 */
+			&& ld_word(fs->win + BPB_FSInfo32) == 1
+			&& move_window(fs, bsect + 1) == FR_OK)
+		{
+			fs->fsi_flag = 0;
+			if (ld_word(fs->win + BS_55AA) == 0xAA55	/* Load FSInfo data if available */
+				&& ld_dword(fs->win + FSI_LeadSig) == 0x41615252
+				&& ld_dword(fs->win + FSI_StrucSig) == 0x61417272)
+			{
+#if (FF_FS_NOFSINFO & 1) == 0
+				fs->free_clst = ld_dword(fs->win + FSI_Free_Count);
+#endif
+#if (FF_FS_NOFSINFO & 2) == 0
+				fs->last_clst = ld_dword(fs->win + FSI_Nxt_Free);
+#endif
+			}
+		}
+#endif	/* (FF_FS_NOFSINFO & 3) != 3 */
+#endif	/* !FF_FS_READONLY */
+	}
+
+	fs->fs_type = (BYTE)fmt;/* FAT sub-type */
+	fs->id = ++Fsid;		/* Volume mount ID */
+#if FF_USE_LFN == 1
+	fs->lfnbuf = LfnBuf;	/* Static LFN working buffer */
+#if FF_FS_EXFAT
+	fs->dirbuf = DirBuf;	/* Static directory block scratchpad buuffer */
+#endif
+#endif
+#if FF_FS_RPATH != 0
+	fs->cdir = 0;			/* Initialize current directory */
+#endif
+#if FF_FS_LOCK != 0			/* Clear file lock semaphores */
+	clear_lock(fs);
+#endif
+	return FR_OK;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Check if the file/directory object is valid or not                    */
+/*-----------------------------------------------------------------------*/
+
+static FRESULT validate (	/* Returns FR_OK or FR_INVALID_OBJECT */
+	FFOBJID* obj,			/* Pointer to the FFOBJID, the 1st member in the FIL/DIR object, to check validity */
+	FATFS** rfs				/* Pointer to pointer to the owner filesystem object to return */
+)
+{
+	FRESULT res = FR_INVALID_OBJECT;
+
+
+	if (obj && obj->fs && obj->fs->fs_type && obj->id == obj->fs->id) {	/* Test if the object is valid */
+#if FF_FS_REENTRANT
+		if (lock_fs(obj->fs)) {	/* Obtain the filesystem object */
+			if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
+				res = FR_OK;
+			} else {
+				unlock_fs(obj->fs, FR_OK);
+			}
+		} else {
+			res = FR_TIMEOUT;
+		}
+#else
+		if (!(disk_status(obj->fs->pdrv) & STA_NOINIT)) { /* Test if the phsical drive is kept initialized */
+			res = FR_OK;
+		}
+#endif
+	}
+	*rfs = (res == FR_OK) ? obj->fs : 0;	/* Corresponding filesystem object */
+	return res;
+}
+
+
+
+
+/*---------------------------------------------------------------------------
+
+   Public Functions (FatFs API)
+
+----------------------------------------------------------------------------*/
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Mount/Unmount a Logical Drive                                         */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_mount (
+	FATFS* fs,			/* Pointer to the filesystem object to be registered (NULL:unmount)*/
+	const TCHAR* path,	/* Logical drive number to be mounted/unmounted */
+	BYTE opt			/* Mount option: 0=Do not mount (delayed mount), 1=Mount immediately */
+)
+{
+	FATFS *cfs;
+	int vol;
+	FRESULT res;
+	const TCHAR *rp = path;
+
+
+	/* Get logical drive number */
+	vol = get_ldnumber(&rp);
+	if (vol < 0) return FR_INVALID_DRIVE;
+	cfs = FatFs[vol];					/* Pointer to fs object */
+
+	if (cfs) {
+#if FF_FS_LOCK != 0
+		clear_lock(cfs);
+#endif
+#if FF_FS_REENTRANT						/* Discard sync object of the current volume */
+		if (!ff_del_syncobj(cfs->sobj)) return FR_INT_ERR;
+#endif
+		cfs->fs_type = 0;				/* Clear old fs object */
+	}
+
+	if (fs) {
+		fs->fs_type = 0;				/* Clear new fs object */
+#if FF_FS_REENTRANT						/* Create sync object for the new volume */
+		if (!ff_cre_syncobj((BYTE)vol, &fs->sobj)) return FR_INT_ERR;
+#endif
+	}
+	FatFs[vol] = fs;					/* Register new fs object */
+
+	if (opt == 0) return FR_OK;			/* Do not mount now, it will be mounted later */
+
+	res = mount_volume(&path, &fs, 0);	/* Force mounted the volume */
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Open or Create a File                                                 */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_open (
+	FIL* fp,			/* Pointer to the blank file object */
+	const TCHAR* path,	/* Pointer to the file name */
+	BYTE mode			/* Access mode and open mode flags */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+#if !FF_FS_READONLY
+	DWORD cl, bcs, clst, tm;
+	LBA_t sc;
+	FSIZE_t ofs;
+#endif
+	DEF_NAMBUF
+
+
+	if (!fp) return FR_INVALID_OBJECT;
+
+	/* Get logical drive number */
+	mode &= FF_FS_READONLY ? FA_READ : FA_READ | FA_WRITE | FA_CREATE_ALWAYS | FA_CREATE_NEW | FA_OPEN_ALWAYS | FA_OPEN_APPEND;
+	res = mount_volume(&path, &fs, mode);
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+#if !FF_FS_READONLY	/* Read/Write configuration */
+		if (res == FR_OK) {
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Origin directory itself? */
+				res = FR_INVALID_NAME;
+			}
+#if FF_FS_LOCK != 0
+			else {
+				res = chk_lock(&dj, (mode & ~FA_READ) ? 1 : 0);		/* Check if the file can be used */
+			}
+#endif
+		}
+		/* Create or Open a file */
+		if (mode & (FA_CREATE_ALWAYS | FA_OPEN_ALWAYS | FA_CREATE_NEW)) {
+			if (res != FR_OK) {					/* No file, create new */
+				if (res == FR_NO_FILE) {		/* There is no file to open, create a new entry */
+#if FF_FS_LOCK != 0
+					res = enq_lock() ? dir_register(&dj) : FR_TOO_MANY_OPEN_FILES;
+#else
+					res = dir_register(&dj);
+#endif
+				}
+				mode |= FA_CREATE_ALWAYS;		/* File is created */
+			}
+			else {								/* Any object with the same name is already existing */
+				if (dj.obj.attr & (AM_RDO | AM_DIR)) {	/* Cannot overwrite it (R/O or DIR) */
+					res = FR_DENIED;
+				} else {
+					if (mode & FA_CREATE_NEW) res = FR_EXIST;	/* Cannot create as new file */
+				}
+			}
+			if (res == FR_OK && (mode & FA_CREATE_ALWAYS)) {	/* Truncate the file if overwrite mode */
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {
+					/* Get current allocation info */
+					fp->obj.fs = fs;
+					init_alloc_info(fs, &fp->obj);
+					/* Set directory entry block initial state */
+					memset(fs->dirbuf + 2, 0, 30);	/* Clear 85 entry except for NumSec */
+					memset(fs->dirbuf + 38, 0, 26);	/* Clear C0 entry except for NumName and NameHash */
+					fs->dirbuf[XDIR_Attr] = AM_ARC;
+					st_dword(fs->dirbuf + XDIR_CrtTime, GET_FATTIME());
+					fs->dirbuf[XDIR_GenFlags] = 1;
+					res = store_xdir(&dj);
+					if (res == FR_OK && fp->obj.sclust != 0) {	/* Remove the cluster chain if exist */
+						res = remove_chain(&fp->obj, fp->obj.sclust, 0);
+						fs->last_clst = fp->obj.sclust - 1;		/* Reuse the cluster hole */
+					}
+				} else
+#endif
+				{
+					/* Set directory entry initial state */
+					tm = GET_FATTIME();					/* Set created time */
+					st_dword(dj.dir + DIR_CrtTime, tm);
+					st_dword(dj.dir + DIR_ModTime, tm);
+					cl = ld_clust(fs, dj.dir);			/* Get current cluster chain */
+					dj.dir[DIR_Attr] = AM_ARC;			/* Reset attribute */
+					st_clust(fs, dj.dir, 0);			/* Reset file allocation info */
+					st_dword(dj.dir + DIR_FileSize, 0);
+					fs->wflag = 1;
+					if (cl != 0) {						/* Remove the cluster chain if exist */
+						sc = fs->winsect;
+						res = remove_chain(&dj.obj, cl, 0);
+						if (res == FR_OK) {
+							res = move_window(fs, sc);
+							fs->last_clst = cl - 1;		/* Reuse the cluster hole */
+						}
+					}
+				}
+			}
+		}
+		else {	/* Open an existing file */
+			if (res == FR_OK) {					/* Is the object exsiting? */
+				if (dj.obj.attr & AM_DIR) {		/* File open against a directory */
+					res = FR_NO_FILE;
+				} else {
+					if ((mode & FA_WRITE) && (dj.obj.attr & AM_RDO)) { /* Write mode open against R/O file */
+						res = FR_DENIED;
+					}
+				}
+			}
+		}
+		if (res == FR_OK) {
+			if (mode & FA_CREATE_ALWAYS) mode |= FA_MODIFIED;	/* Set file change flag if created or overwritten */
+			fp->dir_sect = fs->winsect;			/* Pointer to the directory entry */
+			fp->dir_ptr = dj.dir;
+#if FF_FS_LOCK != 0
+			fp->obj.lockid = inc_lock(&dj, (mode & ~FA_READ) ? 1 : 0);	/* Lock the file for this session */
+			if (fp->obj.lockid == 0) res = FR_INT_ERR;
+#endif
+		}
+#else		/* R/O configuration */
+		if (res == FR_OK) {
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it origin directory itself? */
+				res = FR_INVALID_NAME;
+			} else {
+				if (dj.obj.attr & AM_DIR) {		/* Is it a directory? */
+					res = FR_NO_FILE;
+				}
+			}
+		}
+#endif
+
+		if (res == FR_OK) {
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				fp->obj.c_scl = dj.obj.sclust;							/* Get containing directory info */
+				fp->obj.c_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
+				fp->obj.c_ofs = dj.blk_ofs;
+				init_alloc_info(fs, &fp->obj);
+			} else
+#endif
+			{
+				fp->obj.sclust = ld_clust(fs, dj.dir);					/* Get object allocation info */
+				fp->obj.objsize = ld_dword(dj.dir + DIR_FileSize);
+			}
+#if FF_USE_FASTSEEK
+			fp->cltbl = 0;		/* Disable fast seek mode */
+#endif
+			fp->obj.fs = fs;	/* Validate the file object */
+			fp->obj.id = fs->id;
+			fp->flag = mode;	/* Set file access mode */
+			fp->err = 0;		/* Clear error flag */
+			fp->sect = 0;		/* Invalidate current data sector */
+			fp->fptr = 0;		/* Set file pointer top of the file */
+#if !FF_FS_READONLY
+#if !FF_FS_TINY
+			memset(fp->buf, 0, sizeof fp->buf);	/* Clear sector buffer */
+#endif
+			if ((mode & FA_SEEKEND) && fp->obj.objsize > 0) {	/* Seek to end of file if FA_OPEN_APPEND is specified */
+				fp->fptr = fp->obj.objsize;			/* Offset to seek */
+				bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size in byte */
+				clst = fp->obj.sclust;				/* Follow the cluster chain */
+				for (ofs = fp->obj.objsize; res == FR_OK && ofs > bcs; ofs -= bcs) {
+					clst = get_fat(&fp->obj, clst);
+					if (clst <= 1) res = FR_INT_ERR;
+					if (clst == 0xFFFFFFFF) res = FR_DISK_ERR;
+				}
+				fp->clust = clst;
+				if (res == FR_OK && ofs % SS(fs)) {	/* Fill sector buffer if not on the sector boundary */
+					sc = clst2sect(fs, clst);
+					if (sc == 0) {
+						res = FR_INT_ERR;
+					} else {
+						fp->sect = sc + (DWORD)(ofs / SS(fs));
+#if !FF_FS_TINY
+						if (disk_read(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) res = FR_DISK_ERR;
+#endif
+					}
+				}
+#if FF_FS_LOCK != 0
+				if (res != FR_OK) dec_lock(fp->obj.lockid); /* Decrement file open counter if seek failed */
+#endif
+			}
+#endif
+		}
+
+		FREE_NAMBUF();
+	}
+
+	if (res != FR_OK) fp->obj.fs = 0;	/* Invalidate file object on error */
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Read File                                                             */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_read (
+	FIL* fp, 	/* Open file to be read */
+	void* buff,	/* Data buffer to store the read data */
+	UINT btr,	/* Number of bytes to read */
+	UINT* br	/* Number of bytes read */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst;
+	LBA_t sect;
+	FSIZE_t remain;
+	UINT rcnt, cc, csect;
+	BYTE *rbuff = (BYTE*)buff;
+
+
+	*br = 0;	/* Clear read byte counter */
+	res = validate(&fp->obj, &fs);				/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
+	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED); /* Check access mode */
+	remain = fp->obj.objsize - fp->fptr;
+	if (btr > remain) btr = (UINT)remain;		/* Truncate btr by remaining bytes */
+
+	for ( ; btr > 0; btr -= rcnt, *br += rcnt, rbuff += rcnt, fp->fptr += rcnt) {	/* Repeat until btr bytes read */
+		if (fp->fptr % SS(fs) == 0) {			/* On the sector boundary? */
+			csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
+			if (csect == 0) {					/* On the cluster boundary? */
+				if (fp->fptr == 0) {			/* On the top of the file? */
+					clst = fp->obj.sclust;		/* Follow cluster chain from the origin */
+				} else {						/* Middle or end of the file */
+#if FF_USE_FASTSEEK
+					if (fp->cltbl) {
+						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
+					} else
+#endif
+					{
+						clst = get_fat(&fp->obj, fp->clust);	/* Follow cluster chain on the FAT */
+					}
+				}
+				if (clst < 2) ABORT(fs, FR_INT_ERR);
+				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+				fp->clust = clst;				/* Update current cluster */
+			}
+			sect = clst2sect(fs, fp->clust);	/* Get current sector */
+			if (sect == 0) ABORT(fs, FR_INT_ERR);
+			sect += csect;
+			cc = btr / SS(fs);					/* When remaining bytes >= sector size, */
+			if (cc > 0) {						/* Read maximum contiguous sectors directly */
+				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
+					cc = fs->csize - csect;
+				}
+				if (disk_read(fs->pdrv, rbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
+#if !FF_FS_READONLY && FF_FS_MINIMIZE <= 2		/* Replace one of the read sectors with cached data if it contains a dirty sector */
+#if FF_FS_TINY
+				if (fs->wflag && fs->winsect - sect < cc) {
+					memcpy(rbuff + ((fs->winsect - sect) * SS(fs)), fs->win, SS(fs));
+				}
+#else
+				if ((fp->flag & FA_DIRTY) && fp->sect - sect < cc) {
+					memcpy(rbuff + ((fp->sect - sect) * SS(fs)), fp->buf, SS(fs));
+				}
+#endif
+#endif
+				rcnt = SS(fs) * cc;				/* Number of bytes transferred */
+				continue;
+			}
+#if !FF_FS_TINY
+			if (fp->sect != sect) {			/* Load data sector if not in cache */
+#if !FF_FS_READONLY
+				if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
+					if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+					fp->flag &= (BYTE)~FA_DIRTY;
+				}
+#endif
+				if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK)	ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
+			}
+#endif
+			fp->sect = sect;
+		}
+		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
+		if (rcnt > btr) rcnt = btr;					/* Clip it by btr if needed */
+#if FF_FS_TINY
+		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
+		memcpy(rbuff, fs->win + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
+#else
+		memcpy(rbuff, fp->buf + fp->fptr % SS(fs), rcnt);	/* Extract partial sector */
+#endif
+	}
+
+	LEAVE_FF(fs, FR_OK);
+}
+
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Write File                                                            */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_write (
+	FIL* fp,			/* Open file to be written */
+	const void* buff,	/* Data to be written */
+	UINT btw,			/* Number of bytes to write */
+	UINT* bw			/* Number of bytes written */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst;
+	LBA_t sect;
+	UINT wcnt, cc, csect;
+	const BYTE *wbuff = (const BYTE*)buff;
+
+
+	*bw = 0;	/* Clear write byte counter */
+	res = validate(&fp->obj, &fs);			/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);	/* Check validity */
+	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
+
+	/* Check fptr wrap-around (file size cannot reach 4 GiB at FAT volume) */
+	if ((!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) && (DWORD)(fp->fptr + btw) < (DWORD)fp->fptr) {
+		btw = (UINT)(0xFFFFFFFF - (DWORD)fp->fptr);
+	}
+
+	for ( ; btw > 0; btw -= wcnt, *bw += wcnt, wbuff += wcnt, fp->fptr += wcnt, fp->obj.objsize = (fp->fptr > fp->obj.objsize) ? fp->fptr : fp->obj.objsize) {	/* Repeat until all data written */
+		if (fp->fptr % SS(fs) == 0) {		/* On the sector boundary? */
+			csect = (UINT)(fp->fptr / SS(fs)) & (fs->csize - 1);	/* Sector offset in the cluster */
+			if (csect == 0) {				/* On the cluster boundary? */
+				if (fp->fptr == 0) {		/* On the top of the file? */
+					clst = fp->obj.sclust;	/* Follow from the origin */
+					if (clst == 0) {		/* If no cluster is allocated, */
+						clst = create_chain(&fp->obj, 0);	/* create a new cluster chain */
+					}
+				} else {					/* On the middle or end of the file */
+#if FF_USE_FASTSEEK
+					if (fp->cltbl) {
+						clst = clmt_clust(fp, fp->fptr);	/* Get cluster# from the CLMT */
+					} else
+#endif
+					{
+						clst = create_chain(&fp->obj, fp->clust);	/* Follow or stretch cluster chain on the FAT */
+					}
+				}
+				if (clst == 0) break;		/* Could not allocate a new cluster (disk full) */
+				if (clst == 1) ABORT(fs, FR_INT_ERR);
+				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+				fp->clust = clst;			/* Update current cluster */
+				if (fp->obj.sclust == 0) fp->obj.sclust = clst;	/* Set start cluster if the first write */
+			}
+#if FF_FS_TINY
+			if (fs->winsect == fp->sect && sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Write-back sector cache */
+#else
+			if (fp->flag & FA_DIRTY) {		/* Write-back sector cache */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			sect = clst2sect(fs, fp->clust);	/* Get current sector */
+			if (sect == 0) ABORT(fs, FR_INT_ERR);
+			sect += csect;
+			cc = btw / SS(fs);				/* When remaining bytes >= sector size, */
+			if (cc > 0) {					/* Write maximum contiguous sectors directly */
+				if (csect + cc > fs->csize) {	/* Clip at cluster boundary */
+					cc = fs->csize - csect;
+				}
+				if (disk_write(fs->pdrv, wbuff, sect, cc) != RES_OK) ABORT(fs, FR_DISK_ERR);
+#if FF_FS_MINIMIZE <= 2
+#if FF_FS_TINY
+				if (fs->winsect - sect < cc) {	/* Refill sector cache if it gets invalidated by the direct write */
+					memcpy(fs->win, wbuff + ((fs->winsect - sect) * SS(fs)), SS(fs));
+					fs->wflag = 0;
+				}
+#else
+				if (fp->sect - sect < cc) { /* Refill sector cache if it gets invalidated by the direct write */
+					memcpy(fp->buf, wbuff + ((fp->sect - sect) * SS(fs)), SS(fs));
+					fp->flag &= (BYTE)~FA_DIRTY;
+				}
+#endif
+#endif
+				wcnt = SS(fs) * cc;		/* Number of bytes transferred */
+				continue;
+			}
+#if FF_FS_TINY
+			if (fp->fptr >= fp->obj.objsize) {	/* Avoid silly cache filling on the growing edge */
+				if (sync_window(fs) != FR_OK) ABORT(fs, FR_DISK_ERR);
+				fs->winsect = sect;
+			}
+#else
+			if (fp->sect != sect && 		/* Fill sector cache with file data */
+				fp->fptr < fp->obj.objsize &&
+				disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) {
+					ABORT(fs, FR_DISK_ERR);
+			}
+#endif
+			fp->sect = sect;
+		}
+		wcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
+		if (wcnt > btw) wcnt = btw;					/* Clip it by btw if needed */
+#if FF_FS_TINY
+		if (move_window(fs, fp->sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window */
+		memcpy(fs->win + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
+		fs->wflag = 1;
+#else
+		memcpy(fp->buf + fp->fptr % SS(fs), wbuff, wcnt);	/* Fit data to the sector */
+		fp->flag |= FA_DIRTY;
+#endif
+	}
+
+	fp->flag |= FA_MODIFIED;				/* Set file change flag */
+
+	LEAVE_FF(fs, FR_OK);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Synchronize the File                                                  */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_sync (
+	FIL* fp		/* Open file to be synced */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD tm;
+	BYTE *dir;
+
+
+	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
+	if (res == FR_OK) {
+		if (fp->flag & FA_MODIFIED) {	/* Is there any change to the file? */
+#if !FF_FS_TINY
+			if (fp->flag & FA_DIRTY) {	/* Write-back cached data if needed */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) LEAVE_FF(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			/* Update the directory entry */
+			tm = GET_FATTIME();				/* Modified time */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				res = fill_first_frag(&fp->obj);	/* Fill first fragment on the FAT if needed */
+				if (res == FR_OK) {
+					res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
+				}
+				if (res == FR_OK) {
+					DIR dj;
+					DEF_NAMBUF
+
+					INIT_NAMBUF(fs);
+					res = load_obj_xdir(&dj, &fp->obj);	/* Load directory entry block */
+					if (res == FR_OK) {
+						fs->dirbuf[XDIR_Attr] |= AM_ARC;				/* Set archive attribute to indicate that the file has been changed */
+						fs->dirbuf[XDIR_GenFlags] = fp->obj.stat | 1;	/* Update file allocation information */
+						st_dword(fs->dirbuf + XDIR_FstClus, fp->obj.sclust);		/* Update start cluster */
+						st_qword(fs->dirbuf + XDIR_FileSize, fp->obj.objsize);		/* Update file size */
+						st_qword(fs->dirbuf + XDIR_ValidFileSize, fp->obj.objsize);	/* (FatFs does not support Valid File Size feature) */
+						st_dword(fs->dirbuf + XDIR_ModTime, tm);		/* Update modified time */
+						fs->dirbuf[XDIR_ModTime10] = 0;
+						st_dword(fs->dirbuf + XDIR_AccTime, 0);
+						res = store_xdir(&dj);	/* Restore it to the directory */
+						if (res == FR_OK) {
+							res = sync_fs(fs);
+							fp->flag &= (BYTE)~FA_MODIFIED;
+						}
+					}
+					FREE_NAMBUF();
+				}
+			} else
+#endif
+			{
+				res = move_window(fs, fp->dir_sect);
+				if (res == FR_OK) {
+					dir = fp->dir_ptr;
+					dir[DIR_Attr] |= AM_ARC;						/* Set archive attribute to indicate that the file has been changed */
+					st_clust(fp->obj.fs, dir, fp->obj.sclust);		/* Update file allocation information  */
+					st_dword(dir + DIR_FileSize, (DWORD)fp->obj.objsize);	/* Update file size */
+					st_dword(dir + DIR_ModTime, tm);				/* Update modified time */
+					st_word(dir + DIR_LstAccDate, 0);
+					fs->wflag = 1;
+					res = sync_fs(fs);					/* Restore it to the directory */
+					fp->flag &= (BYTE)~FA_MODIFIED;
+				}
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* !FF_FS_READONLY */
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Close File                                                            */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_close (
+	FIL* fp		/* Open file to be closed */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+
+#if !FF_FS_READONLY
+	res = f_sync(fp);					/* Flush cached data */
+	if (res == FR_OK)
+#endif
+	{
+		res = validate(&fp->obj, &fs);	/* Lock volume */
+		if (res == FR_OK) {
+#if FF_FS_LOCK != 0
+			res = dec_lock(fp->obj.lockid);		/* Decrement file open counter */
+			if (res == FR_OK) fp->obj.fs = 0;	/* Invalidate file object */
+#else
+			fp->obj.fs = 0;	/* Invalidate file object */
+#endif
+#if FF_FS_REENTRANT
+			unlock_fs(fs, FR_OK);		/* Unlock volume */
+#endif
+		}
+	}
+	return res;
+}
+
+
+
+
+#if FF_FS_RPATH >= 1
+/*-----------------------------------------------------------------------*/
+/* Change Current Directory or Current Drive, Get Current Directory      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_chdrive (
+	const TCHAR* path		/* Drive number to set */
+)
+{
+	int vol;
+
+
+	/* Get logical drive number */
+	vol = get_ldnumber(&path);
+	if (vol < 0) return FR_INVALID_DRIVE;
+	CurrVol = (BYTE)vol;	/* Set it as current volume */
+
+	return FR_OK;
+}
+
+
+
+FRESULT f_chdir (
+	const TCHAR* path	/* Pointer to the directory path */
+)
+{
+#if FF_STR_VOLUME_ID == 2
+	UINT i;
+#endif
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);		/* Follow the path */
+		if (res == FR_OK) {					/* Follow completed */
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* Is it the start directory itself? */
+				fs->cdir = dj.obj.sclust;
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {
+					fs->cdc_scl = dj.obj.c_scl;
+					fs->cdc_size = dj.obj.c_size;
+					fs->cdc_ofs = dj.obj.c_ofs;
+				}
+#endif
+			} else {
+				if (dj.obj.attr & AM_DIR) {	/* It is a sub-directory */
+#if FF_FS_EXFAT
+					if (fs->fs_type == FS_EXFAT) {
+						fs->cdir = ld_dword(fs->dirbuf + XDIR_FstClus);		/* Sub-directory cluster */
+						fs->cdc_scl = dj.obj.sclust;						/* Save containing directory information */
+						fs->cdc_size = ((DWORD)dj.obj.objsize & 0xFFFFFF00) | dj.obj.stat;
+						fs->cdc_ofs = dj.blk_ofs;
+					} else
+#endif
+					{
+						fs->cdir = ld_clust(fs, dj.dir);					/* Sub-directory cluster */
+					}
+				} else {
+					res = FR_NO_PATH;		/* Reached but a file */
+				}
+			}
+		}
+		FREE_NAMBUF();
+		if (res == FR_NO_FILE) res = FR_NO_PATH;
+#if FF_STR_VOLUME_ID == 2	/* Also current drive is changed if in Unix style volume ID */
+		if (res == FR_OK) {
+			for (i = FF_VOLUMES - 1; i && fs != FatFs[i]; i--) ;	/* Set current drive */
+			CurrVol = (BYTE)i;
+		}
+#endif
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+#if FF_FS_RPATH >= 2
+FRESULT f_getcwd (
+	TCHAR* buff,	/* Pointer to the directory path */
+	UINT len		/* Size of buff in unit of TCHAR */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	UINT i, n;
+	DWORD ccl;
+	TCHAR *tp = buff;
+#if FF_VOLUMES >= 2
+	UINT vl;
+#if FF_STR_VOLUME_ID
+	const char *vp;
+#endif
+#endif
+	FILINFO fno;
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	buff[0] = 0;	/* Set null string to get current volume */
+	res = mount_volume((const TCHAR**)&buff, &fs, 0);	/* Get current volume */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+
+		/* Follow parent directories and create the path */
+		i = len;			/* Bottom of buffer (directory stack base) */
+		if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* (Cannot do getcwd on exFAT and returns root path) */
+			dj.obj.sclust = fs->cdir;				/* Start to follow upper directory from current directory */
+			while ((ccl = dj.obj.sclust) != 0) {	/* Repeat while current directory is a sub-directory */
+				res = dir_sdi(&dj, 1 * SZDIRE);	/* Get parent directory */
+				if (res != FR_OK) break;
+				res = move_window(fs, dj.sect);
+				if (res != FR_OK) break;
+				dj.obj.sclust = ld_clust(fs, dj.dir);	/* Goto parent directory */
+				res = dir_sdi(&dj, 0);
+				if (res != FR_OK) break;
+				do {							/* Find the entry links to the child directory */
+					res = DIR_READ_FILE(&dj);
+					if (res != FR_OK) break;
+					if (ccl == ld_clust(fs, dj.dir)) break;	/* Found the entry */
+					res = dir_next(&dj, 0);
+				} while (res == FR_OK);
+				if (res == FR_NO_FILE) res = FR_INT_ERR;/* It cannot be 'not found'. */
+				if (res != FR_OK) break;
+				get_fileinfo(&dj, &fno);		/* Get the directory name and push it to the buffer */
+				for (n = 0; fno.fname[n]; n++) ;	/* Name length */
+				if (i < n + 1) {	/* Insufficient space to store the path name? */
+					res = FR_NOT_ENOUGH_CORE; break;
+				}
+				while (n) buff[--i] = fno.fname[--n];	/* Stack the name */
+				buff[--i] = '/';
+			}
+		}
+		if (res == FR_OK) {
+			if (i == len) buff[--i] = '/';	/* Is it the root-directory? */
+#if FF_VOLUMES >= 2			/* Put drive prefix */
+			vl = 0;
+#if FF_STR_VOLUME_ID >= 1	/* String volume ID */
+			for (n = 0, vp = (const char*)VolumeStr[CurrVol]; vp[n]; n++) ;
+			if (i >= n + 2) {
+				if (FF_STR_VOLUME_ID == 2) *tp++ = (TCHAR)'/';
+				for (vl = 0; vl < n; *tp++ = (TCHAR)vp[vl], vl++) ;
+				if (FF_STR_VOLUME_ID == 1) *tp++ = (TCHAR)':';
+				vl++;
+			}
+#else						/* Numeric volume ID */
+			if (i >= 3) {
+				*tp++ = (TCHAR)'0' + CurrVol;
+				*tp++ = (TCHAR)':';
+				vl = 2;
+			}
+#endif
+			if (vl == 0) res = FR_NOT_ENOUGH_CORE;
+#endif
+			/* Add current directory path */
+			if (res == FR_OK) {
+				do *tp++ = buff[i++]; while (i < len);	/* Copy stacked path string */
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	*tp = 0;
+	LEAVE_FF(fs, res);
+}
+
+#endif /* FF_FS_RPATH >= 2 */
+#endif /* FF_FS_RPATH >= 1 */
+
+
+
+#if FF_FS_MINIMIZE <= 2
+/*-----------------------------------------------------------------------*/
+/* Seek File Read/Write Pointer                                          */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_lseek (
+	FIL* fp,		/* Pointer to the file object */
+	FSIZE_t ofs		/* File pointer from top of file */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst, bcs;
+	LBA_t nsect;
+	FSIZE_t ifptr;
+#if FF_USE_FASTSEEK
+	DWORD cl, pcl, ncl, tcl, tlen, ulen;
+	DWORD *tbl;
+	LBA_t dsc;
+#endif
+
+	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
+	if (res == FR_OK) res = (FRESULT)fp->err;
+#if FF_FS_EXFAT && !FF_FS_READONLY
+	if (res == FR_OK && fs->fs_type == FS_EXFAT) {
+		res = fill_last_frag(&fp->obj, fp->clust, 0xFFFFFFFF);	/* Fill last fragment on the FAT if needed */
+	}
+#endif
+	if (res != FR_OK) LEAVE_FF(fs, res);
+
+#if FF_USE_FASTSEEK
+	if (fp->cltbl) {	/* Fast seek */
+		if (ofs == CREATE_LINKMAP) {	/* Create CLMT */
+			tbl = fp->cltbl;
+			tlen = *tbl++; ulen = 2;	/* Given table size and required table size */
+			cl = fp->obj.sclust;		/* Origin of the chain */
+			if (cl != 0) {
+				do {
+					/* Get a fragment */
+					tcl = cl; ncl = 0; ulen += 2;	/* Top, length and used items */
+					do {
+						pcl = cl; ncl++;
+						cl = get_fat(&fp->obj, cl);
+						if (cl <= 1) ABORT(fs, FR_INT_ERR);
+						if (cl == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+					} while (cl == pcl + 1);
+					if (ulen <= tlen) {		/* Store the length and top of the fragment */
+						*tbl++ = ncl; *tbl++ = tcl;
+					}
+				} while (cl < fs->n_fatent);	/* Repeat until end of chain */
+			}
+			*fp->cltbl = ulen;	/* Number of items used */
+			if (ulen <= tlen) {
+				*tbl = 0;		/* Terminate table */
+			} else {
+				res = FR_NOT_ENOUGH_CORE;	/* Given table size is smaller than required */
+			}
+		} else {						/* Fast seek */
+			if (ofs > fp->obj.objsize) ofs = fp->obj.objsize;	/* Clip offset at the file size */
+			fp->fptr = ofs;				/* Set file pointer */
+			if (ofs > 0) {
+				fp->clust = clmt_clust(fp, ofs - 1);
+				dsc = clst2sect(fs, fp->clust);
+				if (dsc == 0) ABORT(fs, FR_INT_ERR);
+				dsc += (DWORD)((ofs - 1) / SS(fs)) & (fs->csize - 1);
+				if (fp->fptr % SS(fs) && dsc != fp->sect) {	/* Refill sector cache if needed */
+#if !FF_FS_TINY
+#if !FF_FS_READONLY
+					if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
+						if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+						fp->flag &= (BYTE)~FA_DIRTY;
+					}
+#endif
+					if (disk_read(fs->pdrv, fp->buf, dsc, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Load current sector */
+#endif
+					fp->sect = dsc;
+				}
+			}
+		}
+	} else
+#endif
+
+	/* Normal Seek */
+	{
+#if FF_FS_EXFAT
+		if (fs->fs_type != FS_EXFAT && ofs >= 0x100000000) ofs = 0xFFFFFFFF;	/* Clip at 4 GiB - 1 if at FATxx */
+#endif
+		if (ofs > fp->obj.objsize && (FF_FS_READONLY || !(fp->flag & FA_WRITE))) {	/* In read-only mode, clip offset with the file size */
+			ofs = fp->obj.objsize;
+		}
+		ifptr = fp->fptr;
+		fp->fptr = nsect = 0;
+		if (ofs > 0) {
+			bcs = (DWORD)fs->csize * SS(fs);	/* Cluster size (byte) */
+			if (ifptr > 0 &&
+				(ofs - 1) / bcs >= (ifptr - 1) / bcs) {	/* When seek to same or following cluster, */
+				fp->fptr = (ifptr - 1) & ~(FSIZE_t)(bcs - 1);	/* start from the current cluster */
+				ofs -= fp->fptr;
+				clst = fp->clust;
+			} else {									/* When seek to back cluster, */
+				clst = fp->obj.sclust;					/* start from the first cluster */
+#if !FF_FS_READONLY
+				if (clst == 0 && (fp->flag & FA_WRITE)) {	/* If no cluster chain, create a new chain */
+					clst = create_chain(&fp->obj, 0);
+					if (clst == 1) ABORT(fs, FR_INT_ERR);
+					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+					fp->obj.sclust = clst;
+				}
+#endif
+				fp->clust = clst;
+			}
+			if (clst != 0) {
+				while (ofs > bcs) {						/* Cluster following loop */
+					ofs -= bcs; fp->fptr += bcs;
+#if !FF_FS_READONLY
+					if (fp->flag & FA_WRITE) {			/* Check if in write mode or not */
+						if (FF_FS_EXFAT && fp->fptr > fp->obj.objsize) {	/* No FAT chain object needs correct objsize to generate FAT value */
+							fp->obj.objsize = fp->fptr;
+							fp->flag |= FA_MODIFIED;
+						}
+						clst = create_chain(&fp->obj, clst);	/* Follow chain with forceed stretch */
+						if (clst == 0) {				/* Clip file size in case of disk full */
+							ofs = 0; break;
+						}
+					} else
+#endif
+					{
+						clst = get_fat(&fp->obj, clst);	/* Follow cluster chain if not in write mode */
+					}
+					if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+					if (clst <= 1 || clst >= fs->n_fatent) ABORT(fs, FR_INT_ERR);
+					fp->clust = clst;
+				}
+				fp->fptr += ofs;
+				if (ofs % SS(fs)) {
+					nsect = clst2sect(fs, clst);	/* Current sector */
+					if (nsect == 0) ABORT(fs, FR_INT_ERR);
+					nsect += (DWORD)(ofs / SS(fs));
+				}
+			}
+		}
+		if (!FF_FS_READONLY && fp->fptr > fp->obj.objsize) {	/* Set file change flag if the file size is extended */
+			fp->obj.objsize = fp->fptr;
+			fp->flag |= FA_MODIFIED;
+		}
+		if (fp->fptr % SS(fs) && nsect != fp->sect) {	/* Fill sector cache if needed */
+#if !FF_FS_TINY
+#if !FF_FS_READONLY
+			if (fp->flag & FA_DIRTY) {			/* Write-back dirty sector cache */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			if (disk_read(fs->pdrv, fp->buf, nsect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);	/* Fill sector cache */
+#endif
+			fp->sect = nsect;
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+#if FF_FS_MINIMIZE <= 1
+/*-----------------------------------------------------------------------*/
+/* Create a Directory Object                                             */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_opendir (
+	DIR* dp,			/* Pointer to directory object to create */
+	const TCHAR* path	/* Pointer to the directory path */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	if (!dp) return FR_INVALID_OBJECT;
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+	if (res == FR_OK) {
+		dp->obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(dp, path);			/* Follow the path to the directory */
+		if (res == FR_OK) {						/* Follow completed */
+			if (!(dp->fn[NSFLAG] & NS_NONAME)) {	/* It is not the origin directory itself */
+				if (dp->obj.attr & AM_DIR) {		/* This object is a sub-directory */
+#if FF_FS_EXFAT
+					if (fs->fs_type == FS_EXFAT) {
+						dp->obj.c_scl = dp->obj.sclust;							/* Get containing directory inforamation */
+						dp->obj.c_size = ((DWORD)dp->obj.objsize & 0xFFFFFF00) | dp->obj.stat;
+						dp->obj.c_ofs = dp->blk_ofs;
+						init_alloc_info(fs, &dp->obj);	/* Get object allocation info */
+					} else
+#endif
+					{
+						dp->obj.sclust = ld_clust(fs, dp->dir);	/* Get object allocation info */
+					}
+				} else {						/* This object is a file */
+					res = FR_NO_PATH;
+				}
+			}
+			if (res == FR_OK) {
+				dp->obj.id = fs->id;
+				res = dir_sdi(dp, 0);			/* Rewind directory */
+#if FF_FS_LOCK != 0
+				if (res == FR_OK) {
+					if (dp->obj.sclust != 0) {
+						dp->obj.lockid = inc_lock(dp, 0);	/* Lock the sub directory */
+						if (!dp->obj.lockid) res = FR_TOO_MANY_OPEN_FILES;
+					} else {
+						dp->obj.lockid = 0;	/* Root directory need not to be locked */
+					}
+				}
+#endif
+			}
+		}
+		FREE_NAMBUF();
+		if (res == FR_NO_FILE) res = FR_NO_PATH;
+	}
+	if (res != FR_OK) dp->obj.fs = 0;		/* Invalidate the directory object if function faild */
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Close Directory                                                       */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_closedir (
+	DIR *dp		/* Pointer to the directory object to be closed */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+
+
+	res = validate(&dp->obj, &fs);	/* Check validity of the file object */
+	if (res == FR_OK) {
+#if FF_FS_LOCK != 0
+		if (dp->obj.lockid) res = dec_lock(dp->obj.lockid);	/* Decrement sub-directory open counter */
+		if (res == FR_OK) dp->obj.fs = 0;	/* Invalidate directory object */
+#else
+		dp->obj.fs = 0;	/* Invalidate directory object */
+#endif
+#if FF_FS_REENTRANT
+		unlock_fs(fs, FR_OK);		/* Unlock volume */
+#endif
+	}
+	return res;
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Read Directory Entries in Sequence                                    */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_readdir (
+	DIR* dp,			/* Pointer to the open directory object */
+	FILINFO* fno		/* Pointer to file information to return */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	res = validate(&dp->obj, &fs);	/* Check validity of the directory object */
+	if (res == FR_OK) {
+		if (!fno) {
+			res = dir_sdi(dp, 0);			/* Rewind the directory object */
+		} else {
+			INIT_NAMBUF(fs);
+			res = DIR_READ_FILE(dp);		/* Read an item */
+			if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory */
+			if (res == FR_OK) {				/* A valid entry is found */
+				get_fileinfo(dp, fno);		/* Get the object information */
+				res = dir_next(dp, 0);		/* Increment index for next */
+				if (res == FR_NO_FILE) res = FR_OK;	/* Ignore end of directory now */
+			}
+			FREE_NAMBUF();
+		}
+	}
+	LEAVE_FF(fs, res);
+}
+
+
+
+#if FF_USE_FIND
+/*-----------------------------------------------------------------------*/
+/* Find Next File                                                        */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_findnext (
+	DIR* dp,		/* Pointer to the open directory object */
+	FILINFO* fno	/* Pointer to the file information structure */
+)
+{
+	FRESULT res;
+
+
+	for (;;) {
+		res = f_readdir(dp, fno);		/* Get a directory item */
+		if (res != FR_OK || !fno || !fno->fname[0]) break;	/* Terminate if any error or end of directory */
+		if (pattern_match(dp->pat, fno->fname, 0, FIND_RECURS)) break;		/* Test for the file name */
+#if FF_USE_LFN && FF_USE_FIND == 2
+		if (pattern_match(dp->pat, fno->altname, 0, FIND_RECURS)) break;	/* Test for alternative name if exist */
+#endif
+	}
+	return res;
+}
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Find First File                                                       */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_findfirst (
+	DIR* dp,				/* Pointer to the blank directory object */
+	FILINFO* fno,			/* Pointer to the file information structure */
+	const TCHAR* path,		/* Pointer to the directory to open */
+	const TCHAR* pattern	/* Pointer to the matching pattern */
+)
+{
+	FRESULT res;
+
+
+	dp->pat = pattern;		/* Save pointer to pattern string */
+	res = f_opendir(dp, path);		/* Open the target directory */
+	if (res == FR_OK) {
+		res = f_findnext(dp, fno);	/* Find the first item */
+	}
+	return res;
+}
+
+#endif	/* FF_USE_FIND */
+
+
+
+#if FF_FS_MINIMIZE == 0
+/*-----------------------------------------------------------------------*/
+/* Get File Status                                                       */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_stat (
+	const TCHAR* path,	/* Pointer to the file path */
+	FILINFO* fno		/* Pointer to file information to return */
+)
+{
+	FRESULT res;
+	DIR dj;
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &dj.obj.fs, 0);
+	if (res == FR_OK) {
+		INIT_NAMBUF(dj.obj.fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+		if (res == FR_OK) {				/* Follow completed */
+			if (dj.fn[NSFLAG] & NS_NONAME) {	/* It is origin directory */
+				res = FR_INVALID_NAME;
+			} else {							/* Found an object */
+				if (fno) get_fileinfo(&dj, fno);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(dj.obj.fs, res);
+}
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Get Number of Free Clusters                                           */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_getfree (
+	const TCHAR* path,	/* Logical drive number */
+	DWORD* nclst,		/* Pointer to a variable to return number of free clusters */
+	FATFS** fatfs		/* Pointer to return pointer to corresponding filesystem object */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD nfree, clst, stat;
+	LBA_t sect;
+	UINT i;
+	FFOBJID obj;
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+	if (res == FR_OK) {
+		*fatfs = fs;				/* Return ptr to the fs object */
+		/* If free_clst is valid, return it without full FAT scan */
+		if (fs->free_clst <= fs->n_fatent - 2) {
+			*nclst = fs->free_clst;
+		} else {
+			/* Scan FAT to obtain number of free clusters */
+			nfree = 0;
+			if (fs->fs_type == FS_FAT12) {	/* FAT12: Scan bit field FAT entries */
+				clst = 2; obj.fs = fs;
+				do {
+					stat = get_fat(&obj, clst);
+					if (stat == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
+					if (stat == 1) { res = FR_INT_ERR; break; }
+					if (stat == 0) nfree++;
+				} while (++clst < fs->n_fatent);
+			} else {
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {	/* exFAT: Scan allocation bitmap */
+					BYTE bm;
+					UINT b;
+
+					clst = fs->n_fatent - 2;	/* Number of clusters */
+					sect = fs->bitbase;			/* Bitmap sector */
+					i = 0;						/* Offset in the sector */
+					do {	/* Counts numbuer of bits with zero in the bitmap */
+						if (i == 0) {
+							res = move_window(fs, sect++);
+							if (res != FR_OK) break;
+						}
+						for (b = 8, bm = fs->win[i]; b && clst; b--, clst--) {
+							if (!(bm & 1)) nfree++;
+							bm >>= 1;
+						}
+						i = (i + 1) % SS(fs);
+					} while (clst);
+				} else
+#endif
+				{	/* FAT16/32: Scan WORD/DWORD FAT entries */
+					clst = fs->n_fatent;	/* Number of entries */
+					sect = fs->fatbase;		/* Top of the FAT */
+					i = 0;					/* Offset in the sector */
+					do {	/* Counts numbuer of entries with zero in the FAT */
+						if (i == 0) {
+							res = move_window(fs, sect++);
+							if (res != FR_OK) break;
+						}
+						if (fs->fs_type == FS_FAT16) {
+							if (ld_word(fs->win + i) == 0) nfree++;
+							i += 2;
+						} else {
+							if ((ld_dword(fs->win + i) & 0x0FFFFFFF) == 0) nfree++;
+							i += 4;
+						}
+						i %= SS(fs);
+					} while (--clst);
+				}
+			}
+			if (res == FR_OK) {		/* Update parameters if succeeded */
+				*nclst = nfree;			/* Return the free clusters */
+				fs->free_clst = nfree;	/* Now free_clst is valid */
+				fs->fsi_flag |= 1;		/* FAT32: FSInfo is to be updated */
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Truncate File                                                         */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_truncate (
+	FIL* fp		/* Pointer to the file object */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD ncl;
+
+
+	res = validate(&fp->obj, &fs);	/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
+	if (!(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
+
+	if (fp->fptr < fp->obj.objsize) {	/* Process when fptr is not on the eof */
+		if (fp->fptr == 0) {	/* When set file size to zero, remove entire cluster chain */
+			res = remove_chain(&fp->obj, fp->obj.sclust, 0);
+			fp->obj.sclust = 0;
+		} else {				/* When truncate a part of the file, remove remaining clusters */
+			ncl = get_fat(&fp->obj, fp->clust);
+			res = FR_OK;
+			if (ncl == 0xFFFFFFFF) res = FR_DISK_ERR;
+			if (ncl == 1) res = FR_INT_ERR;
+			if (res == FR_OK && ncl < fs->n_fatent) {
+				res = remove_chain(&fp->obj, ncl, fp->clust);
+			}
+		}
+		fp->obj.objsize = fp->fptr;	/* Set file size to current read/write point */
+		fp->flag |= FA_MODIFIED;
+#if !FF_FS_TINY
+		if (res == FR_OK && (fp->flag & FA_DIRTY)) {
+			if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) {
+				res = FR_DISK_ERR;
+			} else {
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+		}
+#endif
+		if (res != FR_OK) ABORT(fs, res);
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Delete a File/Directory                                               */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_unlink (
+	const TCHAR* path		/* Pointer to the file or directory path */
+)
+{
+	FRESULT res;
+	DIR dj, sdj;
+	DWORD dclst = 0;
+	FATFS *fs;
+#if FF_FS_EXFAT
+	FFOBJID obj;
+#endif
+	DEF_NAMBUF
+
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, FA_WRITE);
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);		/* Follow the file path */
+		if (FF_FS_RPATH && res == FR_OK && (dj.fn[NSFLAG] & NS_DOT)) {
+			res = FR_INVALID_NAME;			/* Cannot remove dot entry */
+		}
+#if FF_FS_LOCK != 0
+		if (res == FR_OK) res = chk_lock(&dj, 2);	/* Check if it is an open object */
+#endif
+		if (res == FR_OK) {					/* The object is accessible */
+			if (dj.fn[NSFLAG] & NS_NONAME) {
+				res = FR_INVALID_NAME;		/* Cannot remove the origin directory */
+			} else {
+				if (dj.obj.attr & AM_RDO) {
+					res = FR_DENIED;		/* Cannot remove R/O object */
+				}
+			}
+			if (res == FR_OK) {
+#if FF_FS_EXFAT
+				obj.fs = fs;
+				if (fs->fs_type == FS_EXFAT) {
+					init_alloc_info(fs, &obj);
+					dclst = obj.sclust;
+				} else
+#endif
+				{
+					dclst = ld_clust(fs, dj.dir);
+				}
+				if (dj.obj.attr & AM_DIR) {			/* Is it a sub-directory? */
+#if FF_FS_RPATH != 0
+					if (dclst == fs->cdir) {	 	/* Is it the current directory? */
+						res = FR_DENIED;
+					} else
+#endif
+					{
+						sdj.obj.fs = fs;			/* Open the sub-directory */
+						sdj.obj.sclust = dclst;
+#if FF_FS_EXFAT
+						if (fs->fs_type == FS_EXFAT) {
+							sdj.obj.objsize = obj.objsize;
+							sdj.obj.stat = obj.stat;
+						}
+#endif
+						res = dir_sdi(&sdj, 0);
+						if (res == FR_OK) {
+							res = DIR_READ_FILE(&sdj);			/* Test if the directory is empty */
+							if (res == FR_OK) res = FR_DENIED;	/* Not empty? */
+							if (res == FR_NO_FILE) res = FR_OK;	/* Empty? */
+						}
+					}
+				}
+			}
+			if (res == FR_OK) {
+				res = dir_remove(&dj);			/* Remove the directory entry */
+				if (res == FR_OK && dclst != 0) {	/* Remove the cluster chain if exist */
+#if FF_FS_EXFAT
+					res = remove_chain(&obj, dclst, 0);
+#else
+					res = remove_chain(&dj.obj, dclst, 0);
+#endif
+				}
+				if (res == FR_OK) res = sync_fs(fs);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Create a Directory                                                    */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_mkdir (
+	const TCHAR* path		/* Pointer to the directory path */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FFOBJID sobj;
+	FATFS *fs;
+	DWORD dcl, pcl, tm;
+	DEF_NAMBUF
+
+
+	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);			/* Follow the file path */
+		if (res == FR_OK) res = FR_EXIST;		/* Name collision? */
+		if (FF_FS_RPATH && res == FR_NO_FILE && (dj.fn[NSFLAG] & NS_DOT)) {	/* Invalid name? */
+			res = FR_INVALID_NAME;
+		}
+		if (res == FR_NO_FILE) {				/* It is clear to create a new directory */
+			sobj.fs = fs;						/* New object id to create a new chain */
+			dcl = create_chain(&sobj, 0);		/* Allocate a cluster for the new directory */
+			res = FR_OK;
+			if (dcl == 0) res = FR_DENIED;		/* No space to allocate a new cluster? */
+			if (dcl == 1) res = FR_INT_ERR;		/* Any insanity? */
+			if (dcl == 0xFFFFFFFF) res = FR_DISK_ERR;	/* Disk error? */
+			tm = GET_FATTIME();
+			if (res == FR_OK) {
+				res = dir_clear(fs, dcl);		/* Clean up the new table */
+				if (res == FR_OK) {
+					if (!FF_FS_EXFAT || fs->fs_type != FS_EXFAT) {	/* Create dot entries (FAT only) */
+						memset(fs->win + DIR_Name, ' ', 11);	/* Create "." entry */
+						fs->win[DIR_Name] = '.';
+						fs->win[DIR_Attr] = AM_DIR;
+						st_dword(fs->win + DIR_ModTime, tm);
+						st_clust(fs, fs->win, dcl);
+						memcpy(fs->win + SZDIRE, fs->win, SZDIRE);	/* Create ".." entry */
+						fs->win[SZDIRE + 1] = '.'; pcl = dj.obj.sclust;
+						st_clust(fs, fs->win + SZDIRE, pcl);
+						fs->wflag = 1;
+					}
+					res = dir_register(&dj);	/* Register the object to the parent directoy */
+				}
+			}
+			if (res == FR_OK) {
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {	/* Initialize directory entry block */
+					st_dword(fs->dirbuf + XDIR_ModTime, tm);	/* Created time */
+					st_dword(fs->dirbuf + XDIR_FstClus, dcl);	/* Table start cluster */
+					st_dword(fs->dirbuf + XDIR_FileSize, (DWORD)fs->csize * SS(fs));	/* Directory size needs to be valid */
+					st_dword(fs->dirbuf + XDIR_ValidFileSize, (DWORD)fs->csize * SS(fs));
+					fs->dirbuf[XDIR_GenFlags] = 3;				/* Initialize the object flag */
+					fs->dirbuf[XDIR_Attr] = AM_DIR;				/* Attribute */
+					res = store_xdir(&dj);
+				} else
+#endif
+				{
+					st_dword(dj.dir + DIR_ModTime, tm);	/* Created time */
+					st_clust(fs, dj.dir, dcl);			/* Table start cluster */
+					dj.dir[DIR_Attr] = AM_DIR;			/* Attribute */
+					fs->wflag = 1;
+				}
+				if (res == FR_OK) {
+					res = sync_fs(fs);
+				}
+			} else {
+				remove_chain(&sobj, dcl, 0);		/* Could not register, remove the allocated cluster */
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Rename a File/Directory                                               */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_rename (
+	const TCHAR* path_old,	/* Pointer to the object name to be renamed */
+	const TCHAR* path_new	/* Pointer to the new name */
+)
+{
+	FRESULT res;
+	DIR djo, djn, dja;
+	FATFS *fs;
+	UINT n;
+	BYTE buf[FF_FS_EXFAT ? SZDIRE * 2 : SZDIRE], *dir;
+	LBA_t sect;
+	DEF_NAMBUF
+
+
+	get_ldnumber(&path_new);						/* Snip the drive number of new name off */
+	res = mount_volume(&path_old, &fs, FA_WRITE);	/* Get logical drive of the old object */
+	if (res == FR_OK) {
+		djo.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&djo, path_old);			/* Check old object */
+		if (res == FR_OK && (djo.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check validity of name */
+#if FF_FS_LOCK != 0
+		if (res == FR_OK) {
+			res = chk_lock(&djo, 2);
+		}
+#endif
+		if (res == FR_OK) {					/* Object to be renamed is found */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {	/* At exFAT volume */
+				BYTE nf, nn;
+				WORD nh;
+
+				memcpy(buf, fs->dirbuf, SZDIRE * 2);	/* Save 85+C0 entry of old object */
+				memcpy(&djn, &djo, sizeof djo);
+				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
+				if (res == FR_OK) {						/* Is new name already in use by any other object? */
+					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) ? FR_NO_FILE : FR_EXIST;
+				}
+				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
+					res = dir_register(&djn);			/* Register the new entry */
+					if (res == FR_OK) {
+						nf = fs->dirbuf[XDIR_NumSec]; nn = fs->dirbuf[XDIR_NumName];
+						nh = ld_word(fs->dirbuf + XDIR_NameHash);
+						memcpy(fs->dirbuf, buf, SZDIRE * 2);	/* Restore 85+C0 entry */
+						fs->dirbuf[XDIR_NumSec] = nf; fs->dirbuf[XDIR_NumName] = nn;
+						st_word(fs->dirbuf + XDIR_NameHash, nh);
+						if (!(fs->dirbuf[XDIR_Attr] & AM_DIR)) fs->dirbuf[XDIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
+/* Start of critical section where an interruption can cause a cross-link */
+						res = store_xdir(&djn);
+					}
+				}
+			} else
+#endif
+			{	/* At FAT/FAT32 volume */
+				memcpy(buf, djo.dir, SZDIRE);			/* Save directory entry of the object */
+				memcpy(&djn, &djo, sizeof (DIR));		/* Duplicate the directory object */
+				res = follow_path(&djn, path_new);		/* Make sure if new object name is not in use */
+				if (res == FR_OK) {						/* Is new name already in use by any other object? */
+					res = (djn.obj.sclust == djo.obj.sclust && djn.dptr == djo.dptr) && !(djn.fn[NSFLAG] & (NS_DOT | NS_NONAME)) ? FR_NO_FILE : FR_EXIST;
+				}
+				if (res == FR_NO_FILE && (buf[DIR_Attr] & AM_DIR)) {	/* A directory cannot be moved into itself */
+					dja.obj.fs = fs;
+					dja.obj.sclust = djn.obj.sclust;
+					for (n = 0; dja.obj.sclust != 0; n++) {	/* Follow parent directories up to the root */
+						if (dja.obj.sclust == ld_clust(fs, buf)) { res = FR_DENIED; break; }
+						if (n >= 0x8000 || dir_sdi(&dja, 1 * SZDIRE) != FR_OK) { res = FR_INT_ERR; break; }
+						if (move_window(fs, dja.sect) != FR_OK) { res = FR_DISK_ERR; break; }
+						dja.obj.sclust = ld_clust(fs, dja.dir);
+					}
+				}
+				if (res == FR_NO_FILE) { 				/* It is a valid path and no name collision */
+					res = dir_register(&djn);			/* Register the new entry */
+					if (res == FR_OK) {
+						dir = djn.dir;					/* Copy directory entry of the object except name */
+						memcpy(dir + 13, buf + 13, SZDIRE - 13);
+						dir[DIR_Attr] = buf[DIR_Attr];
+						if (!(dir[DIR_Attr] & AM_DIR)) dir[DIR_Attr] |= AM_ARC;	/* Set archive attribute if it is a file */
+						fs->wflag = 1;
+						if ((dir[DIR_Attr] & AM_DIR) && djo.obj.sclust != djn.obj.sclust) {	/* Update .. entry in the sub-directory if needed */
+							sect = clst2sect(fs, ld_clust(fs, dir));
+							if (sect == 0) {
+								res = FR_INT_ERR;
+							} else {
+/* Start of critical section where an interruption can cause a cross-link */
+								res = move_window(fs, sect);
+								dir = fs->win + SZDIRE * 1;	/* Ptr to .. entry */
+								if (res == FR_OK && dir[1] == '.') {
+									st_clust(fs, dir, djn.obj.sclust);
+									fs->wflag = 1;
+								}
+							}
+						}
+					}
+				}
+			}
+			if (res == FR_OK) {
+				res = dir_remove(&djo);		/* Remove old entry */
+				if (res == FR_OK) {
+					res = sync_fs(fs);
+				}
+			}
+/* End of the critical section */
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* !FF_FS_READONLY */
+#endif /* FF_FS_MINIMIZE == 0 */
+#endif /* FF_FS_MINIMIZE <= 1 */
+#endif /* FF_FS_MINIMIZE <= 2 */
+
+
+
+#if FF_USE_CHMOD && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Change Attribute                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_chmod (
+	const TCHAR* path,	/* Pointer to the file path */
+	BYTE attr,			/* Attribute bits */
+	BYTE mask			/* Attribute mask to change */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
+		if (res == FR_OK) {
+			mask &= AM_RDO|AM_HID|AM_SYS|AM_ARC;	/* Valid attribute mask */
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				fs->dirbuf[XDIR_Attr] = (attr & mask) | (fs->dirbuf[XDIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
+				res = store_xdir(&dj);
+			} else
+#endif
+			{
+				dj.dir[DIR_Attr] = (attr & mask) | (dj.dir[DIR_Attr] & (BYTE)~mask);	/* Apply attribute change */
+				fs->wflag = 1;
+			}
+			if (res == FR_OK) {
+				res = sync_fs(fs);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Change Timestamp                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_utime (
+	const TCHAR* path,	/* Pointer to the file/directory name */
+	const FILINFO* fno	/* Pointer to the timestamp to be set */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	DEF_NAMBUF
+
+
+	res = mount_volume(&path, &fs, FA_WRITE);	/* Get logical drive */
+	if (res == FR_OK) {
+		dj.obj.fs = fs;
+		INIT_NAMBUF(fs);
+		res = follow_path(&dj, path);	/* Follow the file path */
+		if (res == FR_OK && (dj.fn[NSFLAG] & (NS_DOT | NS_NONAME))) res = FR_INVALID_NAME;	/* Check object validity */
+		if (res == FR_OK) {
+#if FF_FS_EXFAT
+			if (fs->fs_type == FS_EXFAT) {
+				st_dword(fs->dirbuf + XDIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
+				res = store_xdir(&dj);
+			} else
+#endif
+			{
+				st_dword(dj.dir + DIR_ModTime, (DWORD)fno->fdate << 16 | fno->ftime);
+				fs->wflag = 1;
+			}
+			if (res == FR_OK) {
+				res = sync_fs(fs);
+			}
+		}
+		FREE_NAMBUF();
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif	/* FF_USE_CHMOD && !FF_FS_READONLY */
+
+
+
+#if FF_USE_LABEL
+/*-----------------------------------------------------------------------*/
+/* Get Volume Label                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_getlabel (
+	const TCHAR* path,	/* Logical drive number */
+	TCHAR* label,		/* Buffer to store the volume label */
+	DWORD* vsn			/* Variable to store the volume serial number */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	UINT si, di;
+	WCHAR wc;
+
+	/* Get logical drive */
+	res = mount_volume(&path, &fs, 0);
+
+	/* Get volume label */
+	if (res == FR_OK && label) {
+		dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
+		res = dir_sdi(&dj, 0);
+		if (res == FR_OK) {
+		 	res = DIR_READ_LABEL(&dj);		/* Find a volume label entry */
+		 	if (res == FR_OK) {
+#if FF_FS_EXFAT
+				if (fs->fs_type == FS_EXFAT) {
+					WCHAR hs;
+					UINT nw;
+
+					for (si = di = hs = 0; si < dj.dir[XDIR_NumLabel]; si++) {	/* Extract volume label from 83 entry */
+						wc = ld_word(dj.dir + XDIR_Label + si * 2);
+						if (hs == 0 && IsSurrogate(wc)) {	/* Is the code a surrogate? */
+							hs = wc; continue;
+						}
+						nw = put_utf((DWORD)hs << 16 | wc, &label[di], 4);	/* Store it in API encoding */
+						if (nw == 0) { di = 0; break; }		/* Encode error? */
+						di += nw;
+						hs = 0;
+					}
+					if (hs != 0) di = 0;	/* Broken surrogate pair? */
+					label[di] = 0;
+				} else
+#endif
+				{
+					si = di = 0;		/* Extract volume label from AM_VOL entry */
+					while (si < 11) {
+						wc = dj.dir[si++];
+#if FF_USE_LFN && FF_LFN_UNICODE >= 1 	/* Unicode output */
+						if (dbc_1st((BYTE)wc) && si < 11) wc = wc << 8 | dj.dir[si++];	/* Is it a DBC? */
+						wc = ff_oem2uni(wc, CODEPAGE);		/* Convert it into Unicode */
+						if (wc == 0) { di = 0; break; }		/* Invalid char in current code page? */
+						di += put_utf(wc, &label[di], 4);	/* Store it in Unicode */
+#else									/* ANSI/OEM output */
+						label[di++] = (TCHAR)wc;
+#endif
+					}
+					do {				/* Truncate trailing spaces */
+						label[di] = 0;
+						if (di == 0) break;
+					} while (label[--di] == ' ');
+				}
+			}
+		}
+		if (res == FR_NO_FILE) {	/* No label entry and return nul string */
+			label[0] = 0;
+			res = FR_OK;
+		}
+	}
+
+	/* Get volume serial number */
+	if (res == FR_OK && vsn) {
+		res = move_window(fs, fs->volbase);
+		if (res == FR_OK) {
+			switch (fs->fs_type) {
+			case FS_EXFAT:
+				di = BPB_VolIDEx;
+				break;
+
+			case FS_FAT32:
+				di = BS_VolID32;
+				break;
+
+			default:
+				di = BS_VolID;
+			}
+			*vsn = ld_dword(fs->win + di);
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+
+
+#if !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Set Volume Label                                                      */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_setlabel (
+	const TCHAR* label	/* Volume label to set with heading logical drive number */
+)
+{
+	FRESULT res;
+	DIR dj;
+	FATFS *fs;
+	BYTE dirvn[22];
+	UINT di;
+	WCHAR wc;
+	static const char badchr[18] = "+.,;=[]" "/*:<>|\\\"\?\x7F";	/* [0..16] for FAT, [7..16] for exFAT */
+#if FF_USE_LFN
+	DWORD dc;
+#endif
+
+	/* Get logical drive */
+	res = mount_volume(&label, &fs, FA_WRITE);
+	if (res != FR_OK) LEAVE_FF(fs, res);
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {	/* On the exFAT volume */
+		memset(dirvn, 0, 22);
+		di = 0;
+		while ((UINT)*label >= ' ') {	/* Create volume label */
+			dc = tchar2uni(&label);	/* Get a Unicode character */
+			if (dc >= 0x10000) {
+				if (dc == 0xFFFFFFFF || di >= 10) {	/* Wrong surrogate or buffer overflow */
+					dc = 0;
+				} else {
+					st_word(dirvn + di * 2, (WCHAR)(dc >> 16)); di++;
+				}
+			}
+			if (dc == 0 || strchr(&badchr[7], (int)dc) || di >= 11) {	/* Check validity of the volume label */
+				LEAVE_FF(fs, FR_INVALID_NAME);
+			}
+			st_word(dirvn + di * 2, (WCHAR)dc); di++;
+		}
+	} else
+#endif
+	{	/* On the FAT/FAT32 volume */
+		memset(dirvn, ' ', 11);
+		di = 0;
+		while ((UINT)*label >= ' ') {	/* Create volume label */
+#if FF_USE_LFN
+			dc = tchar2uni(&label);
+			wc = (dc < 0x10000) ? ff_uni2oem(ff_wtoupper(dc), CODEPAGE) : 0;
+#else									/* ANSI/OEM input */
+			wc = (BYTE)*label++;
+			if (dbc_1st((BYTE)wc)) wc = dbc_2nd((BYTE)*label) ? wc << 8 | (BYTE)*label++ : 0;
+			if (IsLower(wc)) wc -= 0x20;		/* To upper ASCII characters */
+#if FF_CODE_PAGE == 0
+			if (ExCvt && wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
+#elif FF_CODE_PAGE < 900
+			if (wc >= 0x80) wc = ExCvt[wc - 0x80];	/* To upper extended characters (SBCS cfg) */
+#endif
+#endif
+			if (wc == 0 || strchr(&badchr[0], (int)wc) || di >= (UINT)((wc >= 0x100) ? 10 : 11)) {	/* Reject invalid characters for volume label */
+				LEAVE_FF(fs, FR_INVALID_NAME);
+			}
+			if (wc >= 0x100) dirvn[di++] = (BYTE)(wc >> 8);
+			dirvn[di++] = (BYTE)wc;
+		}
+		if (dirvn[0] == DDEM) LEAVE_FF(fs, FR_INVALID_NAME);	/* Reject illegal name (heading DDEM) */
+		while (di && dirvn[di - 1] == ' ') di--;				/* Snip trailing spaces */
+	}
+
+	/* Set volume label */
+	dj.obj.fs = fs; dj.obj.sclust = 0;	/* Open root directory */
+	res = dir_sdi(&dj, 0);
+	if (res == FR_OK) {
+		res = DIR_READ_LABEL(&dj);	/* Get volume label entry */
+		if (res == FR_OK) {
+			if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
+				dj.dir[XDIR_NumLabel] = (BYTE)di;	/* Change the volume label */
+				memcpy(dj.dir + XDIR_Label, dirvn, 22);
+			} else {
+				if (di != 0) {
+					memcpy(dj.dir, dirvn, 11);	/* Change the volume label */
+				} else {
+					dj.dir[DIR_Name] = DDEM;	/* Remove the volume label */
+				}
+			}
+			fs->wflag = 1;
+			res = sync_fs(fs);
+		} else {			/* No volume label entry or an error */
+			if (res == FR_NO_FILE) {
+				res = FR_OK;
+				if (di != 0) {	/* Create a volume label entry */
+					res = dir_alloc(&dj, 1);	/* Allocate an entry */
+					if (res == FR_OK) {
+						memset(dj.dir, 0, SZDIRE);	/* Clean the entry */
+						if (FF_FS_EXFAT && fs->fs_type == FS_EXFAT) {
+							dj.dir[XDIR_Type] = ET_VLABEL;	/* Create volume label entry */
+							dj.dir[XDIR_NumLabel] = (BYTE)di;
+							memcpy(dj.dir + XDIR_Label, dirvn, 22);
+						} else {
+							dj.dir[DIR_Attr] = AM_VOL;		/* Create volume label entry */
+							memcpy(dj.dir, dirvn, 11);
+						}
+						fs->wflag = 1;
+						res = sync_fs(fs);
+					}
+				}
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* !FF_FS_READONLY */
+#endif /* FF_USE_LABEL */
+
+
+
+#if FF_USE_EXPAND && !FF_FS_READONLY
+/*-----------------------------------------------------------------------*/
+/* Allocate a Contiguous Blocks to the File                              */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_expand (
+	FIL* fp,		/* Pointer to the file object */
+	FSIZE_t fsz,	/* File size to be expanded to */
+	BYTE opt		/* Operation mode 0:Find and prepare or 1:Find and allocate */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD n, clst, stcl, scl, ncl, tcl, lclst;
+
+
+	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
+	if (fsz == 0 || fp->obj.objsize != 0 || !(fp->flag & FA_WRITE)) LEAVE_FF(fs, FR_DENIED);
+#if FF_FS_EXFAT
+	if (fs->fs_type != FS_EXFAT && fsz >= 0x100000000) LEAVE_FF(fs, FR_DENIED);	/* Check if in size limit */
+#endif
+	n = (DWORD)fs->csize * SS(fs);	/* Cluster size */
+	tcl = (DWORD)(fsz / n) + ((fsz & (n - 1)) ? 1 : 0);	/* Number of clusters required */
+	stcl = fs->last_clst; lclst = 0;
+	if (stcl < 2 || stcl >= fs->n_fatent) stcl = 2;
+
+#if FF_FS_EXFAT
+	if (fs->fs_type == FS_EXFAT) {
+		scl = find_bitmap(fs, stcl, tcl);			/* Find a contiguous cluster block */
+		if (scl == 0) res = FR_DENIED;				/* No contiguous cluster block was found */
+		if (scl == 0xFFFFFFFF) res = FR_DISK_ERR;
+		if (res == FR_OK) {	/* A contiguous free area is found */
+			if (opt) {		/* Allocate it now */
+				res = change_bitmap(fs, scl, tcl, 1);	/* Mark the cluster block 'in use' */
+				lclst = scl + tcl - 1;
+			} else {		/* Set it as suggested point for next allocation */
+				lclst = scl - 1;
+			}
+		}
+	} else
+#endif
+	{
+		scl = clst = stcl; ncl = 0;
+		for (;;) {	/* Find a contiguous cluster block */
+			n = get_fat(&fp->obj, clst);
+			if (++clst >= fs->n_fatent) clst = 2;
+			if (n == 1) { res = FR_INT_ERR; break; }
+			if (n == 0xFFFFFFFF) { res = FR_DISK_ERR; break; }
+			if (n == 0) {	/* Is it a free cluster? */
+				if (++ncl == tcl) break;	/* Break if a contiguous cluster block is found */
+			} else {
+				scl = clst; ncl = 0;		/* Not a free cluster */
+			}
+			if (clst == stcl) { res = FR_DENIED; break; }	/* No contiguous cluster? */
+		}
+		if (res == FR_OK) {	/* A contiguous free area is found */
+			if (opt) {		/* Allocate it now */
+				for (clst = scl, n = tcl; n; clst++, n--) {	/* Create a cluster chain on the FAT */
+					res = put_fat(fs, clst, (n == 1) ? 0xFFFFFFFF : clst + 1);
+					if (res != FR_OK) break;
+					lclst = clst;
+				}
+			} else {		/* Set it as suggested point for next allocation */
+				lclst = scl - 1;
+			}
+		}
+	}
+
+	if (res == FR_OK) {
+		fs->last_clst = lclst;		/* Set suggested start cluster to start next */
+		if (opt) {	/* Is it allocated now? */
+			fp->obj.sclust = scl;		/* Update object allocation information */
+			fp->obj.objsize = fsz;
+			if (FF_FS_EXFAT) fp->obj.stat = 2;	/* Set status 'contiguous chain' */
+			fp->flag |= FA_MODIFIED;
+			if (fs->free_clst <= fs->n_fatent - 2) {	/* Update FSINFO */
+				fs->free_clst -= tcl;
+				fs->fsi_flag |= 1;
+			}
+		}
+	}
+
+	LEAVE_FF(fs, res);
+}
+
+#endif /* FF_USE_EXPAND && !FF_FS_READONLY */
+
+
+
+#if FF_USE_FORWARD
+/*-----------------------------------------------------------------------*/
+/* Forward Data to the Stream Directly                                   */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_forward (
+	FIL* fp, 						/* Pointer to the file object */
+	UINT (*func)(const BYTE*,UINT),	/* Pointer to the streaming function */
+	UINT btf,						/* Number of bytes to forward */
+	UINT* bf						/* Pointer to number of bytes forwarded */
+)
+{
+	FRESULT res;
+	FATFS *fs;
+	DWORD clst;
+	LBA_t sect;
+	FSIZE_t remain;
+	UINT rcnt, csect;
+	BYTE *dbuf;
+
+
+	*bf = 0;	/* Clear transfer byte counter */
+	res = validate(&fp->obj, &fs);		/* Check validity of the file object */
+	if (res != FR_OK || (res = (FRESULT)fp->err) != FR_OK) LEAVE_FF(fs, res);
+	if (!(fp->flag & FA_READ)) LEAVE_FF(fs, FR_DENIED);	/* Check access mode */
+
+	remain = fp->obj.objsize - fp->fptr;
+	if (btf > remain) btf = (UINT)remain;			/* Truncate btf by remaining bytes */
+
+	for ( ; btf > 0 && (*func)(0, 0); fp->fptr += rcnt, *bf += rcnt, btf -= rcnt) {	/* Repeat until all data transferred or stream goes busy */
+		csect = (UINT)(fp->fptr / SS(fs) & (fs->csize - 1));	/* Sector offset in the cluster */
+		if (fp->fptr % SS(fs) == 0) {				/* On the sector boundary? */
+			if (csect == 0) {						/* On the cluster boundary? */
+				clst = (fp->fptr == 0) ?			/* On the top of the file? */
+					fp->obj.sclust : get_fat(&fp->obj, fp->clust);
+				if (clst <= 1) ABORT(fs, FR_INT_ERR);
+				if (clst == 0xFFFFFFFF) ABORT(fs, FR_DISK_ERR);
+				fp->clust = clst;					/* Update current cluster */
+			}
+		}
+		sect = clst2sect(fs, fp->clust);			/* Get current data sector */
+		if (sect == 0) ABORT(fs, FR_INT_ERR);
+		sect += csect;
+#if FF_FS_TINY
+		if (move_window(fs, sect) != FR_OK) ABORT(fs, FR_DISK_ERR);	/* Move sector window to the file data */
+		dbuf = fs->win;
+#else
+		if (fp->sect != sect) {		/* Fill sector cache with file data */
+#if !FF_FS_READONLY
+			if (fp->flag & FA_DIRTY) {		/* Write-back dirty sector cache */
+				if (disk_write(fs->pdrv, fp->buf, fp->sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+				fp->flag &= (BYTE)~FA_DIRTY;
+			}
+#endif
+			if (disk_read(fs->pdrv, fp->buf, sect, 1) != RES_OK) ABORT(fs, FR_DISK_ERR);
+		}
+		dbuf = fp->buf;
+#endif
+		fp->sect = sect;
+		rcnt = SS(fs) - (UINT)fp->fptr % SS(fs);	/* Number of bytes remains in the sector */
+		if (rcnt > btf) rcnt = btf;					/* Clip it by btr if needed */
+		rcnt = (*func)(dbuf + ((UINT)fp->fptr % SS(fs)), rcnt);	/* Forward the file data */
+		if (rcnt == 0) ABORT(fs, FR_INT_ERR);
+	}
+
+	LEAVE_FF(fs, FR_OK);
+}
+#endif /* FF_USE_FORWARD */
+
+
+
+#if !FF_FS_READONLY && FF_USE_MKFS
+/*-----------------------------------------------------------------------*/
+/* Create FAT/exFAT volume (with sub-functions)                          */
+/*-----------------------------------------------------------------------*/
+
+#define N_SEC_TRACK 63			/* Sectors per track for determination of drive CHS */
+#define	GPT_ALIGN	0x100000	/* Alignment of partitions in GPT [byte] (>=128KB) */
+#define GPT_ITEMS	128			/* Number of GPT table size (>=128, sector aligned) */
+
+
+/* Create partitions on the physical drive in format of MBR or GPT */
+
+static FRESULT create_partition (
+	BYTE drv,			/* Physical drive number */
+	const LBA_t plst[],	/* Partition list */
+	BYTE sys,			/* System ID (for only MBR, temp setting) */
+	BYTE* buf			/* Working buffer for a sector */
+)
+{
+	UINT i, cy;
+	LBA_t sz_drv;
+	DWORD sz_drv32, nxt_alloc32, sz_part32;
+	BYTE *pte;
+	BYTE hd, n_hd, sc, n_sc;
+
+	/* Get physical drive size */
+	if (disk_ioctl(drv, GET_SECTOR_COUNT, &sz_drv) != RES_OK) return FR_DISK_ERR;
+
+#if FF_LBA64
+	if (sz_drv >= FF_MIN_GPT) {	/* Create partitions in GPT format */
+		WORD ss;
+		UINT sz_ptbl, pi, si, ofs;
+		DWORD bcc, rnd, align;
+		QWORD nxt_alloc, sz_part, sz_pool, top_bpt;
+		static const BYTE gpt_mbr[16] = {0x00, 0x00, 0x02, 0x00, 0xEE, 0xFE, 0xFF, 0x00, 0x01, 0x00, 0x00, 0x00, 0xFF, 0xFF, 0xFF, 0xFF};
+
+#if FF_MAX_SS != FF_MIN_SS
+		if (disk_ioctl(drv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;	/* Get sector size */
+		if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
+#else
+		ss = FF_MAX_SS;
+#endif
+		rnd = (DWORD)sz_drv + GET_FATTIME();	/* Random seed */
+		align = GPT_ALIGN / ss;				/* Partition alignment for GPT [sector] */
+		sz_ptbl = GPT_ITEMS * SZ_GPTE / ss;	/* Size of partition table [sector] */
+		top_bpt = sz_drv - sz_ptbl - 1;		/* Backup partiiton table start sector */
+		nxt_alloc = 2 + sz_ptbl;			/* First allocatable sector */
+		sz_pool = top_bpt - nxt_alloc;		/* Size of allocatable area */
+		bcc = 0xFFFFFFFF; sz_part = 1;
+		pi = si = 0;	/* partition table index, size table index */
+		do {
+			if (pi * SZ_GPTE % ss == 0) memset(buf, 0, ss);	/* Clean the buffer if needed */
+			if (sz_part != 0) {				/* Is the size table not termintated? */
+				nxt_alloc = (nxt_alloc + align - 1) & ((QWORD)0 - align);	/* Align partition start */
+				sz_part = plst[si++];		/* Get a partition size */
+				if (sz_part <= 100) {		/* Is the size in percentage? */
+					sz_part = sz_pool * sz_part / 100;
+					sz_part = (sz_part + align - 1) & ((QWORD)0 - align);	/* Align partition end (only if in percentage) */
+				}
+				if (nxt_alloc + sz_part > top_bpt) {	/* Clip the size at end of the pool */
+					sz_part = (nxt_alloc < top_bpt) ? top_bpt - nxt_alloc : 0;
+				}
+			}
+			if (sz_part != 0) {				/* Add a partition? */
+				ofs = pi * SZ_GPTE % ss;
+				memcpy(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16);	/* Set partition GUID (Microsoft Basic Data) */
+				rnd = make_rand(rnd, buf + ofs + GPTE_UpGuid, 16);	/* Set unique partition GUID */
+				st_qword(buf + ofs + GPTE_FstLba, nxt_alloc);		/* Set partition start sector */
+				st_qword(buf + ofs + GPTE_LstLba, nxt_alloc + sz_part - 1);	/* Set partition end sector */
+				nxt_alloc += sz_part;								/* Next allocatable sector */
+			}
+			if ((pi + 1) * SZ_GPTE % ss == 0) {		/* Write the buffer if it is filled up */
+				for (i = 0; i < ss; bcc = crc32(bcc, buf[i++])) ;	/* Calculate table check sum */
+				if (disk_write(drv, buf, 2 + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;		/* Write to primary table */
+				if (disk_write(drv, buf, top_bpt + pi * SZ_GPTE / ss, 1) != RES_OK) return FR_DISK_ERR;	/* Write to secondary table */
+			}
+		} while (++pi < GPT_ITEMS);
+
+		/* Create primary GPT header */
+		memset(buf, 0, ss);
+		memcpy(buf + GPTH_Sign, "EFI PART" "\0\0\1\0" "\x5C\0\0", 16);	/* Signature, version (1.0) and size (92) */
+		st_dword(buf + GPTH_PtBcc, ~bcc);			/* Table check sum */
+		st_qword(buf + GPTH_CurLba, 1);				/* LBA of this header */
+		st_qword(buf + GPTH_BakLba, sz_drv - 1);	/* LBA of secondary header */
+		st_qword(buf + GPTH_FstLba, 2 + sz_ptbl);	/* LBA of first allocatable sector */
+		st_qword(buf + GPTH_LstLba, top_bpt - 1);	/* LBA of last allocatable sector */
+		st_dword(buf + GPTH_PteSize, SZ_GPTE);		/* Size of a table entry */
+		st_dword(buf + GPTH_PtNum, GPT_ITEMS);		/* Number of table entries */
+		st_dword(buf + GPTH_PtOfs, 2);				/* LBA of this table */
+		rnd = make_rand(rnd, buf + GPTH_DskGuid, 16);	/* Disk GUID */
+		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
+		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
+		if (disk_write(drv, buf, 1, 1) != RES_OK) return FR_DISK_ERR;
+
+		/* Create secondary GPT header */
+		st_qword(buf + GPTH_CurLba, sz_drv - 1);	/* LBA of this header */
+		st_qword(buf + GPTH_BakLba, 1);				/* LBA of primary header */
+		st_qword(buf + GPTH_PtOfs, top_bpt);		/* LBA of this table */
+		st_dword(buf + GPTH_Bcc, 0);
+		for (i = 0, bcc= 0xFFFFFFFF; i < 92; bcc = crc32(bcc, buf[i++])) ;	/* Calculate header check sum */
+		st_dword(buf + GPTH_Bcc, ~bcc);				/* Header check sum */
+		if (disk_write(drv, buf, sz_drv - 1, 1) != RES_OK) return FR_DISK_ERR;
+
+		/* Create protective MBR */
+		memset(buf, 0, ss);
+		memcpy(buf + MBR_Table, gpt_mbr, 16);		/* Create a GPT partition */
+		st_word(buf + BS_55AA, 0xAA55);
+		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;
+
+	} else
+#endif
+	{	/* Create partitions in MBR format */
+		sz_drv32 = (DWORD)sz_drv;
+		n_sc = N_SEC_TRACK;				/* Determine drive CHS without any consideration of the drive geometry */
+		for (n_hd = 8; n_hd != 0 && sz_drv32 / n_hd / n_sc > 1024; n_hd *= 2) ;
+		if (n_hd == 0) n_hd = 255;		/* Number of heads needs to be <256 */
+
+		memset(buf, 0, FF_MAX_SS);		/* Clear MBR */
+		pte = buf + MBR_Table;	/* Partition table in the MBR */
+		for (i = 0, nxt_alloc32 = n_sc; i < 4 && nxt_alloc32 != 0 && nxt_alloc32 < sz_drv32; i++, nxt_alloc32 += sz_part32) {
+			sz_part32 = (DWORD)plst[i];	/* Get partition size */
+			if (sz_part32 <= 100) sz_part32 = (sz_part32 == 100) ? sz_drv32 : sz_drv32 / 100 * sz_part32;	/* Size in percentage? */
+			if (nxt_alloc32 + sz_part32 > sz_drv32 || nxt_alloc32 + sz_part32 < nxt_alloc32) sz_part32 = sz_drv32 - nxt_alloc32;	/* Clip at drive size */
+			if (sz_part32 == 0) break;	/* End of table or no sector to allocate? */
+
+			st_dword(pte + PTE_StLba, nxt_alloc32);	/* Start LBA */
+			st_dword(pte + PTE_SizLba, sz_part32);	/* Number of sectors */
+			pte[PTE_System] = sys;					/* System type */
+
+			cy = (UINT)(nxt_alloc32 / n_sc / n_hd);	/* Start cylinder */
+			hd = (BYTE)(nxt_alloc32 / n_sc % n_hd);	/* Start head */
+			sc = (BYTE)(nxt_alloc32 % n_sc + 1);	/* Start sector */
+			pte[PTE_StHead] = hd;
+			pte[PTE_StSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
+			pte[PTE_StCyl] = (BYTE)cy;
+
+			cy = (UINT)((nxt_alloc32 + sz_part32 - 1) / n_sc / n_hd);	/* End cylinder */
+			hd = (BYTE)((nxt_alloc32 + sz_part32 - 1) / n_sc % n_hd);	/* End head */
+			sc = (BYTE)((nxt_alloc32 + sz_part32 - 1) % n_sc + 1);		/* End sector */
+			pte[PTE_EdHead] = hd;
+			pte[PTE_EdSec] = (BYTE)((cy >> 2 & 0xC0) | sc);
+			pte[PTE_EdCyl] = (BYTE)cy;
+
+			pte += SZ_PTE;		/* Next entry */
+		}
+
+		st_word(buf + BS_55AA, 0xAA55);		/* MBR signature */
+		if (disk_write(drv, buf, 0, 1) != RES_OK) return FR_DISK_ERR;	/* Write it to the MBR */
+	}
+
+	return FR_OK;
+}
+
+
+
+FRESULT f_mkfs (
+	const TCHAR* path,		/* Logical drive number */
+	const MKFS_PARM* opt,	/* Format options */
+	void* work,				/* Pointer to working buffer (null: use heap memory) */
+	UINT len				/* Size of working buffer [byte] */
+)
+{
+	static const WORD cst[] = {1, 4, 16, 64, 256, 512, 0};	/* Cluster size boundary for FAT volume (4Ks unit) */
+	static const WORD cst32[] = {1, 2, 4, 8, 16, 32, 0};	/* Cluster size boundary for FAT32 volume (128Ks unit) */
+	static const MKFS_PARM defopt = {FM_ANY, 0, 0, 0, 0};	/* Default parameter */
+	BYTE fsopt, fsty, sys, *buf, *pte, pdrv, ipart;
+	WORD ss;	/* Sector size */
+	DWORD sz_buf, sz_blk, n_clst, pau, nsect, n, vsn;
+	LBA_t sz_vol, b_vol, b_fat, b_data;		/* Size of volume, Base LBA of volume, fat, data */
+	LBA_t sect, lba[2];
+	DWORD sz_rsv, sz_fat, sz_dir, sz_au;	/* Size of reserved, fat, dir, data, cluster */
+	UINT n_fat, n_root, i;					/* Index, Number of FATs and Number of roor dir entries */
+	int vol;
+	DSTATUS ds;
+	FRESULT fr;
+
+
+	/* Check mounted drive and clear work area */
+	vol = get_ldnumber(&path);					/* Get target logical drive */
+	if (vol < 0) return FR_INVALID_DRIVE;
+	if (FatFs[vol]) FatFs[vol]->fs_type = 0;	/* Clear the fs object if mounted */
+	pdrv = LD2PD(vol);			/* Physical drive */
+	ipart = LD2PT(vol);			/* Partition (0:create as new, 1..:get from partition table) */
+	if (!opt) opt = &defopt;	/* Use default parameter if it is not given */
+
+	/* Get physical drive status (sz_drv, sz_blk, ss) */
+	ds = disk_initialize(pdrv);
+	if (ds & STA_NOINIT) return FR_NOT_READY;
+	if (ds & STA_PROTECT) return FR_WRITE_PROTECTED;
+	sz_blk = opt->align;
+	if (sz_blk == 0 && disk_ioctl(pdrv, GET_BLOCK_SIZE, &sz_blk) != RES_OK) sz_blk = 1;
+ 	if (sz_blk == 0 || sz_blk > 0x8000 || (sz_blk & (sz_blk - 1))) sz_blk = 1;
+#if FF_MAX_SS != FF_MIN_SS
+	if (disk_ioctl(pdrv, GET_SECTOR_SIZE, &ss) != RES_OK) return FR_DISK_ERR;
+	if (ss > FF_MAX_SS || ss < FF_MIN_SS || (ss & (ss - 1))) return FR_DISK_ERR;
+#else
+	ss = FF_MAX_SS;
+#endif
+	/* Options for FAT sub-type and FAT parameters */
+	fsopt = opt->fmt & (FM_ANY | FM_SFD);
+	n_fat = (opt->n_fat >= 1 && opt->n_fat <= 2) ? opt->n_fat : 1;
+	n_root = (opt->n_root >= 1 && opt->n_root <= 32768 && (opt->n_root % (ss / SZDIRE)) == 0) ? opt->n_root : 512;
+	sz_au = (opt->au_size <= 0x1000000 && (opt->au_size & (opt->au_size - 1)) == 0) ? opt->au_size : 0;
+	sz_au /= ss;	/* Byte --> Sector */
+
+	/* Get working buffer */
+	sz_buf = len / ss;		/* Size of working buffer [sector] */
+	if (sz_buf == 0) return FR_NOT_ENOUGH_CORE;
+	buf = (BYTE*)work;		/* Working buffer */
+#if FF_USE_LFN == 3
+	if (!buf) buf = ff_memalloc(sz_buf * ss);	/* Use heap memory for working buffer */
+#endif
+	if (!buf) return FR_NOT_ENOUGH_CORE;
+
+	/* Determine where the volume to be located (b_vol, sz_vol) */
+	b_vol = sz_vol = 0;
+	if (FF_MULTI_PARTITION && ipart != 0) {	/* Is the volume associated with any specific partition? */
+		/* Get partition location from the existing partition table */
+		if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load MBR */
+		if (ld_word(buf + BS_55AA) != 0xAA55) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if MBR is valid */
+#if FF_LBA64
+		if (buf[MBR_Table + PTE_System] == 0xEE) {	/* GPT protective MBR? */
+			DWORD n_ent, ofs;
+			QWORD pt_lba;
+
+			/* Get the partition location from GPT */
+			if (disk_read(pdrv, buf, 1, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Load GPT header sector (next to MBR) */
+			if (!test_gpt_header(buf)) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if GPT header is valid */
+			n_ent = ld_dword(buf + GPTH_PtNum);		/* Number of entries */
+			pt_lba = ld_qword(buf + GPTH_PtOfs);	/* Table start sector */
+			ofs = i = 0;
+			while (n_ent) {		/* Find MS Basic partition with order of ipart */
+				if (ofs == 0 && disk_read(pdrv, buf, pt_lba++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Get PT sector */
+				if (!memcmp(buf + ofs + GPTE_PtGuid, GUID_MS_Basic, 16) && ++i == ipart) {	/* MS basic data partition? */
+					b_vol = ld_qword(buf + ofs + GPTE_FstLba);
+					sz_vol = ld_qword(buf + ofs + GPTE_LstLba) - b_vol + 1;
+					break;
+				}
+				n_ent--; ofs = (ofs + SZ_GPTE) % ss;	/* Next entry */
+			}
+			if (n_ent == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Partition not found */
+			fsopt |= 0x80;	/* Partitioning is in GPT */
+		} else
+#endif
+		{	/* Get the partition location from MBR partition table */
+			pte = buf + (MBR_Table + (ipart - 1) * SZ_PTE);
+			if (ipart > 4 || pte[PTE_System] == 0) LEAVE_MKFS(FR_MKFS_ABORTED);	/* No partition? */
+			b_vol = ld_dword(pte + PTE_StLba);		/* Get volume start sector */
+			sz_vol = ld_dword(pte + PTE_SizLba);	/* Get volume size */
+		}
+	} else {	/* The volume is associated with a physical drive */
+		if (disk_ioctl(pdrv, GET_SECTOR_COUNT, &sz_vol) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+		if (!(fsopt & FM_SFD)) {	/* To be partitioned? */
+			/* Create a single-partition on the drive in this function */
+#if FF_LBA64
+			if (sz_vol >= FF_MIN_GPT) {	/* Which partition type to create, MBR or GPT? */
+				fsopt |= 0x80;		/* Partitioning is in GPT */
+				b_vol = GPT_ALIGN / ss; sz_vol -= b_vol + GPT_ITEMS * SZ_GPTE / ss + 1;	/* Estimated partition offset and size */
+			} else
+#endif
+			{	/* Partitioning is in MBR */
+				if (sz_vol > N_SEC_TRACK) {
+					b_vol = N_SEC_TRACK; sz_vol -= b_vol;	/* Estimated partition offset and size */
+				}
+			}
+		}
+	}
+	if (sz_vol < 128) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Check if volume size is >=128s */
+
+	/* Now start to create an FAT volume at b_vol and sz_vol */
+
+	do {	/* Pre-determine the FAT type */
+		if (FF_FS_EXFAT && (fsopt & FM_EXFAT)) {	/* exFAT possible? */
+			if ((fsopt & FM_ANY) == FM_EXFAT || sz_vol >= 0x4000000 || sz_au > 128) {	/* exFAT only, vol >= 64MS or sz_au > 128S ? */
+				fsty = FS_EXFAT; break;
+			}
+		}
+#if FF_LBA64
+		if (sz_vol >= 0x100000000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too large volume for FAT/FAT32 */
+#endif
+		if (sz_au > 128) sz_au = 128;	/* Invalid AU for FAT/FAT32? */
+		if (fsopt & FM_FAT32) {	/* FAT32 possible? */
+			if (!(fsopt & FM_FAT)) {	/* no-FAT? */
+				fsty = FS_FAT32; break;
+			}
+		}
+		if (!(fsopt & FM_FAT)) LEAVE_MKFS(FR_INVALID_PARAMETER);	/* no-FAT? */
+		fsty = FS_FAT16;
+	} while (0);
+
+	vsn = (DWORD)sz_vol + GET_FATTIME();	/* VSN generated from current time and partitiion size */
+
+#if FF_FS_EXFAT
+	if (fsty == FS_EXFAT) {	/* Create an exFAT volume */
+		DWORD szb_bit, szb_case, sum, nbit, clu, clen[3];
+		WCHAR ch, si;
+		UINT j, st;
+
+		if (sz_vol < 0x1000) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume for exFAT? */
+#if FF_USE_TRIM
+		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
+		disk_ioctl(pdrv, CTRL_TRIM, lba);
+#endif
+		/* Determine FAT location, data location and number of clusters */
+		if (sz_au == 0) {	/* AU auto-selection */
+			sz_au = 8;
+			if (sz_vol >= 0x80000) sz_au = 64;		/* >= 512Ks */
+			if (sz_vol >= 0x4000000) sz_au = 256;	/* >= 64Ms */
+		}
+		b_fat = b_vol + 32;										/* FAT start at offset 32 */
+		sz_fat = (DWORD)((sz_vol / sz_au + 2) * 4 + ss - 1) / ss;	/* Number of FAT sectors */
+		b_data = (b_fat + sz_fat + sz_blk - 1) & ~((LBA_t)sz_blk - 1);	/* Align data area to the erase block boundary */
+		if (b_data - b_vol >= sz_vol / 2) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
+		n_clst = (DWORD)(sz_vol - (b_data - b_vol)) / sz_au;	/* Number of clusters */
+		if (n_clst <16) LEAVE_MKFS(FR_MKFS_ABORTED);			/* Too few clusters? */
+		if (n_clst > MAX_EXFAT) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters? */
+
+		szb_bit = (n_clst + 7) / 8;								/* Size of allocation bitmap */
+		clen[0] = (szb_bit + sz_au * ss - 1) / (sz_au * ss);	/* Number of allocation bitmap clusters */
+
+		/* Create a compressed up-case table */
+		sect = b_data + sz_au * clen[0];	/* Table start sector */
+		sum = 0;							/* Table checksum to be stored in the 82 entry */
+		st = 0; si = 0; i = 0; j = 0; szb_case = 0;
+		do {
+			switch (st) {
+			case 0:
+				ch = (WCHAR)ff_wtoupper(si);	/* Get an up-case char */
+				if (ch != si) {
+					si++; break;		/* Store the up-case char if exist */
+				}
+				for (j = 1; (WCHAR)(si + j) && (WCHAR)(si + j) == ff_wtoupper((WCHAR)(si + j)); j++) ;	/* Get run length of no-case block */
+				if (j >= 128) {
+					ch = 0xFFFF; st = 2; break;	/* Compress the no-case block if run is >= 128 chars */
+				}
+				st = 1;			/* Do not compress short run */
+				/* FALLTHROUGH */
+			case 1:
+				ch = si++;		/* Fill the short run */
+				if (--j == 0) st = 0;
+				break;
+
+			default:
+				ch = (WCHAR)j; si += (WCHAR)j;	/* Number of chars to skip */
+				st = 0;
+			}
+			sum = xsum32(buf[i + 0] = (BYTE)ch, sum);	/* Put it into the write buffer */
+			sum = xsum32(buf[i + 1] = (BYTE)(ch >> 8), sum);
+			i += 2; szb_case += 2;
+			if (si == 0 || i == sz_buf * ss) {		/* Write buffered data when buffer full or end of process */
+				n = (i + ss - 1) / ss;
+				if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+				sect += n; i = 0;
+			}
+		} while (si);
+		clen[1] = (szb_case + sz_au * ss - 1) / (sz_au * ss);	/* Number of up-case table clusters */
+		clen[2] = 1;	/* Number of root dir clusters */
+
+		/* Initialize the allocation bitmap */
+		sect = b_data; nsect = (szb_bit + ss - 1) / ss;	/* Start of bitmap and number of bitmap sectors */
+		nbit = clen[0] + clen[1] + clen[2];				/* Number of clusters in-use by system (bitmap, up-case and root-dir) */
+		do {
+			memset(buf, 0, sz_buf * ss);				/* Initialize bitmap buffer */
+			for (i = 0; nbit != 0 && i / 8 < sz_buf * ss; buf[i / 8] |= 1 << (i % 8), i++, nbit--) ;	/* Mark used clusters */
+			n = (nsect > sz_buf) ? sz_buf : nsect;		/* Write the buffered data */
+			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			sect += n; nsect -= n;
+		} while (nsect);
+
+		/* Initialize the FAT */
+		sect = b_fat; nsect = sz_fat;	/* Start of FAT and number of FAT sectors */
+		j = nbit = clu = 0;
+		do {
+			memset(buf, 0, sz_buf * ss); i = 0;	/* Clear work area and reset write offset */
+			if (clu == 0) {	/* Initialize FAT [0] and FAT[1] */
+				st_dword(buf + i, 0xFFFFFFF8); i += 4; clu++;
+				st_dword(buf + i, 0xFFFFFFFF); i += 4; clu++;
+			}
+			do {			/* Create chains of bitmap, up-case and root dir */
+				while (nbit != 0 && i < sz_buf * ss) {	/* Create a chain */
+					st_dword(buf + i, (nbit > 1) ? clu + 1 : 0xFFFFFFFF);
+					i += 4; clu++; nbit--;
+				}
+				if (nbit == 0 && j < 3) nbit = clen[j++];	/* Get next chain length */
+			} while (nbit != 0 && i < sz_buf * ss);
+			n = (nsect > sz_buf) ? sz_buf : nsect;	/* Write the buffered data */
+			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			sect += n; nsect -= n;
+		} while (nsect);
+
+		/* Initialize the root directory */
+		memset(buf, 0, sz_buf * ss);
+		buf[SZDIRE * 0 + 0] = ET_VLABEL;				/* Volume label entry (no label) */
+		buf[SZDIRE * 1 + 0] = ET_BITMAP;				/* Bitmap entry */
+		st_dword(buf + SZDIRE * 1 + 20, 2);				/*  cluster */
+		st_dword(buf + SZDIRE * 1 + 24, szb_bit);		/*  size */
+		buf[SZDIRE * 2 + 0] = ET_UPCASE;				/* Up-case table entry */
+		st_dword(buf + SZDIRE * 2 + 4, sum);			/*  sum */
+		st_dword(buf + SZDIRE * 2 + 20, 2 + clen[0]);	/*  cluster */
+		st_dword(buf + SZDIRE * 2 + 24, szb_case);		/*  size */
+		sect = b_data + sz_au * (clen[0] + clen[1]); nsect = sz_au;	/* Start of the root directory and number of sectors */
+		do {	/* Fill root directory sectors */
+			n = (nsect > sz_buf) ? sz_buf : nsect;
+			if (disk_write(pdrv, buf, sect, n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			memset(buf, 0, ss);	/* Rest of entries are filled with zero */
+			sect += n; nsect -= n;
+		} while (nsect);
+
+		/* Create two set of the exFAT VBR blocks */
+		sect = b_vol;
+		for (n = 0; n < 2; n++) {
+			/* Main record (+0) */
+			memset(buf, 0, ss);
+			memcpy(buf + BS_JmpBoot, "\xEB\x76\x90" "EXFAT   ", 11);	/* Boot jump code (x86), OEM name */
+			st_qword(buf + BPB_VolOfsEx, b_vol);					/* Volume offset in the physical drive [sector] */
+			st_qword(buf + BPB_TotSecEx, sz_vol);					/* Volume size [sector] */
+			st_dword(buf + BPB_FatOfsEx, (DWORD)(b_fat - b_vol));	/* FAT offset [sector] */
+			st_dword(buf + BPB_FatSzEx, sz_fat);					/* FAT size [sector] */
+			st_dword(buf + BPB_DataOfsEx, (DWORD)(b_data - b_vol));	/* Data offset [sector] */
+			st_dword(buf + BPB_NumClusEx, n_clst);					/* Number of clusters */
+			st_dword(buf + BPB_RootClusEx, 2 + clen[0] + clen[1]);	/* Root dir cluster # */
+			st_dword(buf + BPB_VolIDEx, vsn);						/* VSN */
+			st_word(buf + BPB_FSVerEx, 0x100);						/* Filesystem version (1.00) */
+			for (buf[BPB_BytsPerSecEx] = 0, i = ss; i >>= 1; buf[BPB_BytsPerSecEx]++) ;	/* Log2 of sector size [byte] */
+			for (buf[BPB_SecPerClusEx] = 0, i = sz_au; i >>= 1; buf[BPB_SecPerClusEx]++) ;	/* Log2 of cluster size [sector] */
+			buf[BPB_NumFATsEx] = 1;					/* Number of FATs */
+			buf[BPB_DrvNumEx] = 0x80;				/* Drive number (for int13) */
+			st_word(buf + BS_BootCodeEx, 0xFEEB);	/* Boot code (x86) */
+			st_word(buf + BS_55AA, 0xAA55);			/* Signature (placed here regardless of sector size) */
+			for (i = sum = 0; i < ss; i++) {		/* VBR checksum */
+				if (i != BPB_VolFlagEx && i != BPB_VolFlagEx + 1 && i != BPB_PercInUseEx) sum = xsum32(buf[i], sum);
+			}
+			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			/* Extended bootstrap record (+1..+8) */
+			memset(buf, 0, ss);
+			st_word(buf + ss - 2, 0xAA55);	/* Signature (placed at end of sector) */
+			for (j = 1; j < 9; j++) {
+				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
+				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			}
+			/* OEM/Reserved record (+9..+10) */
+			memset(buf, 0, ss);
+			for ( ; j < 11; j++) {
+				for (i = 0; i < ss; sum = xsum32(buf[i++], sum)) ;	/* VBR checksum */
+				if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			}
+			/* Sum record (+11) */
+			for (i = 0; i < ss; i += 4) st_dword(buf + i, sum);		/* Fill with checksum value */
+			if (disk_write(pdrv, buf, sect++, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+		}
+
+	} else
+#endif	/* FF_FS_EXFAT */
+	{	/* Create an FAT/FAT32 volume */
+		do {
+			pau = sz_au;
+			/* Pre-determine number of clusters and FAT sub-type */
+			if (fsty == FS_FAT32) {	/* FAT32 volume */
+				if (pau == 0) {	/* AU auto-selection */
+					n = (DWORD)sz_vol / 0x20000;	/* Volume size in unit of 128KS */
+					for (i = 0, pau = 1; cst32[i] && cst32[i] <= n; i++, pau <<= 1) ;	/* Get from table */
+				}
+				n_clst = (DWORD)sz_vol / pau;	/* Number of clusters */
+				sz_fat = (n_clst * 4 + 8 + ss - 1) / ss;	/* FAT size [sector] */
+				sz_rsv = 32;	/* Number of reserved sectors */
+				sz_dir = 0;		/* No static directory */
+				if (n_clst <= MAX_FAT16 || n_clst > MAX_FAT32) LEAVE_MKFS(FR_MKFS_ABORTED);
+			} else {				/* FAT volume */
+				if (pau == 0) {	/* au auto-selection */
+					n = (DWORD)sz_vol / 0x1000;	/* Volume size in unit of 4KS */
+					for (i = 0, pau = 1; cst[i] && cst[i] <= n; i++, pau <<= 1) ;	/* Get from table */
+				}
+				n_clst = (DWORD)sz_vol / pau;
+				if (n_clst > MAX_FAT12) {
+					n = n_clst * 2 + 4;		/* FAT size [byte] */
+				} else {
+					fsty = FS_FAT12;
+					n = (n_clst * 3 + 1) / 2 + 3;	/* FAT size [byte] */
+				}
+				sz_fat = (n + ss - 1) / ss;		/* FAT size [sector] */
+				sz_rsv = 1;						/* Number of reserved sectors */
+				sz_dir = (DWORD)n_root * SZDIRE / ss;	/* Root dir size [sector] */
+			}
+			b_fat = b_vol + sz_rsv;						/* FAT base */
+			b_data = b_fat + sz_fat * n_fat + sz_dir;	/* Data base */
+
+			/* Align data area to erase block boundary (for flash memory media) */
+			n = (DWORD)(((b_data + sz_blk - 1) & ~(sz_blk - 1)) - b_data);	/* Sectors to next nearest from current data base */
+			if (fsty == FS_FAT32) {		/* FAT32: Move FAT */
+				sz_rsv += n; b_fat += n;
+			} else {					/* FAT: Expand FAT */
+				if (n % n_fat) {	/* Adjust fractional error if needed */
+					n--; sz_rsv++; b_fat++;
+				}
+				sz_fat += n / n_fat;
+			}
+
+			/* Determine number of clusters and final check of validity of the FAT sub-type */
+			if (sz_vol < b_data + pau * 16 - b_vol) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too small volume? */
+			n_clst = ((DWORD)sz_vol - sz_rsv - sz_fat * n_fat - sz_dir) / pau;
+			if (fsty == FS_FAT32) {
+				if (n_clst <= MAX_FAT16) {	/* Too few clusters for FAT32? */
+					if (sz_au == 0 && (sz_au = pau / 2) != 0) continue;	/* Adjust cluster size and retry */
+					LEAVE_MKFS(FR_MKFS_ABORTED);
+				}
+			}
+			if (fsty == FS_FAT16) {
+				if (n_clst > MAX_FAT16) {	/* Too many clusters for FAT16 */
+					if (sz_au == 0 && (pau * 2) <= 64) {
+						sz_au = pau * 2; continue;	/* Adjust cluster size and retry */
+					}
+					if ((fsopt & FM_FAT32)) {
+						fsty = FS_FAT32; continue;	/* Switch type to FAT32 and retry */
+					}
+					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
+					LEAVE_MKFS(FR_MKFS_ABORTED);
+				}
+				if  (n_clst <= MAX_FAT12) {	/* Too few clusters for FAT16 */
+					if (sz_au == 0 && (sz_au = pau * 2) <= 128) continue;	/* Adjust cluster size and retry */
+					LEAVE_MKFS(FR_MKFS_ABORTED);
+				}
+			}
+			if (fsty == FS_FAT12 && n_clst > MAX_FAT12) LEAVE_MKFS(FR_MKFS_ABORTED);	/* Too many clusters for FAT12 */
+
+			/* Ok, it is the valid cluster configuration */
+			break;
+		} while (1);
+
+#if FF_USE_TRIM
+		lba[0] = b_vol; lba[1] = b_vol + sz_vol - 1;	/* Inform storage device that the volume area may be erased */
+		disk_ioctl(pdrv, CTRL_TRIM, lba);
+#endif
+		/* Create FAT VBR */
+		memset(buf, 0, ss);
+		memcpy(buf + BS_JmpBoot, "\xEB\xFE\x90" "MSDOS5.0", 11);	/* Boot jump code (x86), OEM name */
+		st_word(buf + BPB_BytsPerSec, ss);				/* Sector size [byte] */
+		buf[BPB_SecPerClus] = (BYTE)pau;				/* Cluster size [sector] */
+		st_word(buf + BPB_RsvdSecCnt, (WORD)sz_rsv);	/* Size of reserved area */
+		buf[BPB_NumFATs] = (BYTE)n_fat;					/* Number of FATs */
+		st_word(buf + BPB_RootEntCnt, (WORD)((fsty == FS_FAT32) ? 0 : n_root));	/* Number of root directory entries */
+		if (sz_vol < 0x10000) {
+			st_word(buf + BPB_TotSec16, (WORD)sz_vol);	/* Volume size in 16-bit LBA */
+		} else {
+			st_dword(buf + BPB_TotSec32, (DWORD)sz_vol);	/* Volume size in 32-bit LBA */
+		}
+		buf[BPB_Media] = 0xF8;							/* Media descriptor byte */
+		st_word(buf + BPB_SecPerTrk, 63);				/* Number of sectors per track (for int13) */
+		st_word(buf + BPB_NumHeads, 255);				/* Number of heads (for int13) */
+		st_dword(buf + BPB_HiddSec, (DWORD)b_vol);		/* Volume offset in the physical drive [sector] */
+		if (fsty == FS_FAT32) {
+			st_dword(buf + BS_VolID32, vsn);			/* VSN */
+			st_dword(buf + BPB_FATSz32, sz_fat);		/* FAT size [sector] */
+			st_dword(buf + BPB_RootClus32, 2);			/* Root directory cluster # (2) */
+			st_word(buf + BPB_FSInfo32, 1);				/* Offset of FSINFO sector (VBR + 1) */
+			st_word(buf + BPB_BkBootSec32, 6);			/* Offset of backup VBR (VBR + 6) */
+			buf[BS_DrvNum32] = 0x80;					/* Drive number (for int13) */
+			buf[BS_BootSig32] = 0x29;					/* Extended boot signature */
+			memcpy(buf + BS_VolLab32, "NO NAME    " "FAT32   ", 19);	/* Volume label, FAT signature */
+		} else {
+			st_dword(buf + BS_VolID, vsn);				/* VSN */
+			st_word(buf + BPB_FATSz16, (WORD)sz_fat);	/* FAT size [sector] */
+			buf[BS_DrvNum] = 0x80;						/* Drive number (for int13) */
+			buf[BS_BootSig] = 0x29;						/* Extended boot signature */
+			memcpy(buf + BS_VolLab, "NO NAME    " "FAT     ", 19);	/* Volume label, FAT signature */
+		}
+		st_word(buf + BS_55AA, 0xAA55);					/* Signature (offset is fixed here regardless of sector size) */
+		if (disk_write(pdrv, buf, b_vol, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it to the VBR sector */
+
+		/* Create FSINFO record if needed */
+		if (fsty == FS_FAT32) {
+			disk_write(pdrv, buf, b_vol + 6, 1);		/* Write backup VBR (VBR + 6) */
+			memset(buf, 0, ss);
+			st_dword(buf + FSI_LeadSig, 0x41615252);
+			st_dword(buf + FSI_StrucSig, 0x61417272);
+			st_dword(buf + FSI_Free_Count, n_clst - 1);	/* Number of free clusters */
+			st_dword(buf + FSI_Nxt_Free, 2);			/* Last allocated cluster# */
+			st_word(buf + BS_55AA, 0xAA55);
+			disk_write(pdrv, buf, b_vol + 7, 1);		/* Write backup FSINFO (VBR + 7) */
+			disk_write(pdrv, buf, b_vol + 1, 1);		/* Write original FSINFO (VBR + 1) */
+		}
+
+		/* Initialize FAT area */
+		memset(buf, 0, sz_buf * ss);
+		sect = b_fat;		/* FAT start sector */
+		for (i = 0; i < n_fat; i++) {			/* Initialize FATs each */
+			if (fsty == FS_FAT32) {
+				st_dword(buf + 0, 0xFFFFFFF8);	/* FAT[0] */
+				st_dword(buf + 4, 0xFFFFFFFF);	/* FAT[1] */
+				st_dword(buf + 8, 0x0FFFFFFF);	/* FAT[2] (root directory) */
+			} else {
+				st_dword(buf + 0, (fsty == FS_FAT12) ? 0xFFFFF8 : 0xFFFFFFF8);	/* FAT[0] and FAT[1] */
+			}
+			nsect = sz_fat;		/* Number of FAT sectors */
+			do {	/* Fill FAT sectors */
+				n = (nsect > sz_buf) ? sz_buf : nsect;
+				if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+				memset(buf, 0, ss);	/* Rest of FAT all are cleared */
+				sect += n; nsect -= n;
+			} while (nsect);
+		}
+
+		/* Initialize root directory (fill with zero) */
+		nsect = (fsty == FS_FAT32) ? pau : sz_dir;	/* Number of root directory sectors */
+		do {
+			n = (nsect > sz_buf) ? sz_buf : nsect;
+			if (disk_write(pdrv, buf, sect, (UINT)n) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+			sect += n; nsect -= n;
+		} while (nsect);
+	}
+
+	/* A FAT volume has been created here */
+
+	/* Determine system ID in the MBR partition table */
+	if (FF_FS_EXFAT && fsty == FS_EXFAT) {
+		sys = 0x07;			/* exFAT */
+	} else {
+		if (fsty == FS_FAT32) {
+			sys = 0x0C;		/* FAT32X */
+		} else {
+			if (sz_vol >= 0x10000) {
+				sys = 0x06;	/* FAT12/16 (large) */
+			} else {
+				sys = (fsty == FS_FAT16) ? 0x04 : 0x01;	/* FAT16 : FAT12 */
+			}
+		}
+	}
+
+	/* Update partition information */
+	if (FF_MULTI_PARTITION && ipart != 0) {	/* Volume is in the existing partition */
+		if (!FF_LBA64 || !(fsopt & 0x80)) {
+			/* Update system ID in the partition table */
+			if (disk_read(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Read the MBR */
+			buf[MBR_Table + (ipart - 1) * SZ_PTE + PTE_System] = sys;			/* Set system ID */
+			if (disk_write(pdrv, buf, 0, 1) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);	/* Write it back to the MBR */
+		}
+	} else {								/* Volume as a new single partition */
+		if (!(fsopt & FM_SFD)) {			/* Create partition table if not in SFD */
+			lba[0] = sz_vol; lba[1] = 0;
+			fr = create_partition(pdrv, lba, sys, buf);
+			if (fr != FR_OK) LEAVE_MKFS(fr);
+		}
+	}
+
+	if (disk_ioctl(pdrv, CTRL_SYNC, 0) != RES_OK) LEAVE_MKFS(FR_DISK_ERR);
+
+	LEAVE_MKFS(FR_OK);
+}
+
+
+
+
+#if FF_MULTI_PARTITION
+/*-----------------------------------------------------------------------*/
+/* Create Partition Table on the Physical Drive                          */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_fdisk (
+	BYTE pdrv,			/* Physical drive number */
+	const LBA_t ptbl[],	/* Pointer to the size table for each partitions */
+	void* work			/* Pointer to the working buffer (null: use heap memory) */
+)
+{
+	BYTE *buf = (BYTE*)work;
+	DSTATUS stat;
+
+
+	stat = disk_initialize(pdrv);
+	if (stat & STA_NOINIT) return FR_NOT_READY;
+	if (stat & STA_PROTECT) return FR_WRITE_PROTECTED;
+#if FF_USE_LFN == 3
+	if (!buf) buf = ff_memalloc(FF_MAX_SS);	/* Use heap memory for working buffer */
+#endif
+	if (!buf) return FR_NOT_ENOUGH_CORE;
+
+	LEAVE_MKFS(create_partition(pdrv, ptbl, 0x07, buf));
+}
+
+#endif /* FF_MULTI_PARTITION */
+#endif /* !FF_FS_READONLY && FF_USE_MKFS */
+
+
+
+
+#if FF_USE_STRFUNC
+#if FF_USE_LFN && FF_LFN_UNICODE && (FF_STRF_ENCODE < 0 || FF_STRF_ENCODE > 3)
+#error Wrong FF_STRF_ENCODE setting
+#endif
+/*-----------------------------------------------------------------------*/
+/* Get a String from the File                                            */
+/*-----------------------------------------------------------------------*/
+
+TCHAR* f_gets (
+	TCHAR* buff,	/* Pointer to the buffer to store read string */
+	int len,		/* Size of string buffer (items) */
+	FIL* fp			/* Pointer to the file object */
+)
+{
+	int nc = 0;
+	TCHAR *p = buff;
+	BYTE s[4];
+	UINT rc;
+	DWORD dc;
+#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE <= 2
+	WCHAR wc;
+#endif
+#if FF_USE_LFN && FF_LFN_UNICODE && FF_STRF_ENCODE == 3
+	UINT ct;
+#endif
+
+#if FF_USE_LFN && FF_LFN_UNICODE			/* With code conversion (Unicode API) */
+	/* Make a room for the character and terminator  */
+	if (FF_LFN_UNICODE == 1) len -= (FF_STRF_ENCODE == 0) ? 1 : 2;
+	if (FF_LFN_UNICODE == 2) len -= (FF_STRF_ENCODE == 0) ? 3 : 4;
+	if (FF_LFN_UNICODE == 3) len -= 1;
+	while (nc < len) {
+#if FF_STRF_ENCODE == 0				/* Read a character in ANSI/OEM */
+		f_read(fp, s, 1, &rc);		/* Get a code unit */
+		if (rc != 1) break;			/* EOF? */
+		wc = s[0];
+		if (dbc_1st((BYTE)wc)) {	/* DBC 1st byte? */
+			f_read(fp, s, 1, &rc);	/* Get 2nd byte */
+			if (rc != 1 || !dbc_2nd(s[0])) continue;	/* Wrong code? */
+			wc = wc << 8 | s[0];
+		}
+		dc = ff_oem2uni(wc, CODEPAGE);	/* Convert ANSI/OEM into Unicode */
+		if (dc == 0) continue;		/* Conversion error? */
+#elif FF_STRF_ENCODE == 1 || FF_STRF_ENCODE == 2 	/* Read a character in UTF-16LE/BE */
+		f_read(fp, s, 2, &rc);		/* Get a code unit */
+		if (rc != 2) break;			/* EOF? */
+		dc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
+		if (IsSurrogateL(dc)) continue;	/* Broken surrogate pair? */
+		if (IsSurrogateH(dc)) {		/* High surrogate? */
+			f_read(fp, s, 2, &rc);	/* Get low surrogate */
+			if (rc != 2) break;		/* EOF? */
+			wc = (FF_STRF_ENCODE == 1) ? ld_word(s) : s[0] << 8 | s[1];
+			if (!IsSurrogateL(wc)) continue;	/* Broken surrogate pair? */
+			dc = ((dc & 0x3FF) + 0x40) << 10 | (wc & 0x3FF);	/* Merge surrogate pair */
+		}
+#else	/* Read a character in UTF-8 */
+		f_read(fp, s, 1, &rc);		/* Get a code unit */
+		if (rc != 1) break;			/* EOF? */
+		dc = s[0];
+		if (dc >= 0x80) {			/* Multi-byte sequence? */
+			ct = 0;
+			if ((dc & 0xE0) == 0xC0) { dc &= 0x1F; ct = 1; }	/* 2-byte sequence? */
+			if ((dc & 0xF0) == 0xE0) { dc &= 0x0F; ct = 2; }	/* 3-byte sequence? */
+			if ((dc & 0xF8) == 0xF0) { dc &= 0x07; ct = 3; }	/* 4-byte sequence? */
+			if (ct == 0) continue;
+			f_read(fp, s, ct, &rc);	/* Get trailing bytes */
+			if (rc != ct) break;
+			rc = 0;
+			do {	/* Merge the byte sequence */
+				if ((s[rc] & 0xC0) != 0x80) break;
+				dc = dc << 6 | (s[rc] & 0x3F);
+			} while (++rc < ct);
+			if (rc != ct || dc < 0x80 || IsSurrogate(dc) || dc >= 0x110000) continue;	/* Wrong encoding? */
+		}
+#endif
+		/* A code point is avaialble in dc to be output */
+
+		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;	/* Strip \r off if needed */
+#if FF_LFN_UNICODE == 1	|| FF_LFN_UNICODE == 3	/* Output it in UTF-16/32 encoding */
+		if (FF_LFN_UNICODE == 1 && dc >= 0x10000) {	/* Out of BMP at UTF-16? */
+			*p++ = (TCHAR)(0xD800 | ((dc >> 10) - 0x40)); nc++;	/* Make and output high surrogate */
+			dc = 0xDC00 | (dc & 0x3FF);		/* Make low surrogate */
+		}
+		*p++ = (TCHAR)dc; nc++;
+		if (dc == '\n') break;	/* End of line? */
+#elif FF_LFN_UNICODE == 2		/* Output it in UTF-8 encoding */
+		if (dc < 0x80) {	/* Single byte? */
+			*p++ = (TCHAR)dc;
+			nc++;
+			if (dc == '\n') break;	/* End of line? */
+		} else {
+			if (dc < 0x800) {		/* 2-byte sequence? */
+				*p++ = (TCHAR)(0xC0 | (dc >> 6 & 0x1F));
+				*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
+				nc += 2;
+			} else {
+				if (dc < 0x10000) {	/* 3-byte sequence? */
+					*p++ = (TCHAR)(0xE0 | (dc >> 12 & 0x0F));
+					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
+					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
+					nc += 3;
+				} else {			/* 4-byte sequence? */
+					*p++ = (TCHAR)(0xF0 | (dc >> 18 & 0x07));
+					*p++ = (TCHAR)(0x80 | (dc >> 12 & 0x3F));
+					*p++ = (TCHAR)(0x80 | (dc >> 6 & 0x3F));
+					*p++ = (TCHAR)(0x80 | (dc >> 0 & 0x3F));
+					nc += 4;
+				}
+			}
+		}
+#endif
+	}
+
+#else			/* Byte-by-byte read without any conversion (ANSI/OEM API) */
+	len -= 1;	/* Make a room for the terminator */
+	while (nc < len) {
+		f_read(fp, s, 1, &rc);	/* Get a byte */
+		if (rc != 1) break;		/* EOF? */
+		dc = s[0];
+		if (FF_USE_STRFUNC == 2 && dc == '\r') continue;
+		*p++ = (TCHAR)dc; nc++;
+		if (dc == '\n') break;
+	}
+#endif
+
+	*p = 0;		/* Terminate the string */
+	return nc ? buff : 0;	/* When no data read due to EOF or error, return with error. */
+}
+
+
+
+
+#if !FF_FS_READONLY
+#include <stdarg.h>
+#define SZ_PUTC_BUF	64
+#define SZ_NUM_BUF	32
+
+/*-----------------------------------------------------------------------*/
+/* Put a Character to the File (with sub-functions)                      */
+/*-----------------------------------------------------------------------*/
+
+/* Output buffer and work area */
+
+typedef struct {
+	FIL *fp;		/* Ptr to the writing file */
+	int idx, nchr;	/* Write index of buf[] (-1:error), number of encoding units written */
+#if FF_USE_LFN && FF_LFN_UNICODE == 1
+	WCHAR hs;
+#elif FF_USE_LFN && FF_LFN_UNICODE == 2
+	BYTE bs[4];
+	UINT wi, ct;
+#endif
+	BYTE buf[SZ_PUTC_BUF];	/* Write buffer */
+} putbuff;
+
+
+/* Buffered file write with code conversion */
+
+static void putc_bfd (putbuff* pb, TCHAR c)
+{
+	UINT n;
+	int i, nc;
+#if FF_USE_LFN && FF_LFN_UNICODE
+	WCHAR hs, wc;
+#if FF_LFN_UNICODE == 2
+	DWORD dc;
+	const TCHAR *tp;
+#endif
+#endif
+
+	if (FF_USE_STRFUNC == 2 && c == '\n') {	 /* LF -> CRLF conversion */
+		putc_bfd(pb, '\r');
+	}
+
+	i = pb->idx;			/* Write index of pb->buf[] */
+	if (i < 0) return;		/* In write error? */
+	nc = pb->nchr;			/* Write unit counter */
+
+#if FF_USE_LFN && FF_LFN_UNICODE
+#if FF_LFN_UNICODE == 1		/* UTF-16 input */
+	if (IsSurrogateH(c)) {	/* High surrogate? */
+		pb->hs = c; return;	/* Save it for next */
+	}
+	hs = pb->hs; pb->hs = 0;
+	if (hs != 0) {			/* There is a leading high surrogate */
+		if (!IsSurrogateL(c)) hs = 0;	/* Discard high surrogate if not a surrogate pair */
+	} else {
+		if (IsSurrogateL(c)) return;	/* Discard stray low surrogate */
+	}
+	wc = c;
+#elif FF_LFN_UNICODE == 2	/* UTF-8 input */
+	for (;;) {
+		if (pb->ct == 0) {	/* Out of multi-byte sequence? */
+			pb->bs[pb->wi = 0] = (BYTE)c;	/* Save 1st byte */
+			if ((BYTE)c < 0x80) break;					/* Single byte? */
+			if (((BYTE)c & 0xE0) == 0xC0) pb->ct = 1;	/* 2-byte sequence? */
+			if (((BYTE)c & 0xF0) == 0xE0) pb->ct = 2;	/* 3-byte sequence? */
+			if (((BYTE)c & 0xF1) == 0xF0) pb->ct = 3;	/* 4-byte sequence? */
+			return;
+		} else {				/* In the multi-byte sequence */
+			if (((BYTE)c & 0xC0) != 0x80) {	/* Broken sequence? */
+				pb->ct = 0; continue;
+			}
+			pb->bs[++pb->wi] = (BYTE)c;	/* Save the trailing byte */
+			if (--pb->ct == 0) break;	/* End of multi-byte sequence? */
+			return;
+		}
+	}
+	tp = (const TCHAR*)pb->bs;
+	dc = tchar2uni(&tp);	/* UTF-8 ==> UTF-16 */
+	if (dc == 0xFFFFFFFF) return;	/* Wrong code? */
+	wc = (WCHAR)dc;
+	hs = (WCHAR)(dc >> 16);
+#elif FF_LFN_UNICODE == 3	/* UTF-32 input */
+	if (IsSurrogate(c) || c >= 0x110000) return;	/* Discard invalid code */
+	if (c >= 0x10000) {		/* Out of BMP? */
+		hs = (WCHAR)(0xD800 | ((c >> 10) - 0x40)); 	/* Make high surrogate */
+		wc = 0xDC00 | (c & 0x3FF);					/* Make low surrogate */
+	} else {
+		hs = 0;
+		wc = (WCHAR)c;
+	}
+#endif
+	/* A code point in UTF-16 is available in hs and wc */
+
+#if FF_STRF_ENCODE == 1		/* Write a code point in UTF-16LE */
+	if (hs != 0) {	/* Surrogate pair? */
+		st_word(&pb->buf[i], hs);
+		i += 2;
+		nc++;
+	}
+	st_word(&pb->buf[i], wc);
+	i += 2;
+#elif FF_STRF_ENCODE == 2	/* Write a code point in UTF-16BE */
+	if (hs != 0) {	/* Surrogate pair? */
+		pb->buf[i++] = (BYTE)(hs >> 8);
+		pb->buf[i++] = (BYTE)hs;
+		nc++;
+	}
+	pb->buf[i++] = (BYTE)(wc >> 8);
+	pb->buf[i++] = (BYTE)wc;
+#elif FF_STRF_ENCODE == 3	/* Write a code point in UTF-8 */
+	if (hs != 0) {	/* 4-byte sequence? */
+		nc += 3;
+		hs = (hs & 0x3FF) + 0x40;
+		pb->buf[i++] = (BYTE)(0xF0 | hs >> 8);
+		pb->buf[i++] = (BYTE)(0x80 | (hs >> 2 & 0x3F));
+		pb->buf[i++] = (BYTE)(0x80 | (hs & 3) << 4 | (wc >> 6 & 0x0F));
+		pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
+	} else {
+		if (wc < 0x80) {	/* Single byte? */
+			pb->buf[i++] = (BYTE)wc;
+		} else {
+			if (wc < 0x800) {	/* 2-byte sequence? */
+				nc += 1;
+				pb->buf[i++] = (BYTE)(0xC0 | wc >> 6);
+			} else {			/* 3-byte sequence */
+				nc += 2;
+				pb->buf[i++] = (BYTE)(0xE0 | wc >> 12);
+				pb->buf[i++] = (BYTE)(0x80 | (wc >> 6 & 0x3F));
+			}
+			pb->buf[i++] = (BYTE)(0x80 | (wc & 0x3F));
+		}
+	}
+#else						/* Write a code point in ANSI/OEM */
+	if (hs != 0) return;
+	wc = ff_uni2oem(wc, CODEPAGE);	/* UTF-16 ==> ANSI/OEM */
+	if (wc == 0) return;
+	if (wc >= 0x100) {
+		pb->buf[i++] = (BYTE)(wc >> 8); nc++;
+	}
+	pb->buf[i++] = (BYTE)wc;
+#endif
+
+#else							/* ANSI/OEM input (without re-encoding) */
+	pb->buf[i++] = (BYTE)c;
+#endif
+
+	if (i >= (int)(sizeof pb->buf) - 4) {	/* Write buffered characters to the file */
+		f_write(pb->fp, pb->buf, (UINT)i, &n);
+		i = (n == (UINT)i) ? 0 : -1;
+	}
+	pb->idx = i;
+	pb->nchr = nc + 1;
+}
+
+
+/* Flush remaining characters in the buffer */
+
+static int putc_flush (putbuff* pb)
+{
+	UINT nw;
+
+	if (   pb->idx >= 0	/* Flush buffered characters to the file */
+		&& f_write(pb->fp, pb->buf, (UINT)pb->idx, &nw) == FR_OK
+		&& (UINT)pb->idx == nw) return pb->nchr;
+	return -1;
+}
+
+
+/* Initialize write buffer */
+
+static void putc_init (putbuff* pb, FIL* fp)
+{
+	memset(pb, 0, sizeof (putbuff));
+	pb->fp = fp;
+}
+
+
+
+int f_putc (
+	TCHAR c,	/* A character to be output */
+	FIL* fp		/* Pointer to the file object */
+)
+{
+	putbuff pb;
+
+
+	putc_init(&pb, fp);
+	putc_bfd(&pb, c);	/* Put the character */
+	return putc_flush(&pb);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Put a String to the File                                              */
+/*-----------------------------------------------------------------------*/
+
+int f_puts (
+	const TCHAR* str,	/* Pointer to the string to be output */
+	FIL* fp				/* Pointer to the file object */
+)
+{
+	putbuff pb;
+
+
+	putc_init(&pb, fp);
+	while (*str) putc_bfd(&pb, *str++);		/* Put the string */
+	return putc_flush(&pb);
+}
+
+
+
+
+/*-----------------------------------------------------------------------*/
+/* Put a Formatted String to the File (with sub-functions)               */
+/*-----------------------------------------------------------------------*/
+#if FF_PRINT_FLOAT && FF_INTDEF == 2
+#include <math.h>
+
+static int ilog10 (double n)	/* Calculate log10(n) in integer output */
+{
+	int rv = 0;
+
+	while (n >= 10) {	/* Decimate digit in right shift */
+		if (n >= 100000) {
+			n /= 100000; rv += 5;
+		} else {
+			n /= 10; rv++;
+		}
+	}
+	while (n < 1) {		/* Decimate digit in left shift */
+		if (n < 0.00001) {
+			n *= 100000; rv -= 5;
+		} else {
+			n *= 10; rv--;
+		}
+	}
+	return rv;
+}
+
+
+static double i10x (int n)	/* Calculate 10^n in integer input */
+{
+	double rv = 1;
+
+	while (n > 0) {		/* Left shift */
+		if (n >= 5) {
+			rv *= 100000; n -= 5;
+		} else {
+			rv *= 10; n--;
+		}
+	}
+	while (n < 0) {		/* Right shift */
+		if (n <= -5) {
+			rv /= 100000; n += 5;
+		} else {
+			rv /= 10; n++;
+		}
+	}
+	return rv;
+}
+
+
+static void ftoa (
+	char* buf,	/* Buffer to output the floating point string */
+	double val,	/* Value to output */
+	int prec,	/* Number of fractional digits */
+	TCHAR fmt	/* Notation */
+)
+{
+	int d;
+	int e = 0, m = 0;
+	char sign = 0;
+	double w;
+	const char *er = 0;
+	const char ds = FF_PRINT_FLOAT == 2 ? ',' : '.';
+
+
+	if (isnan(val)) {			/* Not a number? */
+		er = "NaN";
+	} else {
+		if (prec < 0) prec = 6;	/* Default precision? (6 fractional digits) */
+		if (val < 0) {			/* Nagative? */
+			val = 0 - val; sign = '-';
+		} else {
+			sign = '+';
+		}
+		if (isinf(val)) {		/* Infinite? */
+			er = "INF";
+		} else {
+			if (fmt == 'f') {	/* Decimal notation? */
+				val += i10x(0 - prec) / 2;	/* Round (nearest) */
+				m = ilog10(val);
+				if (m < 0) m = 0;
+				if (m + prec + 3 >= SZ_NUM_BUF) er = "OV";	/* Buffer overflow? */
+			} else {			/* E notation */
+				if (val != 0) {		/* Not a true zero? */
+					val += i10x(ilog10(val) - prec) / 2;	/* Round (nearest) */
+					e = ilog10(val);
+					if (e > 99 || prec + 7 >= SZ_NUM_BUF) {	/* Buffer overflow or E > +99? */
+						er = "OV";
+					} else {
+						if (e < -99) e = -99;
+						val /= i10x(e);	/* Normalize */
+					}
+				}
+			}
+		}
+		if (!er) {	/* Not error condition */
+			if (sign == '-') *buf++ = sign;	/* Add a - if negative value */
+			do {				/* Put decimal number */
+				if (m == -1) *buf++ = ds;	/* Insert a decimal separator when get into fractional part */
+				w = i10x(m);				/* Snip the highest digit d */
+				d = (int)(val / w); val -= d * w;
+				*buf++ = (char)('0' + d);	/* Put the digit */
+			} while (--m >= -prec);			/* Output all digits specified by prec */
+			if (fmt != 'f') {	/* Put exponent if needed */
+				*buf++ = (char)fmt;
+				if (e < 0) {
+					e = 0 - e; *buf++ = '-';
+				} else {
+					*buf++ = '+';
+				}
+				*buf++ = (char)('0' + e / 10);
+				*buf++ = (char)('0' + e % 10);
+			}
+		}
+	}
+	if (er) {	/* Error condition */
+		if (sign) *buf++ = sign;		/* Add sign if needed */
+		do *buf++ = *er++; while (*er);	/* Put error symbol */
+	}
+	*buf = 0;	/* Term */
+}
+#endif	/* FF_PRINT_FLOAT && FF_INTDEF == 2 */
+
+
+
+int f_printf (
+	FIL* fp,			/* Pointer to the file object */
+	const TCHAR* fmt,	/* Pointer to the format string */
+	...					/* Optional arguments... */
+)
+{
+	va_list arp;
+	putbuff pb;
+	UINT i, j, w, f, r;
+	int prec;
+#if FF_PRINT_LLI && FF_INTDEF == 2
+	QWORD v;
+#else
+	DWORD v;
+#endif
+	TCHAR tc, pad, *tp;
+	TCHAR nul = 0;
+	char d, str[SZ_NUM_BUF];
+
+
+	putc_init(&pb, fp);
+
+	va_start(arp, fmt);
+
+	for (;;) {
+		tc = *fmt++;
+		if (tc == 0) break;			/* End of format string */
+		if (tc != '%') {			/* Not an escape character (pass-through) */
+			putc_bfd(&pb, tc);
+			continue;
+		}
+		f = w = 0; pad = ' '; prec = -1;	/* Initialize parms */
+		tc = *fmt++;
+		if (tc == '0') {			/* Flag: '0' padded */
+			pad = '0'; tc = *fmt++;
+		} else if (tc == '-') {		/* Flag: Left aligned */
+			f = 2; tc = *fmt++;
+		}
+		if (tc == '*') {			/* Minimum width from an argument */
+			w = va_arg(arp, int);
+			tc = *fmt++;
+		} else {
+			while (IsDigit(tc)) {	/* Minimum width */
+				w = w * 10 + tc - '0';
+				tc = *fmt++;
+			}
+		}
+		if (tc == '.') {			/* Precision */
+			tc = *fmt++;
+			if (tc == '*') {		/* Precision from an argument */
+				prec = va_arg(arp, int);
+				tc = *fmt++;
+			} else {
+				prec = 0;
+				while (IsDigit(tc)) {	/* Precision */
+					prec = prec * 10 + tc - '0';
+					tc = *fmt++;
+				}
+			}
+		}
+		if (tc == 'l') {			/* Size: long int */
+			f |= 4; tc = *fmt++;
+#if FF_PRINT_LLI && FF_INTDEF == 2
+			if (tc == 'l') {		/* Size: long long int */
+				f |= 8; tc = *fmt++;
+			}
+#endif
+		}
+		if (tc == 0) break;			/* End of format string */
+		switch (tc) {				/* Atgument type is... */
+		case 'b':					/* Unsigned binary */
+			r = 2; break;
+		case 'o':					/* Unsigned octal */
+			r = 8; break;
+		case 'd':					/* Signed decimal */
+		case 'u':					/* Unsigned decimal */
+			r = 10; break;
+		case 'x':					/* Unsigned hexdecimal (lower case) */
+		case 'X':					/* Unsigned hexdecimal (upper case) */
+			r = 16; break;
+		case 'c':					/* Character */
+			putc_bfd(&pb, (TCHAR)va_arg(arp, int));
+			continue;
+		case 's':					/* String */
+			tp = va_arg(arp, TCHAR*);	/* Get a pointer argument */
+			if (!tp) tp = &nul;		/* Null ptr generates a null string */
+			for (j = 0; tp[j]; j++) ;	/* j = tcslen(tp) */
+			if (prec >= 0 && j > (UINT)prec) j = prec;	/* Limited length of string body */
+			for ( ; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
+			while (*tp && prec--) putc_bfd(&pb, *tp++);	/* Body */
+			while (j++ < w) putc_bfd(&pb, ' ');			/* Right pads */
+			continue;
+#if FF_PRINT_FLOAT && FF_INTDEF == 2
+		case 'f':					/* Floating point (decimal) */
+		case 'e':					/* Floating point (e) */
+		case 'E':					/* Floating point (E) */
+			ftoa(str, va_arg(arp, double), prec, tc);	/* Make a flaoting point string */
+			for (j = strlen(str); !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
+			for (i = 0; str[i]; putc_bfd(&pb, str[i++])) ;	/* Body */
+			while (j++ < w) putc_bfd(&pb, ' ');	/* Right pads */
+			continue;
+#endif
+		default:					/* Unknown type (pass-through) */
+			putc_bfd(&pb, tc); continue;
+		}
+
+		/* Get an integer argument and put it in numeral */
+#if FF_PRINT_LLI && FF_INTDEF == 2
+		if (f & 8) {	/* long long argument? */
+			v = (QWORD)va_arg(arp, LONGLONG);
+		} else {
+			if (f & 4) {	/* long argument? */
+				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, long) : (QWORD)va_arg(arp, unsigned long);
+			} else {		/* int/short/char argument */
+				v = (tc == 'd') ? (QWORD)(LONGLONG)va_arg(arp, int) : (QWORD)va_arg(arp, unsigned int);
+			}
+		}
+		if (tc == 'd' && (v & 0x8000000000000000)) {	/* Negative value? */
+			v = 0 - v; f |= 1;
+		}
+#else
+		if (f & 4) {	/* long argument? */
+			v = (DWORD)va_arg(arp, long);
+		} else {		/* int/short/char argument */
+			v = (tc == 'd') ? (DWORD)(long)va_arg(arp, int) : (DWORD)va_arg(arp, unsigned int);
+		}
+		if (tc == 'd' && (v & 0x80000000)) {	/* Negative value? */
+			v = 0 - v; f |= 1;
+		}
+#endif
+		i = 0;
+		do {	/* Make an integer number string */
+			d = (char)(v % r); v /= r;
+			if (d > 9) d += (tc == 'x') ? 0x27 : 0x07;
+			str[i++] = d + '0';
+		} while (v && i < SZ_NUM_BUF);
+		if (f & 1) str[i++] = '-';	/* Sign */
+		/* Write it */
+		for (j = i; !(f & 2) && j < w; j++) putc_bfd(&pb, pad);	/* Left pads */
+		do putc_bfd(&pb, (TCHAR)str[--i]); while (i);	/* Body */
+		while (j++ < w) putc_bfd(&pb, ' ');		/* Right pads */
+	}
+
+	va_end(arp);
+
+	return putc_flush(&pb);
+}
+
+#endif /* !FF_FS_READONLY */
+#endif /* FF_USE_STRFUNC */
+
+
+
+#if FF_CODE_PAGE == 0
+/*-----------------------------------------------------------------------*/
+/* Set Active Codepage for the Path Name                                 */
+/*-----------------------------------------------------------------------*/
+
+FRESULT f_setcp (
+	WORD cp		/* Value to be set as active code page */
+)
+{
+	static const WORD       validcp[22] = {  437,   720,   737,   771,   775,   850,   852,   855,   857,   860,   861,   862,   863,   864,   865,   866,   869,   932,   936,   949,   950, 0};
+	static const BYTE* const tables[22] = {Ct437, Ct720, Ct737, Ct771, Ct775, Ct850, Ct852, Ct855, Ct857, Ct860, Ct861, Ct862, Ct863, Ct864, Ct865, Ct866, Ct869, Dc932, Dc936, Dc949, Dc950, 0};
+	UINT i;
+
+
+	for (i = 0; validcp[i] != 0 && validcp[i] != cp; i++) ;	/* Find the code page */
+	if (validcp[i] != cp) return FR_INVALID_PARAMETER;	/* Not found? */
+
+	CodePage = cp;
+	if (cp >= 900) {	/* DBCS */
+		ExCvt = 0;
+		DbcTbl = tables[i];
+	} else {			/* SBCS */
+		ExCvt = tables[i];
+		DbcTbl = 0;
+	}
+	return FR_OK;
+}
+#endif	/* FF_CODE_PAGE == 0 */
+
-- 
2.43.0


From 26531405b2e3166f42ca79fde36e3fa4ac1427b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 66/71] fix: rotate: a container never grows past the largest
 file offset

---
 src/shim_rotate.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 3e90d24..1640af3 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1094,6 +1094,14 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       evfs_off_t pos = cur_write_pos(&rs->base);
       ChunkPos wpos = get_chunk_pos(rs, pos);
 
+      // The end of the file must be representable as a file offset
+      const uint64_t max_size = sizeof(evfs_off_t) > 4 ? INT64_MAX : INT32_MAX;
+      size_t max_write = MIN((uint64_t)size, max_size - (uint64_t)pos);
+      if(max_write == 0) {
+        status = EVFS_ERR_OVERFLOW;
+        break;
+      }
+
       // If the chunk doesn't exist we need to create it
       if(wpos.offset == 0 && pos >= rs->base.total_size)
         status = append_new_chunk(base_vfs, rs, wpos.chunk_num);
@@ -1109,7 +1117,7 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
         return EVFS_ERR_CORRUPTION;
 
-      size_t write_size = MIN(size, (size_t)free_space);
+      size_t write_size = MIN(max_write, (size_t)free_space);
 
       ptrdiff_t wrote_chunk = evfs_file_write(rs->base.active_chunk_fh, cbuf, write_size);
       if(wrote_chunk > 0) {
-- 
2.43.0


From 0108baa0f2867a63e32436819002f733761aec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 67/71] fix: intmath: shifts and products no longer overflow

---
 src/util/intmath.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index bc2e5a2..645ed1e 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -58,6 +58,7 @@ static int clz(unsigned x) {
 #endif
 
 uint32_t ceil_pow2(uint32_t x) {
+  if(x <= 1) return 1; // clz(0) is undefined
   return 1ul << (32 - clz(x - 1));
 }
 
@@ -108,7 +109,7 @@ int32_t log2_fixed(uint32_t n, unsigned fp_exp) {
   int32_t l2_int = -zeros;
 
   // Extract fraction scaled by 2^32 so it is left justified
-  uint32_t frac = n << (zeros + 1);
+  uint32_t frac = n << zeros << 1; // A single shift by 32 is undefined
   int ix = frac >> ((8*sizeof frac) - LOG2_TABLE_BITS); // Index into table with upper bits of fraction
   int32_t l2_frac = log2_table[ix];
 
@@ -121,7 +122,7 @@ int32_t log2_fixed(uint32_t n, unsigned fp_exp) {
   l2_frac = (((l2_frac_b - l2_frac) * ix_frac) >> LOG2_FP_EXP) + l2_frac;
 
   // Merge integer and fraction
-  l2_int = (l2_int << LOG2_FP_EXP) + l2_frac;
+  l2_int = l2_int * (1 << LOG2_FP_EXP) + l2_frac;
 
   // Adjust for exponent on input n
   // Internally n is treated as if it is always in Q0.31 format.
@@ -209,8 +210,8 @@ Returns:
   Integral part of fp_value with rounded up fraction removed
 */
 unsigned ufixed_to_uint(unsigned fp_value, unsigned fp_scale) {
-  fp_value += fp_scale/2;  // Round up
-  return fp_value / fp_scale;
+  // Round up without overflowing the sum
+  return fp_value / fp_scale + (fp_value % fp_scale >= fp_scale - fp_scale/2);
 }
 
 
@@ -225,9 +226,12 @@ Returns:
   Integral part of fp_value with rounded up fraction removed
 */
 int fixed_to_int(int fp_value, unsigned fp_scale) {
-  int half = (int)fp_scale/2;
-  fp_value += (fp_value < 0) ? -half : half; // Round to +/- infinity
-  return fp_value / (int)fp_scale;
+  unsigned magnitude = fp_value;
+  if(fp_value < 0)
+    magnitude = -magnitude; // Unsigned negation is defined for INT_MIN
+
+  int64_t rounded = ufixed_to_uint(magnitude, fp_scale); // Round to +/- infinity
+  return (fp_value < 0) ? -rounded : rounded;
 }
 
 
@@ -406,6 +410,9 @@ long to_fixed_si(long value, int value_exp, unsigned fp_scale, char *si_prefix,
   const char *prefix_pos;
 
   int value_exp_si = (value_exp / 3) * 3; // Pick nearest prefix below the value exponent
+  if(value_exp_si > value_exp) // Division rounds negative exponents up
+    value_exp_si -= 3;
+
   // Need to prescale by 10x or 100x if exponent not already a multiple of 3
   for(int i = 0; i < (value_exp - value_exp_si); i++) {
     value *= 10;
@@ -486,24 +493,26 @@ unsigned long isqrt_fixed(unsigned long fp_value, unsigned fp_exp) {
   */
 
   unsigned long end_b = 1UL << (adj_bits - aux_bits);
+  bool carry = false; // The remainder can need one more bit
   for(b = 1UL << (TOTAL_BITS-2); b > end_b; b >>= 1) {
     t = q + b;
-    if(r >= t) {
+    if(carry || r >= t) {
       r -= t;
       q = t + b; // Equivalent to q += 2*b
     }
+    carry = r >> (TOTAL_BITS-1);
     r <<= 1;
   }
 
   // Remove remaining offset factor and round up
-  q = (q >> adj_bits) + (unsigned long)(r > q);
+  q = (q >> adj_bits) + (unsigned long)(carry || r > q);
   return q;
 }
 
 
 // Linear interpolate between two points in Q1.15 format. Interpolant is in Q0.16
 static inline int16_t lin_interp(int16_t a0, int16_t a1, uint16_t t) {
-  return a0 + (((int32_t)t * (int32_t)(a1 - a0)) >> 16);
+  return a0 + (((int64_t)t * (a1 - a0)) >> 16); // The product needs more than 32 bits
 }
 
 
@@ -546,14 +555,15 @@ Returns:
   The quadratic polynomial value at point t
 */
 int16_t quadratic_eval(int16_t a, int16_t b, int16_t c, uint16_t t) {
-  int32_t q;
+  int64_t q; // The products need more than 32 bits
 
   q = (int32_t)a - 2*(int32_t)b + (int32_t)c;
   q = (((q * (int32_t)t) >> 16) * (int32_t)t) >> 16;
-  q += (2*(int32_t)(b - a) * (int32_t)t) >> 16;
+  q += (2*(int64_t)(b - a) * (int32_t)t) >> 16;
   q += a;
 
-  return (int16_t)q;
+  // The terms are rounded down and can pass the end of the range
+  return q < INT16_MIN ? INT16_MIN : (int16_t)q;
 }
 
 
@@ -686,12 +696,12 @@ Returns:
 uint16_t bezier_search_t(Point16 p0, Point16 p1, Point16 p2, int16_t x) {
   // Binary search for t parameter that corresponds to the requested X-axis location
   // Points must be monotonic along X-axis
-  uint16_t low = 0;
-  uint16_t high = UINT16_MAX;
+  int32_t low = 0;  // Signed and wide enough to pass the ends of the t range
+  int32_t high = UINT16_MAX;
 
   while(low <= high) {
     uint16_t mid = low + (high - low)/2;
-    int16_t delta = quadratic_eval(p0.x, p1.x, p2.x, mid) - x;
+    int32_t delta = quadratic_eval(p0.x, p1.x, p2.x, mid) - x;
     if(delta > -5 && delta < 5) { // Does not converge near endpoints so allow small margin
       return mid;
     } else if(delta > 0) {
@@ -701,6 +711,6 @@ uint16_t bezier_search_t(Point16 p0, Point16 p1, Point16 p2, int16_t x) {
     }
   }
 
-  return low;
+  return low > UINT16_MAX ? UINT16_MAX : low;
 }
 
-- 
2.43.0


From ad365cdb45de139c43e724593f78945f435e8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 68/71] fix: unaligned_access: full-width results and no shift
 into the sign bit

---
 include/evfs/util/unaligned_access.h | 90 +++++++++-------------------
 1 file changed, 29 insertions(+), 61 deletions(-)

diff --git a/include/evfs/util/unaligned_access.h b/include/evfs/util/unaligned_access.h
index abaf28b..cc14e5d 100644
--- a/include/evfs/util/unaligned_access.h
+++ b/include/evfs/util/unaligned_access.h
@@ -220,25 +220,13 @@ static inline int32_t get_unaligned_s32(const void *data) {
 }
 
 static inline int32_t get_unaligned_s32be(const void *data) {
-  const uint8_t *bdata = (const uint8_t *)data;
-  int32_t val = 0;
-
-  val |= (int32_t)bdata[3];
-  val |= (int32_t)bdata[2] << 8;
-  val |= (int32_t)bdata[1] << 16;
-  val |= (int32_t)bdata[0] << 24;
-  return val;
+  // Avoid shifting into the sign bit
+  return (int32_t)get_unaligned_u32be(data);
 }
 
 static inline int32_t get_unaligned_s32le(const void *data) {
-  const uint8_t *bdata = (const uint8_t *)data;
-  int32_t val = 0;
-
-  val |= (int32_t)bdata[0];
-  val |= (int32_t)bdata[1] << 8;
-  val |= (int32_t)bdata[2] << 16;
-  val |= (int32_t)bdata[3] << 24;
-  return val;
+  // Avoid shifting into the sign bit
+  return (int32_t)get_unaligned_u32le(data);
 }
 
 
@@ -268,7 +256,7 @@ static inline void set_unaligned_s32le(int32_t value, void *dest) {
 
 // ******************** uint64_t ********************
 
-static inline uint32_t get_unaligned_u64(const void *data) {
+static inline uint64_t get_unaligned_u64(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data; // Don't allow any assumed alignment 
   uint64_t val;
 
@@ -350,33 +338,13 @@ static inline int64_t get_unaligned_s64(const void *data) {
 }
 
 static inline int64_t get_unaligned_s64be(const void *data) {
-  const uint8_t *bdata = (const uint8_t *)data;
-  int64_t val = 0;
-
-  val |= (int64_t)bdata[7];
-  val |= (int64_t)bdata[6] << 8;
-  val |= (int64_t)bdata[5] << 16;
-  val |= (int64_t)bdata[4] << 24;
-  val |= (int64_t)bdata[3] << 32;
-  val |= (int64_t)bdata[2] << 40;
-  val |= (int64_t)bdata[1] << 48;
-  val |= (int64_t)bdata[0] << 56;
-  return val;
+  // Avoid shifting into the sign bit
+  return (int64_t)get_unaligned_u64be(data);
 }
 
 static inline int64_t get_unaligned_s64le(const void *data) {
-  const uint8_t *bdata = (const uint8_t *)data;
-  int64_t val = 0;
-
-  val |= (int64_t)bdata[0];
-  val |= (int64_t)bdata[1] << 8;
-  val |= (int64_t)bdata[2] << 16;
-  val |= (int64_t)bdata[3] << 24;
-  val |= (int64_t)bdata[4] << 32;
-  val |= (int64_t)bdata[5] << 40;
-  val |= (int64_t)bdata[6] << 48;
-  val |= (int64_t)bdata[7] << 56;
-  return val;
+  // Avoid shifting into the sign bit
+  return (int64_t)get_unaligned_u64le(data);
 }
 
 
@@ -486,60 +454,60 @@ static T get_unaligned(const T *data) {
 template <class T>
 static T get_unaligned_be(const T *data) {
   const uint8_t *bdata = (const uint8_t *)data;
-  T val = 0;
+  uint64_t val = 0; // Unsigned to avoid shifting into a sign bit
 
   constexpr int max_byte = sizeof(T) - 1;
   static_assert(max_byte < 8, "Integer is larger than 64-bits");
 
-  val |= (T)bdata[max_byte];
+  val |= (uint64_t)bdata[max_byte];
 
   if(max_byte > 0) { // 16-bits or more
-    val |= (T)bdata[max_byte-1] << 8;
+    val |= (uint64_t)bdata[max_byte-1] << 8;
 
     if(max_byte > 1) {  // 32-bits or more
-      val |= (T)bdata[max_byte-2] << 16;
-      val |= (T)bdata[max_byte-3] << 24;
+      val |= (uint64_t)bdata[max_byte-2] << 16;
+      val |= (uint64_t)bdata[max_byte-3] << 24;
 
       if(max_byte > 3) { // 64-bits
-        val |= (T)bdata[max_byte-4] << 32;
-        val |= (T)bdata[max_byte-5] << 40;
-        val |= (T)bdata[max_byte-6] << 48;
-        val |= (T)bdata[max_byte-7] << 56;
+        val |= (uint64_t)bdata[max_byte-4] << 32;
+        val |= (uint64_t)bdata[max_byte-5] << 40;
+        val |= (uint64_t)bdata[max_byte-6] << 48;
+        val |= (uint64_t)bdata[max_byte-7] << 56;
       }
     }
   }
 
-  return val;
+  return (T)val;
 }
 
 
 template <class T>
 static T get_unaligned_le(const T *data) {
   const uint8_t *bdata = (const uint8_t *)data;
-  T val = 0;
+  uint64_t val = 0; // Unsigned to avoid shifting into a sign bit
 
   constexpr int max_byte = sizeof(T) - 1;
   static_assert(max_byte < 8, "Integer is larger than 64-bits");
 
-  val |= (T)bdata[0];
+  val |= (uint64_t)bdata[0];
 
   if(max_byte > 0) { // 16-bits or more
-    val |= (T)bdata[1] << 8;
+    val |= (uint64_t)bdata[1] << 8;
 
     if(max_byte > 1) {  // 32-bits or more
-      val |= (T)bdata[2] << 16;
-      val |= (T)bdata[3] << 24;
+      val |= (uint64_t)bdata[2] << 16;
+      val |= (uint64_t)bdata[3] << 24;
 
       if(max_byte > 3) { // 64-bits
-        val |= (T)bdata[4] << 32;
-        val |= (T)bdata[5] << 40;
-        val |= (T)bdata[6] << 48;
-        val |= (T)bdata[7] << 56;
+        val |= (uint64_t)bdata[4] << 32;
+        val |= (uint64_t)bdata[5] << 40;
+        val |= (uint64_t)bdata[6] << 48;
+        val |= (uint64_t)bdata[7] << 56;
       }
     }
   }
 
-  return val;
+  return (T)val;
 }
 
 
-- 
2.43.0


From 4f6219e69dbe7f2befd3c0eedcb73e9f83889f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 69/71] fix: stdio: seeking by the most negative offset does
 not overflow

---
 src/stdio_fs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 1ff608b..9ef2e34 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -23,6 +23,7 @@ Embedded Virtual Filesystem
 
 #include <stdio.h>
 #include <string.h>
+#include <limits.h>
 
 #include "evfs.h"
 #include "evfs_internal.h"
@@ -200,19 +201,21 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
 static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
   StdioFile *fil = (StdioFile *)fh;
   int sorg = SEEK_SET;
+  long pos = offset;
 
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
     case EVFS_SEEK_REV: // Positive offsets go back from the end
       sorg = SEEK_END;
-      offset = -offset;
+      if(pos == LONG_MIN) return EVFS_ERR_OVERFLOW; // Can't be negated
+      pos = -pos;
       break;
     default:
       break;
   }
 
-  return simple_error(fseek(fil->fp, offset, sorg));
+  return simple_error(fseek(fil->fp, pos, sorg));
 }
 
 static evfs_off_t stdio__file_tell(EvfsFile *fh) {
-- 
2.43.0


From 704bd407dd317cb1db7a4e0f24a58e4b833be500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 70/71] fix: make_path: a directory that another thread makes
 meanwhile is not an error

---
 src/evfs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index 90319fe..e204ed6 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -779,6 +779,8 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
 
     if(err == EVFS_ERR_NO_FILE) { // Path segment missing
       err = vfs->m_make_dir(vfs, cur_path);
+      if(err == EVFS_ERR_EXISTS && vfs->m_stat(vfs, cur_path, &info) == EVFS_OK && (info.type & EVFS_FILE_DIR))
+        err = EVFS_OK; // It was made by someone else after the m_stat() call
       if(err != EVFS_OK) { // New segment not made
         rval = err;
         goto cleanup;
-- 
2.43.0


From 558dbea45cdfa5204944d3e916bfa5e8385dc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 71/71] fix: fatfs: the cluster of a directory that doesn't fit
 into the root is freed on disk as well

---
 libraries/fatfs/source/ff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/fatfs/source/ff.c b/libraries/fatfs/source/ff.c
index cbfd2d2..a1af8b4 100644
--- a/libraries/fatfs/source/ff.c
+++ b/libraries/fatfs/source/ff.c
@@ -5051,7 +5051,8 @@ FRESULT f_mkdir (
 					res = sync_fs(fs);
 				}
 			} else {
-				remove_chain(&sobj, dcl, 0);		/* Could not register, remove the allocated cluster */
+				/* Could not register, remove the allocated cluster. It may have reached the disk already. */
+				if (remove_chain(&sobj, dcl, 0) == FR_OK) sync_fs(fs);
 			}
 		}
 		FREE_NAMBUF();
-- 
2.43.0

