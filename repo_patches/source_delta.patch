From 667850c89afd73306eb55c9fb8ed773b366f9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:25 +0000
Subject: [PATCH 001/105] fix: clear the new half of the tag database when it
 grows and publish its size

---
 src/server/tagbase.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..bca2134 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -203,7 +203,11 @@ _database_grow(void)
     if(new_index != NULL && new_db != NULL) {
         _index = new_index;
         _db = new_db;
+        /* The rest of the program relies on unused entries being zero */
+        memset(&_index[_dbsize], 0, _dbsize * sizeof(_dax_tag_index));
+        memset(&_db[_dbsize], 0, _dbsize * sizeof(_dax_tag_db));
         _dbsize *= 2;
+        set_dbsize(_dbsize);
         return 0;
     } else {
         /* This is to shrink the one that didn't get allocated
-- 
2.43.0


From 9a6d489c5b71a8c623f0b7512a649ab39dc1d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:25 +0000
Subject: [PATCH 002/105] fix: write complete tag descriptions to _tag_added
 and _tag_deleted without overrunning buffers

---
 src/server/tagbase.c | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index bca2134..37deb33 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -448,6 +448,21 @@ _set_attribute(tag_index idx, uint32_t attr) {
     }
 }
 
+/* Writes the description of the tag at 'idx' into one of the '_tag_desc'
+ * system tags.  The layout is that of the '_tag_desc' compound datatype */
+static void
+_write_tag_desc(tag_index system_idx, tag_index idx) {
+    uint8_t tag_desc[14 + DAX_TAGNAME_SIZE + 1];
+
+    memset(tag_desc, 0, sizeof(tag_desc));
+    memcpy(&tag_desc[0], &idx, sizeof(tag_index));
+    memcpy(&tag_desc[4], &_db[idx].type, sizeof(tag_type));
+    memcpy(&tag_desc[8], &_db[idx].count, sizeof(dax_udint));
+    memcpy(&tag_desc[12], &_db[idx].attr, sizeof(uint16_t));
+    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
+    tag_write(-1, system_idx, 0, tag_desc, sizeof(tag_desc));
+}
+
 /* This adds a tag to the database. It takes a string for the name
  * of the tag, the type (see opendax.h for types) and a count.  If
  * count is greater than 1 an array is created.  It returns the index
@@ -459,7 +474,6 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     void *newdata;
     unsigned int size;
     int result;
-    uint8_t tag_desc[47];
 
     if(count == 0) {
         dax_log(DAX_LOG_ERROR, "tag_add() called with count = 0");
@@ -509,7 +523,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 _db[n].count = count;
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
-                tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
+                _write_tag_desc(INDEX_ADDED_TAG, n);
                 return n;
             } else {
                 dax_log(DAX_LOG_ERROR, "Unable to allocate memory to grow the size of tag %s", name);
@@ -568,13 +582,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
-    *((tag_index *)tag_desc) = n;
-    *((tag_type *)&tag_desc[4]) = type;
-    *((dax_udint *)&tag_desc[8]) = count;
-    *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
-    tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_ADDED_TAG, n);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
 
@@ -606,7 +614,6 @@ tag_clr_attribute(tag_index index, uint32_t attr) {
 int
 tag_del(tag_index idx)
 {
-    uint8_t tag_desc[47];
 
     if(idx >= _tagnextindex || idx < 0) {
         dax_log(DAX_LOG_ERROR, "tag_del() pass index out of range %d", idx);
@@ -631,13 +638,7 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
-    *((tag_index *)tag_desc) = idx;
-    *((tag_type *)&tag_desc[4]) = _db[idx].type;
-    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
-    *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
-    tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_DELETED_TAG, idx);
 
     xfree(_db[idx].name);
     xfree(_db[idx].data);
-- 
2.43.0


From 4dcd2fc23eedec06c892bc7f1465033baec44e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 003/105] fix: refuse tags whose size in bytes overflows

---
 src/server/tagbase.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 37deb33..8e35bd3 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -472,7 +472,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 {
     int n;
     void *newdata;
-    unsigned int size;
+    uint64_t size;
     int result;
 
     if(count == 0) {
@@ -502,7 +502,11 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     if(type == DAX_BOOL) {
         size = count / 8 + 1;
     } else {
-        size = type_size(type) * count;
+        size = (uint64_t)type_size(type) * count;
+    }
+    if(size > INT32_MAX) {
+        dax_log(DAX_LOG_MSGERR, "tag_add() tag %s would be too large", name);
+        return ERR_2BIG;
     }
 
     /* Check for an existing tagname in the database */
-- 
2.43.0


From f2f78b199e5d3cf28a18e63251274fdd5c8fc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 004/105] fix: enlarging a tag clears the new data, resizes its
 override and leaves queues alone

---
 src/server/tagbase.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 8e35bd3..0d6892f 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -448,6 +448,25 @@ _set_attribute(tag_index idx, uint32_t attr) {
     }
 }
 
+/* Makes the override storage of a tag as large as the new size of the tag */
+static int
+_override_grow(tag_index idx, int size) {
+    uint8_t *new;
+    int old_size;
+
+    if(_db[idx].odata == NULL) return 0;
+    old_size = tag_get_size(idx);
+    new = xrealloc(_db[idx].odata, size);
+    if(new == NULL) return ERR_ALLOC;
+    memset(&new[old_size], 0, size - old_size);
+    _db[idx].odata = new;
+    new = xrealloc(_db[idx].omask, size);
+    if(new == NULL) return ERR_ALLOC;
+    memset(&new[old_size], 0, size - old_size);
+    _db[idx].omask = new;
+    return 0;
+}
+
 /* Writes the description of the tag at 'idx' into one of the '_tag_desc'
  * system tags.  The layout is that of the '_tag_desc' compound datatype */
 static void
@@ -521,8 +540,15 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         } else if(_db[n].type == type && _db[n].count < count) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
+            if(IS_QUEUE(type)) {
+                /* The elements that are already in the queue can't be resized */
+                return ERR_TAG_DUPL;
+            }
+            result = _override_grow(n, size);
+            if(result) return result;
             newdata = xrealloc(_db[n].data, size);
             if(newdata) {
+                memset((uint8_t *)newdata + tag_get_size(n), 0, size - tag_get_size(n));
                 _db[n].data = newdata;
                 _db[n].count = count;
                 _set_attribute(n, attr);
-- 
2.43.0


From 794371c8b398aa47b094e0357ea3b9c0fb2190ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 005/105] fix: keep the override counters right when an
 override goes away with its tag or while it is set

---
 src/server/tagbase.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 0d6892f..ff5145a 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -58,6 +58,7 @@ static unsigned int _datatype_size;
 
 
 /* Private function definitions */
+static void _override_free(tag_index idx);
 
 /* These functions are convienience for setting status tags */
 void
@@ -660,6 +661,12 @@ tag_del(tag_index idx)
     if(_db[idx].attr & TAG_ATTR_RETAIN) {
         ret_del_tag(idx);
     }
+    if(_db[idx].attr & TAG_ATTR_OVR_SET) {
+        override_set(idx, 0);
+    }
+    if(_db[idx].odata != NULL) {
+        _override_free(idx);
+    }
     events_del_all(_db[idx].events);
     _db[idx].events = NULL;
     map_del_all(_db[idx].mappings);
@@ -1292,6 +1299,21 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     return 0;
 }
 
+/* Frees the memory of the override of the given tag and clears the flag
+ * that indicates that we have one installed */
+static void
+_override_free(tag_index idx) {
+    _db[idx].attr &= ~TAG_ATTR_OVERRIDE;
+    _ovrdinstalled--;
+    if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
+        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+    }
+    xfree(_db[idx].odata);
+    _db[idx].odata = NULL;
+    xfree(_db[idx].omask);
+    _db[idx].omask = NULL;
+}
+
 int
 override_del(tag_index idx, int offset, void *mask, int size) {
     int tag_size;
@@ -1315,19 +1337,10 @@ override_del(tag_index idx, int offset, void *mask, int size) {
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
-    /* Remove both of the flags that indicate we have an override installed or set */
-    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
-     * tag so we'll free the memory */
-    _ovrdinstalled--;
-    if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
-        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
-    }
-    xfree(_db[idx].odata);
-    _db[idx].odata = NULL;
-    xfree(_db[idx].omask);
-    _db[idx].omask = NULL;
-
+     * tag so we'll switch it off and free the memory */
+    override_set(idx, 0);
+    _override_free(idx);
     return 0;
 }
 
-- 
2.43.0


From 9630d475f65596923ea33c7ef2f532e8e78aa3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 006/105] fix: overrides cover the whole tag, BOOL tags
 included, and stay within it

---
 src/server/tagbase.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index ff5145a..d2d834d 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -129,6 +129,13 @@ tag_get_size(tag_index idx)
         return type_size(_db[idx].type)  * _db[idx].count;
 }
 
+/* Returns true if the block of 'size' bytes at 'offset' lies within the tag */
+static int
+_range_ok(tag_index idx, int offset, int size)
+{
+    return offset >= 0 && size >= 0 && (int64_t)offset + size <= tag_get_size(idx);
+}
+
 /* Determine whether or not the tag name is okay */
 static int
 _validate_name(char *name)
@@ -1267,7 +1274,11 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) {
+        return ERR_ILLEGAL; /* There is no stored data to override */
+    }
+    if(! _range_ok(idx, offset, size)) return ERR_2BIG;
+    tag_size = tag_get_size(idx);
 
     if(_db[idx].odata == NULL) {
         _db[idx].odata = malloc(tag_size);
@@ -1279,10 +1290,9 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
+        bzero(_db[idx].odata, tag_size);
+        bzero(_db[idx].omask, tag_size);
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
     memcpy(&_db[idx].odata[offset], data, size);
     memcpy(&_db[idx].omask[offset], mask, size);
 
@@ -1325,15 +1335,15 @@ override_del(tag_index idx, int offset, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
+    if(! _range_ok(idx, offset, size)) return ERR_2BIG;
     for(n=0;n<size;n++) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
-- 
2.43.0


From b9df7079bc8fdbbb2ace036b5fcec284f828ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 007/105] fix: override_get honours the offset and reports a
 missing override

---
 src/server/tagbase.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index d2d834d..1f1b096 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1357,18 +1357,18 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
-
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
+    if(_db[idx].odata == NULL) {
+        return ERR_GENERIC;
+    }
+    if(! _range_ok(idx, offset, size)) return ERR_2BIG;
+    memcpy(data, &_db[idx].data[offset], size);
+    memcpy(mask, &_db[idx].omask[offset], size);
     return 0;
 }
 
-- 
2.43.0


From 3df75adc9c5a1c586bef0c4965b9ce5dfeb80950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 008/105] fix: adding an override for some bits keeps the
 overrides of the other bits

---
 src/server/tagbase.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 1f1b096..d11a5c4 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1266,7 +1266,8 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
 
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
-    int tag_size;
+    int tag_size, n;
+    uint8_t *m;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
@@ -1293,8 +1294,11 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
         bzero(_db[idx].odata, tag_size);
         bzero(_db[idx].omask, tag_size);
     }
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
+    m = (uint8_t *)mask;
+    for(n=0; n<size; n++) {
+        _db[idx].odata[n+offset] = (_db[idx].odata[n+offset] & ~m[n]) | (((uint8_t *)data)[n] & m[n]);
+        _db[idx].omask[n+offset] |= m[n];
+    }
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
-- 
2.43.0


From 86e6c48cd4d4b514c9d4010c41adb1e09e76dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 009/105] fix: a module that takes ownership of an existing tag
 becomes its owner

---
 src/server/tagbase.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index d11a5c4..40438c6 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -543,6 +543,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         }
         /* If the tag is identical or bigger then just return the handle */
         if(_db[n].type == type && _db[n].count >= count) {
+            if(attr & TAG_ATTR_OWNED) _db[n].fd = fd;
             _set_attribute(n, attr);
             return n;
         } else if(_db[n].type == type && _db[n].count < count) {
@@ -559,6 +560,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 memset((uint8_t *)newdata + tag_get_size(n), 0, size - tag_get_size(n));
                 _db[n].data = newdata;
                 _db[n].count = count;
+                if(attr & TAG_ATTR_OWNED) _db[n].fd = fd;
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
                 _write_tag_desc(INDEX_ADDED_TAG, n);
-- 
2.43.0


From c27cc14e1fd3280d9c62bd0737b41d582d1da528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 010/105] fix: check tag indexes and ranges before using them

---
 src/server/tagbase.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 40438c6..99afdc2 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -754,23 +754,27 @@ get_tagindex(void) {
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
@@ -804,7 +808,7 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if( ! _range_ok(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -850,7 +854,7 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if( ! _range_ok(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -879,15 +883,15 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
+    if( ! _range_ok(idx, offset, size)) {
         return ERR_2BIG;
     }
     if(_db[idx].data == NULL) {
-- 
2.43.0


From fcea1e8f00253d63c111f0180b73043d37dafde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 011/105] fix: growing a queue tag no longer leaves two slots
 sharing one element, and deletion frees them

---
 src/server/tagbase.c    | 21 ++++++++++++++++++++-
 src/server/virtualtag.c |  9 ++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 99afdc2..5d9336f 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -327,8 +327,8 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     vf.userdata = (uint8_t *)q;
     _db[idx].data = malloc(sizeof(virt_functions));
     if(_db[idx].data == NULL) {
-        free(q);
         free(q->queue);
+        free(q);
         return ERR_ALLOC;
     }
     memcpy(_db[idx].data, &vf, sizeof(virt_functions));
@@ -337,6 +337,22 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     return 0;
 }
 
+/* Frees the elements of the queue tag at the given index */
+static void
+_queue_free(tag_index idx) {
+    virt_functions *vf;
+    tag_queue *q;
+    int n;
+
+    vf = (virt_functions *)_db[idx].data;
+    q = (tag_queue *)vf->userdata;
+    for(n=0; n<q->qsize; n++) {
+        free(q->queue[n]);
+    }
+    free(q->queue);
+    free(q);
+}
+
 /* This function adds a virtual tag to the system.  When this tag is read, the data will
  * come from the function given by rf. And when written the data will be passed to wf.  If
  * rf == NULL then the tag will be write only and reads will return an error and likewise if
@@ -686,6 +702,9 @@ tag_del(tag_index idx)
     /* Update the '_tag_deleted' system tag */
     _write_tag_desc(INDEX_DELETED_TAG, idx);
 
+    if(IS_QUEUE(_db[idx].type)) {
+        _queue_free(idx);
+    }
     xfree(_db[idx].name);
     xfree(_db[idx].data);
     _db[idx].name = NULL;
diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..890a7a9 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -80,7 +80,7 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
     tag_queue *q;
 
     int next, newqsize;
-    uint8_t *new_queue;
+    void **new_queue;
 
     /* We only allow writing the entire tag.  Doing otherwise
      * would be ambiguous */
@@ -91,11 +91,14 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         newqsize = q->qsize* 2;
         new_queue = realloc(q->queue, sizeof(void *) * newqsize);
         if(new_queue == NULL) return ERR_ALLOC;
-        q->queue = (void **)new_queue;
+        q->queue = new_queue;
+        bzero(&q->queue[q->qsize], q->qsize * sizeof(void *));
         /* After the queue size is increased we need to move the fragment that is now
-         * at the beginning of the queue to the start of the new area */
+         * at the beginning of the queue to the start of the new area.  The places that
+         * they came from don't own that memory anymore. */
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
+            bzero(&q->queue[0], q->qread * sizeof(void *));
         }
         q->qsize = newqsize;
     }
-- 
2.43.0


From b8153597eb45b976056ac102c9ef605265bda686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 012/105] fix: reads of virtual tags honour the requested
 offset and size

---
 src/server/virtualtag.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index 890a7a9..cf17f55 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -53,8 +53,9 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
 {
     dax_time t;
 
+    if(offset < 0 || size < 0 || (int64_t)offset + size > sizeof(dax_time)) return ERR_2BIG;
     t = xtime();
-    memcpy(data, &t, size);
+    memcpy(data, (uint8_t *)&t + offset, size);
     return 0;
 }
 
@@ -63,13 +64,16 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     int result;
     dax_tag tag;
     dax_module *mod;
+    char name[DAX_TAGNAME_SIZE + 1];
 
     mod = module_find_fd(fd);
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    if(offset < 0 || size < 0 || (int64_t)offset + size > sizeof(name)) return ERR_2BIG;
+    bzero(name, sizeof(name));
+    strncpy(name, tag.name, DAX_TAGNAME_SIZE);
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
@@ -120,6 +124,8 @@ read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userda
     tag_queue *q;
 
     q = (tag_queue *)userdata;
+    /* Like writing, only the entire tag can be read */
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From f979a29e995bd9e6955c2a8890d0e34c5c8df029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 013/105] fix: queues of BOOLs and of compound datatypes have
 the right element size

---
 src/libcommon.h      |  2 +-
 src/server/tagbase.c | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libcommon.h b/src/libcommon.h
index c2d8199..a812c28 100644
--- a/src/libcommon.h
+++ b/src/libcommon.h
@@ -88,7 +88,7 @@
 #define CDT_GET_TYPE    0x02 /* Retrieve the type by it's type */
 
 /* Some Macros for manipulating CDT types */
-#define CDT_TO_INDEX(TYPE) (TYPE & ~DAX_CUSTOM)
+#define CDT_TO_INDEX(TYPE) ((TYPE) & ~(DAX_CUSTOM | DAX_QUEUE))
 #define CDT_TO_TYPE(INDEX) (INDEX | DAX_CUSTOM)
 
 /* Maximum size allowed for a single message */
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 5d9336f..9af833d 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -123,7 +123,7 @@ _checktype(tag_type type)
 int
 tag_get_size(tag_index idx)
 {
-    if(_db[idx].type == DAX_BOOL)
+    if((_db[idx].type & ~DAX_QUEUE) == DAX_BOOL)
         return _db[idx].count / 8 + 1;
     else
         return type_size(_db[idx].type)  * _db[idx].count;
@@ -308,7 +308,11 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     if(q == NULL) {
         return ERR_ALLOC;
     }
-    size = type_size(type) * count;
+    if((type & ~DAX_QUEUE) == DAX_BOOL) {
+        size = count / 8 + 1;
+    } else {
+        size = type_size(type) * count;
+    }
     q->size = size;
     q->count = count;
     q->type = type;
@@ -542,7 +546,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     }
 
     /* Figure the size in bytes */
-    if(type == DAX_BOOL) {
+    if((type & ~DAX_QUEUE) == DAX_BOOL) {
         size = count / 8 + 1;
     } else {
         size = (uint64_t)type_size(type) * count;
-- 
2.43.0


From 572b9f51a7639f779e660eb4e87e1059547528f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 014/105] fix: creating or asking for a compound datatype with
 an empty, existing or unknown name

---
 src/server/tagbase.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 9af833d..b78d0c9 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1055,21 +1055,22 @@ cdt_create(char *str, int *error) {
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
     /* Check that the name is okay */
-    if( (result = _validate_name(name)) ) {
+    if( (result = (name == NULL ? ERR_ARG : _validate_name(name))) ) {
         if(error != NULL) *error = result;
         free(tmp);
         return 0;
     }
     if((type = cdt_get_type(name))) {
-        serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
+        serial = NULL;
+        if(serialize_datatype(type, &serial) < 0 || strcmp(serial, str)) { /* This means the two CDT's are not equal */
             if(error != NULL) *error = ERR_DUPL;
-            free(tmp);
-            return 0;
+            type = 0;
         } else { /* If it's the same then just return it */
-            free(tmp);
-            return type;
+            if(error != NULL) *error = 0;
         }
+        free(serial);
+        free(tmp);
+        return type;
     }
     /* Initialize the new datatype */
     cdt.name = strdup(name);
@@ -1448,6 +1449,7 @@ serialize_datatype(tag_type type, char **str)
     cdt_member *this;
     int cdt_index;
 
+    if(! IS_CUSTOM(type)) return ERR_ARG;
     cdt_index = CDT_TO_INDEX(type);
 
     if(cdt_index < 0 || cdt_index >= _datatype_index) {
-- 
2.43.0


From 7181737331af463890edb85664c71cc070b90bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 015/105] fix: refuse compound datatypes without members, with
 bad counts or of unrepresentable size

---
 src/server/tagbase.c | 80 +++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index b78d0c9..7955d09 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -59,6 +59,7 @@ static unsigned int _datatype_size;
 
 /* Private function definitions */
 static void _override_free(tag_index idx);
+static int _cdt_size(cdt_member *members);
 
 /* These functions are convienience for setting status tags */
 void
@@ -964,6 +965,7 @@ static int
 cdt_append(datatype *cdt, char *str)
 {
     int retval, count;
+    long lcount;
     cdt_member *this, *new;
     char *name, *typestr, *countstr, *last;
     tag_type type;
@@ -975,7 +977,9 @@ cdt_append(datatype *cdt, char *str)
     if(typestr == NULL) return ERR_ARG;
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
-    count = strtol(countstr, NULL, 0);
+    lcount = strtol(countstr, NULL, 0);
+    if(lcount <= 0 || lcount > INT32_MAX) return ERR_ARG;
+    count = lcount;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -1090,6 +1094,11 @@ cdt_create(char *str, int *error) {
         }
     }
     free(tmp);
+    if(cdt.members == NULL || (result = _cdt_size(cdt.members)) <= 0) {
+        if(error != NULL) *error = cdt.members == NULL ? ERR_ARG : ERR_2BIG;
+        _cdt_destroy(&cdt);
+        return 0;
+    }
 
     /* Do we have space in the array */
     if(_datatype_index == _datatype_size) {
@@ -1492,48 +1501,57 @@ serialize_datatype(tag_type type, char **str)
     return size;
 }
 
+/* Figures out how large a datatype with the given members is and returns
+ * that size in bytes or ERR_2BIG if that can't be represented. */
+static int
+_cdt_size(cdt_member *this)
+{
+    int result;
+    uint64_t pos = 0; /* Bit position within the data area */
+
+    while (this != NULL) {
+        if(this->type == DAX_BOOL) {
+            pos += this->count; /* BOOLs are easy just add the number of bits */
+        } else {
+            /* Since it's not a bool we need to align to the next byte.
+             * To align it we set all the lower three bits to 1 and then
+             * increment. */
+            if(pos % 8 != 0) { /* Do nothing if already aligned */
+                pos |= 0x07;
+                pos++;
+            }
+            if(IS_CUSTOM(this->type)) {
+                result = type_size(this->type);
+                assert(result > 0); /* The types within other types should be okay */
+                pos += ((uint64_t)result * this->count) * 8;
+            } else {
+                /* This gets the size in bits */
+                pos += (uint64_t)TYPESIZE(this->type) * this->count;
+            }
+        }
+        if(pos / 8 >= INT32_MAX) return ERR_2BIG;
+        this = this->next;
+    }
+    if(pos) {
+        return (pos - 1)/8 + 1;
+    } else {
+        return 0;
+    }
+}
+
 /* Figures out how large the datatype is and returns
  * that size in bytes.  This function is recursive */
 int
 type_size(tag_type type)
 {
     int size = 0, result;
-    unsigned int pos = 0; /* Bit position within the data area */
-    cdt_member *this;
 
     if( (result = _checktype(type)) ) {
         return result;
     }
 
     if(IS_CUSTOM(type)) {
-        this = _datatypes[CDT_TO_INDEX(type)].members;
-        while (this != NULL) {
-            if(this->type == DAX_BOOL) {
-                pos += this->count; /* BOOLs are easy just add the number of bits */
-            } else {
-                /* Since it's not a bool we need to align to the next byte.
-                 * To align it we set all the lower three bits to 1 and then
-                 * increment. */
-                if(pos % 8 != 0) { /* Do nothing if already aligned */
-                    pos |= 0x07;
-                    pos++;
-                }
-                if(IS_CUSTOM(this->type)) {
-                    result = type_size(this->type);
-                    assert(result > 0); /* The types within other types should be okay */
-                    pos += (result * this->count) * 8;
-                } else {
-                    /* This gets the size in bits */
-                    pos += TYPESIZE(this->type) * this->count;
-                }
-            }
-            this = this->next;
-        }
-        if(pos) {
-            size = (pos - 1)/8 + 1;
-        } else {
-            size = 0;
-        }
+        size = _cdt_size(_datatypes[CDT_TO_INDEX(type)].members);
     } else { /* Not IS_CUSTOM() */
         size = TYPESIZE(type) / 8; /* Size in bytes */
     }
-- 
2.43.0


From e68367f5456ca626f18c0f8011b6172fd5b5d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 016/105] fix: cdt_get_entry() finds the first datatype and no
 unused entries

---
 src/server/tagbase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 7955d09..5f2e399 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1235,7 +1235,7 @@ cdt_get_entry(tag_type type) {
     int index;
 
     index = CDT_TO_INDEX(type);
-    if(IS_CUSTOM(type) && index > 0 && index < _datatype_size) {
+    if(IS_CUSTOM(type) && index >= 0 && index < _datatype_index) {
         return &_datatypes[index];
     } else {
         return NULL;
-- 
2.43.0


From 012fe98db1ac189d8a3414c78e025b6afb1aaba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 017/105] fix: deleting events uses freed memory, miscounts and
 always reports success

---
 src/server/events.c  | 24 ++++++++++--------------
 src/server/message.c |  8 ++++----
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..6de383d 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -680,25 +680,19 @@ event_del(int index, int id, dax_module *module)
         dax_log(DAX_LOG_ERROR, "event_del() - index %d is out of range\n", index);
         return ERR_2BIG;
     }
+    last = NULL;
     this = _db[index].events;
-    if(this == NULL) return ERR_NOTFOUND;
-    if(this->id == id) {
-        if(this->notify != module) {
-            dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-            return ERR_AUTH;
-        }
-        _db[index].events = this->next;
-        _free_event(this);
-    }
-    last = this;
-    this = this->next;
     while(this != NULL) {
         if(this->id == id) {
             if(this->notify != module) {
                 dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
                 return ERR_AUTH;
             }
-            last->next = this->next;
+            if(last == NULL) {
+                _db[index].events = this->next;
+            } else {
+                last->next = this->next;
+            }
             _free_event(this);
             result = 0;
             break; /* Uggg */
@@ -706,6 +700,7 @@ event_del(int index, int id, dax_module *module)
         last = this;
         this = this->next;
     }
+    if(result) return result;
     /* If there are no more events on this tag then reset the attibute flag */
     if(_db[index].events == NULL) {
         _db[index].attr &= ~TAG_ATTR_EVENT;
@@ -757,7 +752,7 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
@@ -767,10 +762,11 @@ events_cleanup(dax_module *module) {
         if(_db[n].events != NULL) {
             this = _db[n].events;
             while(this != NULL) {
+                next = this->next;
                 if(this->notify == module) {
                     event_del(n, this->id, module);
                 }
-                this = this->next;
+                this = next;
             }
         }
     }
diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..42fa6c1 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -661,8 +661,8 @@ msg_evnt_del(dax_message *msg)
 
     result = event_del(idx, id, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, &idx, sizeof(idx), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -692,8 +692,8 @@ msg_evnt_opt(dax_message *msg)
 
     result = event_opt(idx, id, options, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, &idx, sizeof(idx), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
-- 
2.43.0


From 3fb98b52b73bbb4027ff8b5f462eb552e80b41ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 018/105] fix: refuse events on deleted tags and with
 inconsistent handles

---
 src/server/events.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 6de383d..fd6f9b0 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -570,6 +570,16 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
     return 0;
 }
 
+/* Returns true if the size in the handle is what its type and count require */
+static int
+_handle_ok(tag_handle h) {
+    if(h.count == 0 || h.size == 0) return 0;
+    if(h.type == DAX_BOOL) {
+        return h.bit < 8 && ((uint64_t)h.bit + h.count - 1) / 8 + 1 == h.size;
+    }
+    return type_size(h.type) > 0 && (uint64_t)type_size(h.type) * h.count == h.size;
+}
+
 /* Add the event defined.  Return the event id. 'h' is a handle to the tag
  * data that the event is tied too.  'event_type' is the type of event (see
  * opendax.h for #defines.  'data' is any data that may need to be
@@ -585,6 +595,10 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
         dax_log(DAX_LOG_ERROR, "Tag index %d for new event is out of bounds", h.index);
         return ERR_ARG;
     }
+    if(_db[h.index].data == NULL) {
+        dax_log(DAX_LOG_ERROR, "Tag at index %d for new event has been deleted", h.index);
+        return ERR_DELETED;
+    }
     /* No events can be assigned to virtual tags unless it's a queue */
     if(is_tag_virtual(h.index) && ! is_tag_queue(h.index)) {
         dax_log(DAX_LOG_ERROR, "Events cannot be added to virtual events");
@@ -594,16 +608,20 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != tag_get_size(h.index)) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
     }
     /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
+    if( (uint64_t)h.byte + h.size > tag_get_size(h.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
         return ERR_2BIG;
     }
+    if(! is_tag_queue(h.index) && ! _handle_ok(h)) {
+        dax_log(DAX_LOG_ERROR, "Inconsistent size, count and type in the new event");
+        return ERR_ARG;
+    }
     if(_verify_event_type(h.type, event_type)) {
         /* error log handled in verify_event_type() function */
         return ERR_ARG;
-- 
2.43.0


From 4b7ef328e49fc859509e33935d2a19daf3a4d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 019/105] fix: deleted events work for all datatypes and
 unknown event types are refused

---
 src/server/events.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index fd6f9b0..3678a40 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -442,8 +442,8 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
-    /* All datatypes can use Write or Change */
-    if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
+    /* All datatypes can use Write, Change or Deleted */
+    if(etype == EVENT_WRITE || etype == EVENT_CHANGE || etype == EVENT_DELETED) {
         return 0;
     }
     /* Only BOOL can use Set and Reset */
@@ -465,16 +465,17 @@ _verify_event_type(tag_type ttype, int etype)
             return 0;
         }
     }
-    /* At this point the only ones left are < > and deadband.  All
-     * except Booleans and Custom datatypes can use these */
-    if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
-        dax_log(DAX_LOG_ERROR, "GREATER, LESS and DEADBAND events not allowed for BOOL and Custom types");
-        return -1;
-    } else {
-        return 0;
+    /* < > and deadband.  All except Booleans and Custom datatypes can use these */
+    if(etype == EVENT_GREATER || etype == EVENT_LESS || etype == EVENT_DEADBAND) {
+        if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
+            dax_log(DAX_LOG_ERROR, "GREATER, LESS and DEADBAND events not allowed for BOOL and Custom types");
+            return -1;
+        } else {
+            return 0;
+        }
     }
     /* If we get here then we were given an unknown event type */
-    dax_log(DAX_LOG_ERROR, "Unknown datatype in new event");
+    dax_log(DAX_LOG_ERROR, "Unknown event type in new event");
     return -1;
 }
 
-- 
2.43.0


From 51bd97691eb2a120370c0c6a8d4d05587562b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 020/105] fix: bit events that cross a byte boundary need as
 many test bytes as the bits span

---
 src/server/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 3678a40..e1bbb37 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -500,7 +500,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_CHANGE:
             datasize = 0;
             if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
+                testsize = event->size;
             } else {
                 testsize = type_size(event->datatype) * event->count;
             }
@@ -513,7 +513,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = event->size;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
-- 
2.43.0


From d48f3baf660687ec5538257d42fda68e5c738228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 021/105] fix: compare and deadband events use the full range
 of their datatypes

---
 src/server/events.c | 57 ++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index e1bbb37..f479f2b 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -205,7 +205,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -225,6 +224,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else if(u1.dax_ulint > u2.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = *(dax_lint *)data1;
             u2.dax_lint = *(dax_lint *)data2;
             if(u1.dax_lint < u2.dax_lint) return -1;
@@ -275,6 +275,19 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
     return result;
 }
 
+/* These are used to see if two integers are at least 'db' apart.  The difference
+ * of two numbers may not fit in their own type so we use an unsigned one. */
+static inline int
+_unsigned_deadband(uint64_t db, uint64_t x, uint64_t y) {
+    return (x > y ? x - y : y - x) >= db;
+}
+
+static inline int
+_signed_deadband(int64_t db, int64_t x, int64_t y) {
+    if(db < 0) return 1;
+    return (x > y ? (uint64_t)x - (uint64_t)y : (uint64_t)y - (uint64_t)x) >= (uint64_t)db;
+}
+
 /* This function calculates whether the deadband has been exceeded for each of the
  * different datatypes.  Returns 1 if the deadband has been exceeded and 0 otherwise */
 static inline int
@@ -283,50 +296,26 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
     switch(event->datatype) {
         case DAX_BYTE:
-            db.dax_byte = *(dax_byte *)event->data;
-            diff.dax_int = *(dax_byte *)data1 - *(dax_byte *)data2;
-            if(ABS(diff.dax_int) >= db.dax_byte) return 1;
-            else return 0;
+            return _unsigned_deadband(*(dax_byte *)event->data, *(dax_byte *)data1, *(dax_byte *)data2);
         case DAX_SINT:
         case DAX_CHAR:
-            db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
-            else return 0;
+            return _signed_deadband(*(dax_sint *)event->data, *(dax_sint *)data1, *(dax_sint *)data2);
         case DAX_UINT:
         case DAX_WORD:
-            db.dax_uint = *(dax_uint *)event->data;
-            diff.dax_dint = *(dax_uint *)data1 - *(dax_uint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_uint) return 1;
-            else return 0;
+            return _unsigned_deadband(*(dax_uint *)event->data, *(dax_uint *)data1, *(dax_uint *)data2);
         case DAX_INT:
-            db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
-            else return 0;
+            return _signed_deadband(*(dax_int *)event->data, *(dax_int *)data1, *(dax_int *)data2);
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
-            else return 0;
+            return _unsigned_deadband(*(dax_udint *)event->data, *(dax_udint *)data1, *(dax_udint *)data2);
         case DAX_DINT:
-            db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
-            else return 0;
+            return _signed_deadband(*(dax_dint *)event->data, *(dax_dint *)data1, *(dax_dint *)data2);
         case DAX_ULINT:
         case DAX_LWORD:
-            db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
-            else return 0;
+            return _unsigned_deadband(*(dax_ulint *)event->data, *(dax_ulint *)data1, *(dax_ulint *)data2);
         case DAX_LINT:
-            db.dax_lint = *(dax_lint *)event->data;
-            diff.dax_lint = *(dax_lint *)data1 - *(dax_lint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_lint) return 1;
-            else return 0;
+        case DAX_TIME:
+            return _signed_deadband(*(dax_lint *)event->data, *(dax_lint *)data1, *(dax_lint *)data2);
         case DAX_REAL:
             db.dax_real = *(dax_real *)event->data;
             diff.dax_real = *(dax_real *)data1 - *(dax_real *)data2;
-- 
2.43.0


From 22f4066f4f2c36b5ca50e2779aa3d5bfea879ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 022/105] fix: events look at whole elements when only part of
 one is written and at none when nothing is

---
 src/server/events.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index f479f2b..2273150 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -247,20 +247,28 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
     return -2;
 }
 
+/* Finds the first and last elements of the event that are affected by a write
+ * to the given area.  The write may start or end in the middle of an element. */
+static inline void
+_event_elements(_dax_event *event, int offset, int size, int inc, int *first, int *last) {
+    *first = MAX(0, offset - event->byte) / inc;
+    *last = (MIN((int)(event->byte + event->size), offset + size) - event->byte - 1) / inc;
+}
+
 static int
 _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compare) {
-    int n, inc, bit, len, result;
+    int n, first, last, inc, bit, result;
     uint8_t *this, *that;
     uint8_t mask;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
     /* For these 'this' is a bit field */
-    bit = MAX(0, (offset - event->byte) / inc);
     this = (uint8_t *)event->test;
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
-    for(n = 0; n < len; n += inc) {
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    _event_elements(event, offset, size, inc, &first, &last);
+    for(bit = first; bit <= last;) {
+        n = bit * inc;
         mask = 0x01<<(bit%8);
         if(_generic_compare(event->datatype, event->data, &(that[n])) == compare) {
             if(!(this[bit/8] & mask)) {
@@ -334,16 +342,16 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
 static inline int
 _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
-    int n, inc, len, result;
+    int n, first, last, inc, result;
     uint8_t *this, *that;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    this = (uint8_t *)event->test + MAX(0, offset - event->byte);
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
+    this = (uint8_t *)event->test;
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    _event_elements(event, offset, size, inc, &first, &last);
 
-    for(n = 0; n < len; n += inc) {
+    for(n = first * inc; n <= last * inc; n += inc) {
         if(_generic_deadband(event, &this[n], &that[n])) {
             result = 1;
             memcpy(&this[n], &that[n], inc);
@@ -394,6 +402,7 @@ void
 event_check(tag_index idx, int offset, int size) {
     _dax_event *this;
 
+    if(size <= 0) return; /* Nothing was written */
     this = _db[idx].events;
 
     while(this != NULL) {
-- 
2.43.0


From 8a222fe68392ca2aafa2953393828ff2f8c1a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 023/105] fix: refuse the send data option for events that
 cannot carry their data

---
 src/server/events.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/events.c b/src/server/events.c
index 2273150..3e07043 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -760,6 +760,10 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
         return ERR_AUTH;
     }
 
+    if(options & EVENT_OPT_SEND_DATA) {
+        if(is_tag_queue(index)) return ERR_ILLEGAL; /* There is no data to send */
+        if(event->size > MSG_DATA_SIZE - 8) return ERR_2BIG; /* It wouldn't fit in the message */
+    }
     event->options = options;
     return 0;
 }
-- 
2.43.0


From c2ec663da30ff40f92acd7de1b37df823522fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 024/105] fix: deleting a mapping dereferences NULL, drops
 other mappings and leaves the attribute set

---
 src/server/mapping.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..c32701d 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -150,26 +150,24 @@ map_del(tag_index index, int id) {
     if(index < 0 || index >= get_tagindex()) {
         return ERR_ARG;
     }
+    prev = NULL;
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
-        prev = this;
-        this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
+    while(this != NULL) {
+        if(this->id == id) {  /* Found it */
+            if(prev == NULL) {
+                _db[index].mappings = this->next;
+            } else {
                 prev->next = this->next;
-                _free_map(this);
-                return 0;
             }
-            this = this->next;
+            _free_map(this);
+            /* If there are no more mappings reset the attribute flag */
+            if(_db[index].mappings == NULL) {
+                _db[index].attr &= ~TAG_ATTR_MAPPING;
+            }
+            return 0;
         }
-    }
-    /* If there are no more mappings reset the attribute flag */
-    if(_db[index].mappings == NULL) {
-        _db[index].attr &= ~TAG_ATTR_MAPPING;
+        prev = this;
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
-- 
2.43.0


From f8743c486213113c91fb6147824913e1eaa6b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 025/105] fix: map_check() uses a mapping after deleting it

---
 src/server/mapping.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index c32701d..6a716a5 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -208,7 +208,7 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
     int srcByte;
     int srcBit;
@@ -216,11 +216,12 @@ map_check(tag_index idx, int offset, int size) {
     int destBit;
     int result;
 
+    if(size <= 0) return 0; /* Nothing was written */
     this = _db[idx].mappings;
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
-
+        next = this->next; /* The map may get deleted below */
         if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
@@ -267,7 +268,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
-- 
2.43.0


From 9ac61219106a473278cdb1607934343605b309da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 026/105] fix: mappings of bits handle any alignment and
 invalid handles are refused

---
 src/server/mapping.c | 51 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 6a716a5..78cb636 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -60,6 +60,13 @@ _handles_equal(tag_handle h1, tag_handle h2)
            h1.size == h2.size );
 }
 
+/* The number of bits that are moved by a map with the given source */
+static inline uint64_t
+_map_bits(tag_handle *src)
+{
+    return src->type == DAX_BOOL ? src->count : (uint64_t)src->size * 8;
+}
+
 int
 map_add(tag_handle src, tag_handle dest)
 {
@@ -67,6 +74,7 @@ map_add(tag_handle src, tag_handle dest)
     _dax_datamap *this;
     int bit, offset;
     uint8_t *mask;
+    uint64_t bits;
 
     DF("map added index1=%d, byte1, %d, size1=%d, index2=%d, byte2=%d, size2=%d", src.index, src.byte, src.size, dest.index, dest.byte, dest.size);
     /* Bounds check handles */
@@ -79,6 +87,10 @@ map_add(tag_handle src, tag_handle dest)
        dax_log(DAX_LOG_ERROR, "Destination tag index %d for new mapping is out of bounds", dest.index);
        return ERR_ARG;
     }
+    if(_db[src.index].data == NULL || _db[dest.index].data == NULL) {
+        dax_log(DAX_LOG_ERROR, "Tag for new mapping has been deleted");
+        return ERR_DELETED;
+    }
     if(is_tag_virtual(src.index)){
         return ERR_ILLEGAL;
     }
@@ -90,16 +102,29 @@ map_add(tag_handle src, tag_handle dest)
        return ERR_READONLY;
     }
     /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
+    if( (uint64_t)src.byte + src.size > tag_get_size(src.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
         return ERR_2BIG;
     }
     /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
+    if( (uint64_t)dest.byte + dest.size > tag_get_size(dest.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
         return ERR_2BIG;
     }
-    if( src.size > dest.size ) {
+    if(src.size == 0 || (src.type == DAX_BOOL && (src.count == 0 || src.bit > 7 ||
+                                                 (uint64_t)src.bit + src.count > (uint64_t)src.size * 8))) {
+        dax_log(DAX_LOG_ERROR, "Inconsistent source handle in the new mapping");
+        return ERR_ARG;
+    }
+    /* If either side is made of bits then it's the bits that have to fit */
+    bits = _map_bits(&src);
+    if(src.type == DAX_BOOL || dest.type == DAX_BOOL) {
+        if(dest.bit > 7 || dest.bit + bits > (uint64_t)dest.size * 8 ||
+           (dest.type == DAX_BOOL && bits > dest.count)) {
+            dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
+            return ERR_2BIG;
+        }
+    } else if( src.size > dest.size ) {
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
     }
@@ -115,7 +140,7 @@ map_add(tag_handle src, tag_handle dest)
 
     new_map = _new_map(src, dest);
 
-    if(src.type == DAX_BOOL) {
+    if(src.type == DAX_BOOL || dest.type == DAX_BOOL) {
         /* This basically creates a mask to write the bits that we want.
          * We are putting the bits in mask according to the destination.
          * The data itself will have to be shifted later when we write
@@ -123,9 +148,9 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
-        for(int i=0; i<src.count; i++) {
+        mask = (uint8_t *)malloc(dest.size);
+        bzero(mask, dest.size);
+        for(int i=0; i<bits; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
             if(bit == 8) {
@@ -215,6 +240,7 @@ map_check(tag_index idx, int offset, int size) {
     int destByte;
     int destBit;
     int result;
+    uint64_t bits;
 
     if(size <= 0) return 0; /* Nothing was written */
     this = _db[idx].mappings;
@@ -229,16 +255,17 @@ map_check(tag_index idx, int offset, int size) {
                 /* Move the bits from their position in the source to
                  * where they should go in the destination */
                 srcByte = 0;
-                srcBit = this->source.bit;
+                srcBit = this->source.type == DAX_BOOL ? this->source.bit : 0;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                new_data = (uint8_t *)malloc(this->dest.size);
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
-                for(int n=0; n<this->source.count; n++) {
+                bzero(new_data, this->dest.size);
+                bits = _map_bits(&this->source);
+                for(int n=0; n<bits; n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
                     }
@@ -253,7 +280,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->dest.size);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
-- 
2.43.0


From 5e974e56e5174ce08563c602b13528866aab8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 027/105] fix: mapping between overlapping parts of one tag

---
 src/server/mapping.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 78cb636..9372f64 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -288,11 +288,19 @@ map_check(tag_index idx, int offset, int size) {
                 }
                 free(new_data);
             } else {
-                result = tag_write(-1, this->dest.index, this->dest.byte, srcdb, this->source.size);
+                /* The two parts may overlap if they are in the same tag */
+                new_data = (uint8_t *)malloc(this->source.size);
+                if(new_data == NULL) {
+                    dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map data");
+                    return ERR_ALLOC;
+                }
+                memcpy(new_data, srcdb, this->source.size);
+                result = tag_write(-1, this->dest.index, this->dest.byte, new_data, this->source.size);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     map_del(this->source.index, this->id);
                 }
+                free(new_data);
             }
         }
         this = next;
-- 
2.43.0


From 8798b7cf283c3b7a4970229334ff6f9fde75e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 028/105] fix: mappings respect read only and module tags

---
 src/server/mapping.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 9372f64..eb35cf9 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -72,7 +72,7 @@ map_add(tag_handle src, tag_handle dest)
 {
     _dax_datamap *new_map;
     _dax_datamap *this;
-    int bit, offset;
+    int bit, offset, result;
     uint8_t *mask;
     uint64_t bits;
 
@@ -101,6 +101,13 @@ map_add(tag_handle src, tag_handle dest)
         dax_log(DAX_LOG_ERROR, "Destination tag is read only");
        return ERR_READONLY;
     }
+    if(_db[dest.index].attr & TAG_ATTR_SPECIAL) {
+        result = special_tag_write(-1, dest.index, dest.byte, NULL, dest.size);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Destination tag can not be written");
+            return ERR_READONLY;
+        }
+    }
     /* Bounds check source size */
     if( (uint64_t)src.byte + src.size > tag_get_size(src.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
@@ -251,7 +258,10 @@ map_check(tag_index idx, int offset, int size) {
         if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
-            if(this->mask != NULL) {
+            if(is_tag_readonly(this->dest.index)) {
+                /* The destination has been made read only since the map was made */
+                dax_log(DAX_LOG_DEBUG, "Destination of map %d from tag index = %d is read only", this->id, this->source.index);
+            } else if(this->mask != NULL) {
                 /* Move the bits from their position in the source to
                  * where they should go in the destination */
                 srcByte = 0;
-- 
2.43.0


From fcd25fa91627cb29024a46d40c02848ebc8475fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 029/105] fix: an unknown mapping id stalls the server for a
 second

---
 src/server/message.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 42fa6c1..56594b0 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -816,7 +816,7 @@ msg_map_del(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_DEL, &result, sizeof(int), RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int msg_map_get(dax_message *msg)
@@ -831,6 +831,9 @@ int msg_map_get(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Map Get Message received index=%d, id=%d", id.index, id.id);
 
+    bzero(buff, sizeof(buff));
+    bzero(&src, sizeof(src));
+    bzero(&dest, sizeof(dest));
     result = map_get(&src, &dest, id.index, id.id);
 
     *(dax_dint *)buff = src.index;
@@ -851,7 +854,7 @@ int msg_map_get(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_GET, &buff, sizeof(tag_handle) * 2, RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int
-- 
2.43.0


From 5fc3f0dc2dce208f94b8ef7697565453285e6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 030/105] fix: deleting a group loses other groups, unknown
 group ids and unregistered modules crash the server

---
 src/server/groups.c  |  7 +++++--
 src/server/message.c | 16 ++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..6a4f8ef 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -81,6 +81,7 @@ int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
     int index, datasize, offset;
 
+    if(mod == NULL) return ERR_NOTFOUND; /* Only registered modules can have groups */
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
     if(index < 0) return index; /* Pass the error on up */
@@ -115,12 +116,12 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
 /* Deletes a single tag group from the given module */
 int
 group_del(dax_module *mod, int index) {
+    if(mod == NULL || index < 0 || index >= mod->groups_size) return ERR_NOTFOUND;
     if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
 
     free(mod->tag_groups[index].members);
-    mod->tag_groups[index].flags = 0x00;
+    _init_group(&mod->tag_groups[index]);
     mod->tag_groups[index].count = 0;
-    mod->groups_size--;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
@@ -132,6 +133,7 @@ group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
 
+    if(mod == NULL || index >= mod->groups_size) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
@@ -150,6 +152,7 @@ group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
     int n, offset=0, result;
     tag_group *group;
 
+    if(mod == NULL || index >= mod->groups_size) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     for(n = 0;n<group->count;n++) {
diff --git a/src/server/message.c b/src/server/message.c
index 56594b0..ac39a9a 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -870,10 +870,10 @@ msg_group_add(dax_message *msg) {
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message for %d Returning Error %d", msg->fd, id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Add Message for %d", msg->fd);
     }
     return 0;
 }
@@ -889,10 +889,10 @@ msg_group_del(dax_message *msg) {
     result = group_del(mod, index);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %d Returning Error %d", msg->fd, result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Delete Message for %d", msg->fd);
     }
     return 0;
 }
@@ -909,10 +909,10 @@ msg_group_read(dax_message *msg) {
     result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message for %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Read Message for %d", msg->fd);
     }
     return 0;
 }
@@ -929,10 +929,10 @@ msg_group_write(dax_message *msg) {
     result = group_write(mod, index, (uint8_t *)&msg->data[4]);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message for %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Write Message for %d", msg->fd);
     }
     return 0;
 }
-- 
2.43.0


From fea1b0754642e961501c9575d4dc4e814db357d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 031/105] fix: check the members of a group when it's created
 and the amount of data when it's written

---
 src/server/groups.c  | 25 ++++++++++++++++++++++---
 src/server/message.c | 14 ++++++++++++--
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index 6a4f8ef..52300fe 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -71,6 +71,21 @@ _group_add(dax_module *mod) {
 }
 
 
+/* Returns zero if the handle represents some part of an existing tag */
+static int
+_check_member(tag_handle *h) {
+    dax_tag tag;
+    uint32_t size;
+
+    if(tag_get_index(h->index, &tag)) return ERR_ARG;
+    size = tag_get_size(h->index);
+    if(h->size == 0) return ERR_ARG;
+    if((uint64_t)h->byte + h->size > size) return ERR_2BIG;
+    if(is_tag_queue(h->index) && h->size != size) return ERR_ARG;
+    if(h->type == DAX_BOOL && (h->bit > 7 || (uint64_t)h->bit + h->count > (uint64_t)h->size * 8)) return ERR_ARG;
+    return 0;
+}
+
 /* This adds a tag group to the given module.  It simply determines if there
  * is space on the currently allocated array and if not allocates more space.
  * The handles array is the part of the message buffer that contains the
@@ -79,7 +94,8 @@ _group_add(dax_module *mod) {
  */
 int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
-    int index, datasize, offset;
+    int index, offset, result;
+    uint64_t datasize;
 
     if(mod == NULL) return ERR_NOTFOUND; /* Only registered modules can have groups */
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
@@ -99,15 +115,18 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
         memcpy(&mod->tag_groups[index].members[n].type, &handles[offset+17], 4);
 
         datasize += mod->tag_groups[index].members[n].size;
-        if(datasize > MSG_TAG_GROUP_DATA_SIZE) {
+        result = _check_member(&mod->tag_groups[index].members[n]);
+        if(result == 0 && datasize > MSG_TAG_GROUP_DATA_SIZE) result = ERR_2BIG;
+        if(result) {
             free(mod->tag_groups[index].members);
             mod->tag_groups[index].members = NULL;
-            return ERR_2BIG;
+            return result;
         }
     }
 
     mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
     mod->tag_groups[index].count = count;
+    mod->tag_groups[index].size = datasize;
     dax_log(DAX_LOG_MSG, "Group Add message from %s", mod->name);
     return index;
 }
diff --git a/src/server/message.c b/src/server/message.c
index ac39a9a..1fd9f10 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -866,7 +866,11 @@ msg_group_add(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     count = msg->data[0];
     //options = msg->data[1]; /* Might use this in the future to indicate maskable groups */
-    id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    if(msg->size < 2 + 21 * (uint32_t)count) {
+        id = ERR_MSG_BAD;
+    } else {
+        id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    }
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
@@ -926,7 +930,13 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    if(mod == NULL || index >= mod->groups_size) {
+        result = ERR_NOTFOUND;
+    } else if(msg->size - 4 < mod->tag_groups[index].size) {
+        result = ERR_MSG_BAD; /* There is not enough data for all of the members */
+    } else {
+        result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    }
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
         dax_log(DAX_LOG_MSGERR, "Group Write Message for %d Returning Error %d", msg->fd, result);
-- 
2.43.0


From 5798149f66b199ba7ce65c2f950799e4618cc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 032/105] fix: group writes respect read only tags,
 neighbouring bits and mappings

---
 src/server/groups.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index 52300fe..98bf04d 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -157,15 +157,37 @@ group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        result = tag_read(mod->fd, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
         offset += group->members[n].size;
     }
     return offset;
 }
 
-/* loop through the array of members and populate buff with
- * the data.*/
+/* Write the data to the member like any other write from the module would.  Only
+ * the bits that belong to the member are changed */
+static int
+_write_member(dax_module *mod, tag_handle *h, uint8_t *data) {
+    int result;
+    uint32_t n;
+    uint8_t mask[h->size];
+
+    if(is_tag_readonly(h->index) && ! is_tag_owned(mod->fd, h->index)) return ERR_READONLY;
+    if(h->type == DAX_BOOL && ! is_tag_virtual(h->index)) {
+        bzero(mask, h->size);
+        for(n = h->bit; n < h->bit + h->count; n++) {
+            mask[n/8] |= (0x01 << (n%8));
+        }
+        result = tag_mask_write(mod->fd, h->index, h->byte, data, mask, h->size);
+    } else {
+        result = tag_write(mod->fd, h->index, h->byte, data, h->size);
+    }
+    if(result) return result;
+    map_check(h->index, h->byte, h->size);
+    return 0;
+}
+
+/* loop through the array of members and write the data in buff to the tags */
 int
 group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
     int n, offset=0, result;
@@ -175,7 +197,7 @@ group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
     group = &mod->tag_groups[index];
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        result = _write_member(mod, &group->members[n], &buff[offset]);
         if(result) return result;
         offset += group->members[n].size;
     }
-- 
2.43.0


From a604ceaf2c2bbcccd8c765fd92bd1b92ef3e2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 033/105] fix: requests that arrive in pieces or several at a
 time are all answered, bad sizes end the connection

---
 src/server/buffer.c  | 45 ++++++++++++++++++++++++++------------------
 src/server/message.c |  3 +--
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..0500476 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -124,9 +124,13 @@ find_buff_slot(int fd)
         result = _new_buffnode();
         if(result != NULL) {
             node = _buffer;
-            /* double linked list would eliminate this ??? */
-            while(node->next != NULL) node = node->next;
-            node->next = result;
+            if(node == NULL) {
+                _buffer = result;
+            } else {
+                /* double linked list would eliminate this ??? */
+                while(node->next != NULL) node = node->next;
+                node->next = result;
+            }
         }
     }
     if(result) result->fd = fd;
@@ -137,7 +141,7 @@ int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
 
     node = find_buff_slot(fd);
@@ -152,8 +156,9 @@ buff_read(int fd)
     //--result = xread(fd, &node->buffer[node->index], size);
 
     if(result < 0) {
+        if(errno == EINTR) return 0;
         dax_log(DAX_LOG_ERROR, "Unable to read data from socket %d", fd);
-        return ERR_MSG_RECV;
+        return ERR_NO_SOCKET;
     } if(result == 0) { /* EOF means the other guy is closed */
         dax_log(DAX_LOG_COMM, "Received EOF on socket %d", fd);
         return ERR_NO_SOCKET;
@@ -164,14 +169,20 @@ buff_read(int fd)
     /* Check the size and let the caller know how it turns out. */
     /* First four bytes of a message should always be the size of
        the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+    while(node->index >= MSG_HDR_SIZE) {
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            /* There is no way to find the next message */
+            dax_log(DAX_LOG_ERROR, "Bad message size %u received on socket %d", size, fd);
+            return ERR_NO_SOCKET;
+        }
+        if(node->index < size) return 0; /* Wait for the rest of it */
+        msg_dispatcher(fd, node->buffer);
+        /* Whatever is left is the start of the next message */
+        node->index -= size;
+        memmove(node->buffer, &node->buffer[size], node->index);
     }
+    if(node->index == 0) buff_free(fd);
     return 0;
 }
 
@@ -195,8 +206,8 @@ buff_free(int fd)
     }
 }
 
-/* This function essentially marks all of the buffers as free.  If there are
- * more than min_buffers it'll free() the last one.  Kindof a poor boy
+/* If there are more than min_buffers in the list and the last one doesn't
+ * hold part of a message it'll free() the last one.  Kindof a poor boy
  * garbage collection. */
 void
 buff_freeall(void)
@@ -209,12 +220,10 @@ buff_freeall(void)
     last = NULL;
 
     while(node != NULL) {
-        node->fd = 0;
-        node->index = 0;
         n++;
-        /* If we are the last node, there are more than min_buffers nodes in the list
+        /* If we are the last node and unused, there are more than min_buffers nodes in the list
            and last is not NULL then free the last node */
-        if(node->next == NULL && n > opt_min_buffers() && last != NULL) {
+        if(node->next == NULL && node->fd == 0 && n > opt_min_buffers() && last != NULL) {
             free(node);
             node = NULL;
             last->next = NULL;
diff --git a/src/server/message.c b/src/server/message.c
index 1fd9f10..17a0a6c 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -309,7 +309,7 @@ msg_receive(void)
             return ERR_MSG_RECV;
         }
     } else if(result == 0) { /* Timeout */
-        buff_freeall(); /* this erases all of the _buffer nodes */
+        buff_freeall(); /* this frees the _buffer nodes that we no longer need */
         return 0;
     } else {
         for(n = 0; n <= _maxfd; n++) {
@@ -358,7 +358,6 @@ msg_dispatcher(int fd, unsigned char *buff)
     if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
-    buff_free(fd);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
-- 
2.43.0


From 820cb24b3da316a13e037a45895162ecd3cdf843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 034/105] fix: every request is answered, short ones and bad
 sizes no longer read or write outside of the message

---
 src/libcommon.h      |  2 +-
 src/server/message.c | 52 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/libcommon.h b/src/libcommon.h
index a812c28..a7c698f 100644
--- a/src/libcommon.h
+++ b/src/libcommon.h
@@ -118,7 +118,7 @@ struct dax_message {
     uint32_t size;     /* size of the data sent */
     uint32_t msg_type;  /* Which function to call */
     /* Main data payload */
-    char data[MSG_DATA_SIZE];
+    char data[MSG_DATA_SIZE + 1]; /* Room for a NUL so that strings are always terminated */
     /* The following stuff isn't in the socket message */
     int fd;             /* We'll use the fd to identify the module*/
 };
diff --git a/src/server/message.c b/src/server/message.c
index 17a0a6c..78c91e5 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -57,6 +57,16 @@ static int _maxfd;
 /* Index 0 is not used. */
 int (*cmd_arr[NUM_COMMANDS+1])(dax_message *) = {NULL};
 
+/* The smallest payload that each of the message commands can have */
+static const uint32_t cmd_min_size[NUM_COMMANDS+1] = {
+    [MSG_TAG_ADD] = 12,   [MSG_TAG_DEL] = 4,    [MSG_TAG_GET] = 1,    [MSG_TAG_READ] = 12,
+    [MSG_TAG_WRITE] = 8,  [MSG_TAG_MWRITE] = 8, [MSG_EVNT_ADD] = 25,  [MSG_EVNT_DEL] = 8,
+    [MSG_EVNT_OPT] = 12,  [MSG_CDT_GET] = 1,    [MSG_MAP_ADD] = 42,   [MSG_MAP_DEL] = 8,
+    [MSG_MAP_GET] = 8,    [MSG_GRP_ADD] = 2,    [MSG_GRP_DEL] = 4,    [MSG_GRP_READ] = 4,
+    [MSG_GRP_WRITE] = 4,  [MSG_ATOMIC_OP] = 21, [MSG_ADD_OVRD] = 12,  [MSG_DEL_OVRD] = 8,
+    [MSG_GET_OVRD] = 12,  [MSG_SET_OVRD] = 5
+};
+
 /* Macro to check whether or not the command 'x' is valid */
 #define CHECK_COMMAND(x) (((x) <= 0 || (x) > NUM_COMMANDS) ? 1 : 0)
 
@@ -347,6 +357,7 @@ int
 msg_dispatcher(int fd, unsigned char *buff)
 {
     dax_message message;
+    int result;
 
     /* The first four bytes are the size and the size is always
      * sent in network order */
@@ -355,8 +366,13 @@ msg_dispatcher(int fd, unsigned char *buff)
      * byte order. */
     message.msg_type = ntohl(*(uint32_t *)&buff[4]);
 
-    if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
     message.fd = fd;
+    if(CHECK_COMMAND(message.msg_type) || message.size < cmd_min_size[message.msg_type]) {
+        result = ERR_MSG_BAD;
+        _message_send(fd, message.msg_type & 0xFFFF, &result, sizeof(result), ERROR);
+        return result;
+    }
+    bzero(message.data, sizeof(message.data));
     memcpy(message.data, &buff[8], message.size);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
@@ -382,7 +398,10 @@ msg_mod_register(dax_message *msg)
     dax_module *mod;
     dax_time starttime;
 
-    if(msg->size > 0) {
+    if(msg->size > 0 && msg->size < 2 * sizeof(uint32_t)) {
+        result = ERR_MSG_BAD;
+        _message_send(msg->fd, MSG_MOD_REG, &result, sizeof(result) , ERROR);
+    } else if(msg->size > 0) {
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
         parint = ntohl(*((uint32_t *)&msg->data[0]));
@@ -492,15 +511,13 @@ msg_tag_get(dax_message *msg)
         result = tag_get_index(index, &tag); /* get the tag */
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for index 0x%X", msg->fd, index);
     } else { /* A name was passed */
-        ((char *)msg->data)[DAX_TAGNAME_SIZE + 1] = 0x00; /* Add a NULL to avoid trouble */
         /* Get the tag by it's name */
         result = tag_get_name((char *)&msg->data[1], &tag);
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for name '%s'", msg->fd, (char *)msg->data);
     }
-    size = strlen(tag.name) + 15;
-    buff = alloca(size);
-    if(buff == NULL) result = ERR_ALLOC;
     if(!result) {
+        size = strlen(tag.name) + 15;
+        buff = alloca(size);
         *((uint32_t *)&buff[0]) = tag.idx;
         *((uint32_t *)&buff[4]) = tag.type;
         *((uint32_t *)&buff[8]) = tag.count;
@@ -519,7 +536,10 @@ msg_tag_get(dax_message *msg)
 int
 msg_tag_list(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
     dax_log(DAX_LOG_MSG, "Tag List Message from %d", msg->fd);
+    _message_send(msg->fd, MSG_TAG_LIST, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -541,7 +561,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size < 0 || size > MSG_DATA_SIZE) {
+        result = ERR_2BIG;
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
@@ -671,6 +695,9 @@ msg_evnt_del(dax_message *msg)
 int
 msg_evnt_get(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
+    _message_send(msg->fd, MSG_EVNT_GET, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -725,7 +752,7 @@ msg_cdt_get(dax_message *msg)
     int result, size;
     unsigned char subcommand;
     tag_type cdt_type;
-    char type[DAX_TAGNAME_SIZE + 1];
+    char *type;
     char *str = NULL, *data = NULL;
 
     result = 0;  /* result will stay zero if we don't have any errors */
@@ -734,8 +761,7 @@ msg_cdt_get(dax_message *msg)
         cdt_type = *((tag_type *)&msg->data[1]);
         dax_log(DAX_LOG_MSG, "CDT Get for type 0x%X Message from Module %d", cdt_type, msg->fd);
     } else {
-        strncpy(type, &msg->data[1], DAX_TAGNAME_SIZE);
-        type[DAX_TAGNAME_SIZE] = '\0';  /* Just to be sure */
+        type = &msg->data[1];
         cdt_type = cdt_get_type(type);
         dax_log(DAX_LOG_MSG, "CDT Get for type %s Message from Module %d", type, msg->fd);
     }
@@ -1038,7 +1064,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > MSG_DATA_SIZE / 2) {
+        result = ERR_2BIG;
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
-- 
2.43.0


From 0d5da11e09818a31ecbb62c127179b2fb441ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 035/105] fix: the owner of a read only tag may use masked
 writes

---
 src/server/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index 78c91e5..cfb8d12 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -621,7 +621,7 @@ msg_tag_mask_write(dax_message *msg)
     mask = &msg->data[8 + size];
 
     dax_log(DAX_LOG_MSG, "Tag Masked Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx)) {
+    if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
         result =  ERR_READONLY;
     } else {
         result = tag_mask_write(msg->fd, idx, offset, data, mask, size);
-- 
2.43.0


From 5dfd11b2aabf198965795c5fbcf4157ce8a4b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 036/105] fix: a client that does not read its socket no longer
 blocks the server forever

---
 src/server/message.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/message.c b/src/server/message.c
index cfb8d12..f41a24d 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -125,6 +125,9 @@ _message_send(int fd, int command, void *payload, size_t size, int response)
     result = xwrite(fd, buff, size + MSG_HDR_SIZE);
     if(result < 0) {
         dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
+        /* Part of the message may be gone already so there is no way to recover.
+         * This will end up as an EOF in msg_receive() */
+        shutdown(fd, SHUT_RDWR);
         return ERR_MSG_SEND;
     }
     return 0;
@@ -329,8 +332,15 @@ msg_receive(void)
                     if(fd < 0) {
                         /* TODO: Need to handle these errors */
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
+                    } else if(fd >= FD_SETSIZE) {
+                        dax_log(DAX_LOG_ERROR, "Too many connections");
+                        close(fd);
                     } else {
                         dax_log(DAX_LOG_COMM, "Accepted socket on fd %d", n);
+                        /* A module that doesn't read can't be allowed to stop the server */
+                        tm.tv_sec = 1;
+                        tm.tv_usec = 0;
+                        setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm));
                         msg_add_fd(fd);
                     }
                 } else {
-- 
2.43.0


From 5cfdef6e13e793209f7981d3c87fc267b80f4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 037/105] fix: end the connection when an event can't be sent
 completely

---
 src/server/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/events.c b/src/server/events.c
index 3e07043..04fe0ed 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -18,6 +18,7 @@
  * This is the source file for the event notification handling routines
  */
 
+#include <sys/socket.h>
 #include <common.h>
 #include "tagbase.h"
 #include "func.h"
@@ -56,6 +57,7 @@ _send_event(tag_index idx, _dax_event *event)
     result = xwrite(event->notify->fd, buff, msgsize);
     if(result < 0) {
         dax_log(DAX_LOG_ERROR, "_send_event: %s", strerror(errno));
+        shutdown(event->notify->fd, SHUT_RDWR); /* The message can't be completed */
         return ERR_MSG_SEND;
     }
     return 0;
-- 
2.43.0


From 5bab6fcaf01f330d6bfe0520887f731ef05c616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 038/105] fix: modules without a module tag do not damage other
 tags, module tag names are unique

---
 src/server/module.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..0f3df92 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -115,6 +115,7 @@ module_add(char *name, unsigned int flags)
         new->flags = flags;
 
         new->fd = 0;
+        new->tagindex = 0; /* Zero until we have a module tag */
         new->event_count = 0;
         new->tag_groups = NULL;
         new->groups_size = 0;
@@ -230,7 +231,7 @@ module_register(char *name, uint32_t timeout, int fd)
 {
     dax_module *mod, *test;
     char tagname[DAX_TAGNAME_SIZE + 1];
-    int result, x;
+    int result, x, len;
     dax_time starttime;
 
     bzero(tagname, DAX_TAGNAME_SIZE + 1);
@@ -254,14 +255,14 @@ module_register(char *name, uint32_t timeout, int fd)
             warning generated */
             strcpy(tagname, "_m");
             strncat(tagname, name, DAX_TAGNAME_SIZE - 2);
-            result = tag_get_name(tagname, NULL);
-            if(result==0) {
+            len = strlen(tagname);
+            while(tag_get_name(tagname, NULL) == 0) {
                 if(_mod_uuid < 1000) {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -3);
+                    x = MIN(len, DAX_TAGNAME_SIZE -3);
                     sprintf(&tagname[x], "%03d", _mod_uuid++);
                 } else {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -5);
-                    sprintf(&tagname[x], "%05d", _mod_uuid++);
+                    x = MIN(len, DAX_TAGNAME_SIZE -5);
+                    sprintf(&tagname[x], "%05d", _mod_uuid++ % 100000);
                 }
                 dax_log(DAX_LOG_WARN, "Duplicate module name.  Module tag being modified - %s", tagname);
             }
@@ -270,14 +271,14 @@ module_register(char *name, uint32_t timeout, int fd)
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
             } else {
                 mod->tagindex = result;
+                starttime = xtime();
+                tag_write(-1, result, 0, &starttime, sizeof(dax_time));
+                tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
+                /* We wait until after we have written what we want to set the special flag.
+                From now on we'll let the special functions handle the tag */
+                tag_set_attribute(result, TAG_ATTR_SPECIAL);
+                tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
             }
-            starttime = xtime();
-            tag_write(-1, result, 0, &starttime, sizeof(dax_time));
-            tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
-            /* We wait until after we have written what we want to set the special flag.
-            From now on we'll let the special functions handle the tag */
-            tag_set_attribute(result, TAG_ATTR_SPECIAL);
-            tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
         }
     } else {
         dax_log(DAX_LOG_ERROR, "Major problem registering module - %s:%d", name, fd);
@@ -307,7 +308,7 @@ module_unregister(int fd)
                 tag_del(n);
             }
         }
-        tag_del(mod->tagindex);
+        if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
-- 
2.43.0


From a2cc3c5db5f60d73598587a38178fb21bfdaff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 039/105] fix: tags owned by a connection that never registered
 go away with it

---
 src/server/module.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index 0f3df92..402a383 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -298,16 +298,18 @@ module_unregister(int fd)
 
     mod = _get_module_fd(fd);
     if(mod != NULL) {
-        dax_log(DAX_LOG_MAJOR,"Removing module '%s' at file descriptor %d", mod->name, fd);
         events_cleanup(mod);
-        groups_cleanup(mod);
-        /* This deletes any tag that is owned by this module. */
-        tag_count = get_tagindex();
-        for(tag_index n=0;n<tag_count;n++) {
-            if(is_tag_owned(fd, n)) {
-                tag_del(n);
-            }
+    }
+    /* This deletes any tag that is owned by this connection, registered or not */
+    tag_count = get_tagindex();
+    for(tag_index n=0;n<tag_count;n++) {
+        if(is_tag_owned(fd, n)) {
+            tag_del(n);
         }
+    }
+    if(mod != NULL) {
+        dax_log(DAX_LOG_MAJOR,"Removing module '%s' at file descriptor %d", mod->name, fd);
+        groups_cleanup(mod);
         if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
-- 
2.43.0


From 5ff4f37aa48e04916e1a7b981ec0dabe8af9f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 040/105] fix: atomic operations use the right data, bits and
 range at any offset

---
 src/server/atomic.c | 72 ++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..f31d494 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -38,6 +38,13 @@ _left_shift(dax_byte *dest, dax_byte *src, size_t size, uint8_t bit) {
 }
 
 
+/* A mask of the bits above our range in the last byte of a BOOL handle */
+static dax_byte
+_high_mask(tag_handle h) {
+    int bits = (h.bit + h.count%8)%8;
+    return bits ? 0xFF << bits : 0x00;
+}
+
 static int
 _atomic_inc(tag_handle h, void *data) {
     /* We only operate on one member at a time */
@@ -59,7 +66,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -70,6 +76,7 @@ _atomic_inc(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] += *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -103,7 +110,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -114,6 +120,7 @@ _atomic_dec(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -166,7 +173,7 @@ _atomic_or(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -177,7 +184,7 @@ _atomic_or(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -194,7 +201,7 @@ _atomic_and(tag_handle h, void *data) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] |= hmask;
@@ -205,7 +212,7 @@ _atomic_and(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -224,30 +231,23 @@ _atomic_nor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
         temp[0]      &= ~lmask;
 
         /* To do the NOR with our mask we first apply the mask just like
-           with the OR.  Then XOR the middle bytes with 0xFF to toggle them
-           which makes it a NOR and then we do the same thing to the first
-           and last bytes except with the compliment of the mask.  This
-           keeps the bits that are outside of our range and then toggles
-           the ones that are inside the range. */
+           with the OR and then toggle the bits that are inside of our
+           range which makes it a NOR. */
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        return _atomic_not(h, data); /* Toggle only the bits in our range */
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -266,7 +266,7 @@ _atomic_nand(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] |= hmask;
@@ -275,14 +275,10 @@ _atomic_nand(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        return _atomic_not(h, data); /* Toggle only the bits in our range */
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -300,7 +296,7 @@ _atomic_xor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -311,7 +307,7 @@ _atomic_xor(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -329,7 +325,7 @@ _atomic_xnor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -338,15 +334,11 @@ _atomic_xnor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        return _atomic_not(h, data); /* Toggle only the bits in our range */
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -364,9 +356,8 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(h.index < 0 || h.index >= get_tagindex()) {
         return ERR_ARG;
     }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
+    /* Bounds Check Size */
+    if((uint64_t)h.byte + h.size > tag_get_size(h.index)) {
         return ERR_2BIG;
     }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
@@ -379,6 +370,13 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(_db[h.index].data == NULL) {
         return ERR_DELETED;
     }
+    /* The size has to be what the type and count require */
+    if(h.count == 0 || h.bit > 7) return ERR_ARG;
+    if(h.type == DAX_BOOL) {
+        if(((uint64_t)h.bit + h.count - 1) / 8 + 1 != h.size) return ERR_ARG;
+    } else if(type_size(h.type) <= 0 || (uint64_t)type_size(h.type) * h.count != h.size) {
+        return ERR_ARG;
+    }
     switch(op) {
         case ATOMIC_OP_INC:
             if(h.type == DAX_BOOL) return ERR_BADTYPE;
-- 
2.43.0


From 4559987e945eab791d5bf952e858e70fbe0eccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 041/105] fix: retained tags keep their value, size and types
 over any number of restarts and stay deleted

---
 src/server/retain.c  | 51 +++++++++++++++++++++++++++-----------------
 src/server/tagbase.c | 10 +++++++--
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 9175c1d..b199900 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -79,7 +79,7 @@ _create_tags(void) {
 
 
     // CREATE ALL THE DATATYPES FIRST
-    result = sqlite3_prepare_v2(_sql, "SELECT name,type,count,data FROM tags;", -1, &stmt, NULL);
+    result = sqlite3_prepare_v2(_sql, "SELECT name,type,count,data,id FROM tags;", -1, &stmt, NULL);
     if(result != SQLITE_OK) {
         /* Most errors are because we have a new file */
         dax_log(DAX_LOG_ERROR, "Unable to compile SQL statement to create tags");
@@ -99,6 +99,9 @@ _create_tags(void) {
             dax_log(DAX_LOG_ERROR, "Retained tag not created properly");
         } else {
             memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            /* It's already in the database so this is all it takes to retain it again */
+            _db[tag_index].ret_file_pointer = sqlite3_column_int(stmt, 4);
+            _db[tag_index].attr |= TAG_ATTR_RETAIN;
         }
     }
     if(result != SQLITE_DONE) {
@@ -136,7 +139,6 @@ _create_database_tables(void) {
 static int
 _init(char *filename) {
     int result;
-    char *errmsg;
 
     dax_log(DAX_LOG_DEBUG, "Setting up SQLite Tag Retention - %s", filename);
     result = sqlite3_open(filename, &_sql);
@@ -150,16 +152,8 @@ _init(char *filename) {
        These may fail if the file doesn't exist but that's okay */
     result = _create_types(); /* Creates the types that are stored in the data base */
     result = _create_tags(); /* Creates the tags that are in the data base */
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS tags;", NULL, 0, &errmsg);
-    if(result != SQLITE_OK) {
-        DF("unable to drop table 'tags' - %s", errmsg);
-    }
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS types;", NULL, 0, &errmsg);
-    if(result != SQLITE_OK) {
-        DF("unable to drop table 'types' - %s", errmsg);
-    }
     result = _create_database_tables();
-    result = sqlite3_prepare_v2(_sql, "UPDATE tags SET data = ?1 WHERE id = ?2;", -1, &update_stmt, NULL);
+    result = sqlite3_prepare_v2(_sql, "UPDATE tags SET data = ?1, count = ?3 WHERE id = ?2;", -1, &update_stmt, NULL);
     if(result) {
         DF("problem with prepare %d", result);
     }
@@ -180,15 +174,14 @@ _add_type(tag_type type) {
     cdt_member *next;
     char *type_str;
     sqlite3_stmt *stmt;
-    int index;
     int result;
     char query[256];
 
     dt = cdt_get_entry(type);
-    index = CDT_TO_INDEX(type);
 
     if(dt == NULL) {
         dax_log(DAX_LOG_ERROR, "Bad type passed");
+        return ERR_ARG;
     }
     /* Loop through all the members and recursively add any
        compound data types that we find */
@@ -200,23 +193,27 @@ _add_type(tag_type type) {
         next = next->next;
     }
     /* Turn the type into a string that we can use to reload it later */
-    serialize_datatype(type, &type_str);
     if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = serialize_datatype(type, &type_str);
+    if(result < 0) return result;
 
-    snprintf(query, 256, "INSERT INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
+    /* Members are added before the types that use them so they'll be created again in that order */
+    snprintf(query, 256, "INSERT OR IGNORE INTO main.types(name,definition) VALUES ('%s',?);", dt->name);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
     if(result != SQLITE_OK) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
+        free(type_str);
         return result;
     }
     sqlite3_bind_text(stmt, 1, type_str, -1, NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    free(type_str);
     if(result != SQLITE_DONE) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
 
     return 0;
 }
@@ -249,17 +246,28 @@ ret_add_tag(int index) {
         _db[index].ret_file_pointer = id; /* We'll use this on tag writes */
     } else {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
+        sqlite3_finalize(stmt);
         return -1;
     }
     sqlite3_finalize(stmt);
-    return 0;
+    /* Store the data that the tag has right now */
+    return ret_tag_write(index);
 }
 
 int
 ret_del_tag(int index) {
 
-    dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
+    int result;
+    char query[256];
 
+    dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    snprintf(query, 256, "DELETE FROM main.tags WHERE id = %d;", (int)_db[index].ret_file_pointer);
+    result = sqlite3_exec(_sql, query, NULL, 0, NULL);
+    if(result != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Unable to delete tag from retention");
+        return result;
+    }
     return 0;
 }
 
@@ -267,7 +275,8 @@ int
 ret_tag_write(int index) {
     int result;
 
-    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, type_size(_db[index].type) * _db[index].count, NULL);
+    if(update_stmt == NULL) return ERR_FILE_CLOSED;
+    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, tag_get_size(index), NULL);
     if(result) {
         DF("Problem with bind_blob %d", result);
     }
@@ -275,6 +284,10 @@ ret_tag_write(int index) {
     if(result) {
         DF("Problem with bind_int %d", result);
     }
+    result = sqlite3_bind_int(update_stmt, 3, _db[index].count);
+    if(result) {
+        DF("Problem with bind_int %d", result);
+    }
     result = sqlite3_step(update_stmt);
     result = sqlite3_reset(update_stmt);
     return 0;
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 5f2e399..3eb4ba1 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -466,8 +466,11 @@ _set_attribute(tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
         /* TODO: add tag retention */;
-        ret_add_tag(idx);
-        _db[idx].attr |= TAG_ATTR_RETAIN;
+        /* The data of virtual tags and queues is not ours to store */
+        if(! (_db[idx].attr & (TAG_ATTR_RETAIN | TAG_ATTR_VIRTUAL))) {
+            ret_add_tag(idx);
+            _db[idx].attr |= TAG_ATTR_RETAIN;
+        }
     } else {
         if(attr & TAG_ATTR_OWNED && attr & TAG_ATTR_READONLY) {
             _db[idx].attr |= (TAG_ATTR_OWNED | TAG_ATTR_READONLY);
@@ -583,6 +586,9 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 _db[n].count = count;
                 if(attr & TAG_ATTR_OWNED) _db[n].fd = fd;
                 _set_attribute(n, attr);
+                if(_db[n].attr & TAG_ATTR_RETAIN) {
+                    ret_tag_write(n);
+                }
                 /* Since it changed we update this tag so the write event will trigger */
                 _write_tag_desc(INDEX_ADDED_TAG, n);
                 return n;
-- 
2.43.0


From d8f4f380a400db5bfef4e71e8b2f072140576573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 042/105] fix: a crash while an existing tag becomes retained
 no longer loses its value

---
 src/server/retain.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index b199900..647643f 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -231,7 +231,7 @@ ret_add_tag(int index) {
         _add_type(_db[index].type);
     }
     if(_sql == NULL) return ERR_FILE_CLOSED;
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,NULL);",
+    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,?);",
                          _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
@@ -239,6 +239,8 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
         return result;
     }
+    /* Store the data that the tag has right now together with the tag */
+    sqlite3_bind_blob(stmt, 1, _db[index].data, tag_get_size(index), NULL);
     result = sqlite3_step(stmt);
     if(result == SQLITE_DONE) {
         /* This might be a race condition if we ever multi thread the server */
@@ -250,8 +252,7 @@ ret_add_tag(int index) {
         return -1;
     }
     sqlite3_finalize(stmt);
-    /* Store the data that the tag has right now */
-    return ret_tag_write(index);
+    return 0;
 }
 
 int
-- 
2.43.0


From 456413ac3ecac49c5136c36e9c162cdca8260959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:35 +0000
Subject: [PATCH 043/105] fix: the answer to a registration contains a byte of
 uninitialized memory

---
 src/server/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/message.c b/src/server/message.c
index f41a24d..3a4055f 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -434,6 +434,7 @@ msg_mod_register(dax_message *msg)
                 *((uint64_t *)&buff[10]) = REG_TEST_LINT;   /* 64 bit integer test data */
                 *((float *)&buff[18])    = REG_TEST_REAL;   /* 32 bit float test data */
                 *((double *)&buff[22])   = REG_TEST_LREAL;  /* 64 bit float test data */
+                buff[30] = 0;
                 _message_send(msg->fd, MSG_MOD_REG, buff, 30 + 1, RESPONSE);
                 dax_log(DAX_LOG_MSG, "Register Module message received for %s fd = %d", &msg->data[8], msg->fd);
             }
-- 
2.43.0


From b5198ac95429274d177adfdf9867b9cd26705aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:38 +0000
Subject: [PATCH 044/105] fix: library functions deadlock when they need a data
 type that is not cached

---
 src/lib/libinit.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 58c05c4..3aa726d 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -39,6 +39,8 @@ dax_state *
 dax_init(const char *name)
 {
     dax_state *ds;
+    pthread_mutexattr_t lock_attr;
+
     ds = malloc(sizeof(dax_state));
     if(ds == NULL) return NULL;
 
@@ -77,7 +79,12 @@ dax_init(const char *name)
     ds->emsg_queue_count = 0;    /* number of entries in the event message queue */
     ds->disconnect_callback = NULL;
     /* Initialize locks and condition variables */
-    pthread_mutex_init(&ds->lock, NULL);
+    /* Functions that hold this lock may have to ask the server for a data
+     * type, which takes the lock as well */
+    pthread_mutexattr_init(&lock_attr);
+    pthread_mutexattr_settype(&lock_attr, PTHREAD_MUTEX_RECURSIVE);
+    pthread_mutex_init(&ds->lock, &lock_attr);
+    pthread_mutexattr_destroy(&lock_attr);
     pthread_mutex_init(&ds->event_lock, NULL);
     pthread_mutex_init(&ds->msg_lock, NULL);
     pthread_cond_init(&ds->event_cond, NULL);
-- 
2.43.0


From 28dde145c6e97068f5d312755b991e65feb2e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:38 +0000
Subject: [PATCH 045/105] fix: threads sharing a connection corrupt the type
 cache and the tag cache

---
 src/lib/libcdt.c | 78 +++++++++++++++++++++++++++++-------------------
 src/lib/libmsg.c | 17 ++++++-----
 2 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c65251c..49cbae3 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -118,7 +118,9 @@ dax_get_typesize(dax_state *ds, tag_type type)
         return ERR_ARG;
 
     if(IS_CUSTOM(type)) {
+        pthread_mutex_lock(&ds->lock);
         this = ds->datatypes[CDT_TO_INDEX(type)].members;
+        pthread_mutex_unlock(&ds->lock);
         while (this != NULL) {
             if(this->type == DAX_BOOL) {
                 pos += this->count; /* BOOLs are easy just add the number of bits */
@@ -153,27 +155,31 @@ dax_get_typesize(dax_state *ds, tag_type type)
 
 /* Retrieves a pointer to the datatype array element identified by type
  * returns NULL on failure and if the error pointer is not NULL the error
- * code will be placed there. */
+ * code will be placed there.  The array may move when a data type is added
+ * so the pointer is only good while ds->lock is held. */
 datatype *
 get_cdt_pointer(dax_state *ds, tag_type type, int *error)
 {
     int index;
     int result;
+    datatype *dt = NULL;
 
     if(error != NULL) *error = 0;
     if(IS_CUSTOM(type)) {
         index = CDT_TO_INDEX(type);
+        pthread_mutex_lock(&ds->lock);
         if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
-            return &ds->datatypes[index];
+            dt = &ds->datatypes[index];
         } else {
             result = dax_cdt_get(ds, type, NULL);
             if(result == 0) {
-                return &ds->datatypes[index];
+                dt = &ds->datatypes[index];
             } else {
                 if(error != NULL) *error = result;
             }
-            return NULL;
         }
+        pthread_mutex_unlock(&ds->lock);
+        return dt;
     } else {
         return NULL;
     }
@@ -364,6 +370,7 @@ tag_type
 dax_string_to_type(dax_state *ds, char *type)
 {
     int result, n;
+    tag_type found = 0;
 
     if(type == NULL) return 0;
     if(!strcasecmp(type, "BOOL"))  return DAX_BOOL;
@@ -383,28 +390,30 @@ dax_string_to_type(dax_state *ds, char *type)
     if(!strcasecmp(type, "ULINT")) return DAX_ULINT;
     if(!strcasecmp(type, "LREAL")) return DAX_LREAL;
 
+    pthread_mutex_lock(&ds->lock);
     /* See if we already have it in the cache */
-    for(n = 0; n<ds->datatype_size; n++) {
+    for(n = 0; n<ds->datatype_size && !found; n++) {
         if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-            return CDT_TO_TYPE(n);
+            found = CDT_TO_TYPE(n);
         }
     }
 
-    /* If not go to the server for it */
-    result = dax_cdt_get(ds, 0, type);
+    if(!found) {
+        /* If not go to the server for it */
+        result = dax_cdt_get(ds, 0, type);
 
-    if(result) {
-        return 0;
-    } else {
-        /* Search Again - It'll be there this time */
-        for(n = 0; n < ds->datatype_size; n++) {
-            if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-                return CDT_TO_TYPE(n);
+        if(result == 0) {
+            /* Search Again - It'll be there this time */
+            for(n = 0; n < ds->datatype_size && !found; n++) {
+                if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
+                    found = CDT_TO_TYPE(n);
+                }
             }
         }
     }
-    /* We should have found it by now.  If not return error */
-    return 0;
+    pthread_mutex_unlock(&ds->lock);
+    /* We should have found it by now.  If not this is zero for an error */
+    return found;
 }
 
 /*!
@@ -418,19 +427,15 @@ dax_string_to_type(dax_state *ds, char *type)
 const char *
 dax_type_to_string(dax_state *ds, tag_type type)
 {
-    int index;
+    datatype *dt;
+    const char *name = NULL;
 
-    /* TODO: Could replace this with a call to get_cdt_pointer() */
     if(IS_CUSTOM(type)) {
-        index = CDT_TO_INDEX(type);
-        if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
-            return ds->datatypes[index].name;
-        } else {
-            if(!dax_cdt_get(ds, type, NULL)) {
-                return ds->datatypes[index].name;
-            }
-            return NULL;
-        }
+        pthread_mutex_lock(&ds->lock);
+        dt = get_cdt_pointer(ds, type, NULL);
+        if(dt != NULL) name = dt->name;
+        pthread_mutex_unlock(&ds->lock);
+        return name;
     } else {
         switch (type) {
             case DAX_BOOL:
@@ -570,7 +575,9 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         return ERR_NOTFOUND; /* This is a serious problem here */
     }
 
+    pthread_mutex_lock(&ds->lock);
     this = ds->datatypes[CDT_TO_INDEX(lasttype)].members;
+    pthread_mutex_unlock(&ds->lock);
 
     while(this != NULL) {
         /* Start by adding all the bytes of the members before the
@@ -788,25 +795,32 @@ dax_cdt_iter(dax_state *ds, tag_type type, void *udata, void (*callback)(cdt_ite
     int index = 0;
 
     if(type == 0) { /* iterate through the custom types */
+        pthread_mutex_lock(&ds->lock);
         dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
+        iter.name = dt ? dt->name : NULL;
+        pthread_mutex_unlock(&ds->lock);
 
         while(result == 0 || result == ERR_INUSE) {
             if(result == 0) {
-                iter.name = dt->name;
                 iter.type = CDT_TO_TYPE(index);
                 iter.count = iter.byte = iter.bit = 0;
                 callback(iter, udata);
             }
             index++;
+            pthread_mutex_lock(&ds->lock);
             dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
+            iter.name = dt ? dt->name : NULL;
+            pthread_mutex_unlock(&ds->lock);
         }
     } else { /* iterate over the members */
+        pthread_mutex_lock(&ds->lock);
         dt = get_cdt_pointer(ds, type, &result);
+        this = dt ? dt->members : NULL;
+        pthread_mutex_unlock(&ds->lock);
         if(dt == NULL) {
             return result;
         }
 
-        this = dt->members;
         while(this != NULL) {
             iter.name = this->name;
             iter.type = this->type;
@@ -856,11 +870,13 @@ dax_cdt_member_count(dax_state *ds, tag_type type)
     cdt_member *this;
     int count = 0;
 
+    pthread_mutex_lock(&ds->lock);
     dt = get_cdt_pointer(ds, type, &result);
+    this = dt ? dt->members : NULL;
+    pthread_mutex_unlock(&ds->lock);
     if(dt == NULL) {
         return result;
     }
-    this = dt->members;
     while(this != NULL) {
         count++;
         this = this->next;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 19c7ab3..86e7364 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -698,10 +698,10 @@ dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
     result = _message_recv(ds, MSG_TAG_READ, (char *)data, &size, 1);
 
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -753,10 +753,10 @@ dax_write(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size
     }
     result = _message_recv(ds, MSG_TAG_WRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -809,10 +809,10 @@ dax_mask(dax_state *ds, tag_index idx, uint32_t offset, void *data, void *mask,
     }
     result = _message_recv(ds, MSG_TAG_MWRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1121,10 +1121,10 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     }
     result = _message_recv(ds, MSG_ATOMIC_OP, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, h.index);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1446,11 +1446,11 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_CDT_GET, buff, &size, 1);
-    pthread_mutex_unlock(&ds->lock);
     if(result == 0) {
         type = stom_udint(*((tag_type *)buff));
         result = add_cdt_to_cache(ds, type, &(buff[4]));
     }
+    pthread_mutex_unlock(&ds->lock);
     return result;
 }
 
@@ -1772,10 +1772,13 @@ dax_group_write(dax_state *ds, tag_group_id *id, void *data) {
     u_temp = mtos_udint(id->index);
     memcpy(buff, &u_temp, 4);
 
+    pthread_mutex_lock(&ds->lock);
     result = group_write_format(ds, id, data);
-    if(result) return result;
+    if(result) {
+        pthread_mutex_unlock(&ds->lock);
+        return result;
+    }
     memcpy(&buff[4], data, id->size);
-    pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_GRP_WRITE, buff, id->size+4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From c39ca09cab4af23ba5b217c9f88ea7429df2de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:38 +0000
Subject: [PATCH 046/105] fix: a compound type that is created or fetched twice
 has its members doubled in the library

---
 src/lib/libcdt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 49cbae3..35800a6 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -230,6 +230,9 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         }
     }
 
+    /* If we already have this one there is nothing to do, data types never change */
+    if(ds->datatypes[index].name != NULL) return 0;
+
     /* At this point we should have the spot for the datatype */
     str = strtok_r(typedesc, ":", &last);
     if(str == NULL) {
-- 
2.43.0


From a11c86d4c696fbb3266c5cfbe6c532814d371ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:45 +0000
Subject: [PATCH 047/105] fix: dax_tag_add() overruns its buffer when the tag
 name is long

---
 src/lib/libmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 86e7364..1b1d2cb 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -469,14 +469,14 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
     int result;
     size_t size;
     dax_tag tag;
-    char buff[DAX_TAGNAME_SIZE + 8 + 1];
+    char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
     if(name) {
         if((size = strlen(name)) > DAX_TAGNAME_SIZE) {
             return ERR_2BIG;
         }
-        /* Add the 8 bytes for type and count to one byte for NULL */
+        /* Add the 12 bytes for type, count and attributes to one byte for NULL */
         size += 13;
         /* TODO Need to do some more error checking here */
         *((uint32_t *)&buff[0]) = mtos_udint(type);
-- 
2.43.0


From 29f746ef9fa8e466aeb82aa966bccf4d68d8f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:45 +0000
Subject: [PATCH 048/105] fix: the tag cache keeps definitions that this client
 itself has made obsolete

---
 src/lib/libdata.c | 16 ++++++++++++++++
 src/lib/libdax.h  |  1 +
 src/lib/libmsg.c  | 16 +++++++---------
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 3d3e7b9..961337e 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -161,6 +161,10 @@ cache_tag_add(dax_state *ds, dax_tag *tag)
 {
     tag_cnode *new;
 
+    /* An older definition of a tag with this index or name is obsolete */
+    cache_tag_del(ds, tag->idx);
+    cache_tag_del_name(ds, tag->name);
+
     if(ds->cache_head == NULL) { /* First one */
         //--printf("adding {%d} to the beginning\n", tag->handle);
         new = malloc(sizeof(tag_cnode));
@@ -241,6 +245,18 @@ cache_tag_del(dax_state *ds, tag_index idx) {
     return 0;
 }
 
+/* This function deletes the tag in the cache given by 'name'
+ * It returns 0 on success and ERR_NOTFOUND if the tag is not in the cache */
+int
+cache_tag_del_name(dax_state *ds, char *name) {
+    dax_tag tag;
+
+    if(check_cache_name(ds, name, &tag)) {
+        return ERR_NOTFOUND;
+    }
+    return cache_tag_del(ds, tag.idx);
+}
+
 
 /* Type specific reading and writing functions.  These should be the most common
  * methods to read and write tags to the sever.*/
diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 4061973..be3fd21 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -191,6 +191,7 @@ int check_cache_index(dax_state *, tag_index, dax_tag *);
 int check_cache_name(dax_state *, char *, dax_tag *);
 int cache_tag_add(dax_state *, dax_tag *);
 int cache_tag_del(dax_state *, tag_index);
+int cache_tag_del_name(dax_state *, char *);
 
 int opt_get_msgtimeout(dax_state *);
 int opt_lua_init_func(dax_state *);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 1b1d2cb..5f41f2f 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -468,7 +468,6 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
 {
     int result;
     size_t size;
-    dax_tag tag;
     char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
@@ -511,14 +510,10 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
                 h->size = count * dax_get_typesize(ds, type);
             }
         }
-        strcpy(tag.name, name);
-        tag.idx = *(tag_index *)buff;
-        tag.type = type;
-        tag.count = count;
-        tag.attr = attr;
-        /* Just in case this call modifies the tag */
-        cache_tag_del(ds, tag.idx);
-        cache_tag_add(ds, &tag);
+        /* This call may have modified the tag and the tag may be larger than what
+         * was asked for, so we'll get the definition from the server when we need it */
+        cache_tag_del(ds, *(tag_index *)buff);
+        cache_tag_del_name(ds, name);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
@@ -549,6 +544,9 @@ dax_tag_del(dax_state* ds, tag_index index)
 
     size = 4; /* we just need the handle */
     result = _message_recv(ds, MSG_TAG_DEL, buff, &size, 1);
+    if(result == 0 || result == ERR_DELETED) {
+        cache_tag_del(ds, index);
+    }
     pthread_mutex_unlock(&ds->lock);
     return result;
 }
-- 
2.43.0


From 861ba18db436fb47555f4ae53ca9aa3473ccd130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:45 +0000
Subject: [PATCH 049/105] fix: dax_tag_byname() leaves the connection locked
 when it runs out of memory

---
 src/lib/libmsg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 5f41f2f..ef40747 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -578,7 +578,10 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
         /* We make buff big enough for the outgoing message and the incoming
            response message which would have 4 additional int32s */
         buff = malloc(size + 18);
-        if(buff == NULL) return ERR_ALLOC;
+        if(buff == NULL) {
+            pthread_mutex_unlock(&ds->lock);
+            return ERR_ALLOC;
+        }
         buff[0] = TAG_GET_NAME;
         strcpy(&buff[1], name);
         /* Send the message to the server.  Add 2 to the size for the subcommand and the NULL */
-- 
2.43.0


From f7002e028516e38cc9c1cdf8108caa5e75405ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:45 +0000
Subject: [PATCH 050/105] fix: dax_cdt_get() overruns its buffer when the name
 is too long

---
 src/lib/libmsg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index ef40747..f607f6e 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1429,6 +1429,7 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
     if(name != NULL) {
         buff[0] = CDT_GET_NAME;
         size = strlen(name) + 1;
+        if(size > DAX_TAGNAME_SIZE + 1) return ERR_2BIG;
         strncpy(&(buff[1]), name, size); /* Pass the cdt name in this subcommand */
         size++; /* Add one for the sub command */
     } else {
-- 
2.43.0


From 6e2f755a70c52b9611f7745440bce4948adfcd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:42 +0000
Subject: [PATCH 051/105] fix: malformed array subscripts are accepted in tag
 addresses

---
 src/lib/libcdt.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 35800a6..388f567 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -21,6 +21,7 @@
 #include <libdax.h>
 #include <libcommon.h>
 #include <ctype.h>
+#include <limits.h>
 
 /* This defines the starting size of the datatype array.
  * It is also the amount that the datatype array will
@@ -506,7 +507,8 @@ _split_tagname(char *name)
 static inline int
 _get_index(char *str)
 {
-    int i, k, len, index;
+    int i, k, len;
+    long index;
     len = strlen(str);
     for(i = 0; i < len && str[i] != '['; i++);
     if(i < len) {
@@ -514,7 +516,10 @@ _get_index(char *str)
         for(k = i+1; k < len && str[k] != ']'; k++) {
             if(str[k] < '0' || str[k] > '9') return ERR_ARG;
         }
-        index = atoi(str + i + 1);
+        /* There must be a number and the ']' must be the last character */
+        if(k == i+1 || k != len-1) return ERR_ARG;
+        index = strtol(str + i + 1, NULL, 10);
+        if(index > INT_MAX) return ERR_2BIG;
     } else {
         index = ERR_NOTFOUND;
     }
-- 
2.43.0


From ae1167697021618e5ede3de74adafdf4252d9d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:42 +0000
Subject: [PATCH 052/105] fix: bit subscripts of 256 and more select a wrong
 bit instead of being refused

---
 src/lib/libcdt.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 388f567..78be116 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -534,6 +534,7 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
 {
     char *endptr;
     int size;
+    long bit;
 
     if(type == DAX_BOOL || type == DAX_TIME ||
        type == DAX_REAL || type == DAX_LREAL ||
@@ -541,21 +542,21 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
            return ERR_BADTYPE;
        }
     if(index < 0) index = 0;
-    h->bit = strtol(digit, &endptr, 10);
+    bit = strtol(digit, &endptr, 10);
     /* This indicates that there is extra text past the number */
     if(endptr[0] != '\0') {
         return ERR_ARG;
     }
     size = dax_get_typesize(ds, type);
-    if(h->bit > size*8) {
+    if(bit >= size*8) {
         return ERR_2BIG;
     }
     if(count == 0) count = 1;
-    if((h->bit + count) > size*8) {
+    if(count > size*8 - bit) {
         return ERR_2BIG;
     }
-    h->byte += size * index + (h->bit / 8);
-    h->bit = h->bit % 8;
+    h->byte += size * index + (bit / 8);
+    h->bit = bit % 8;
     h->type = DAX_BOOL;
     h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
     h->count = count;
-- 
2.43.0


From 04881c5bf42a8fba7eb752e4da165b6a54f5dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:42 +0000
Subject: [PATCH 053/105] fix: addresses of members after BOOLs, of BOOL arrays
 and of nested arrays resolve to the wrong place

---
 src/lib/libcdt.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 78be116..c1d33fe 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -593,18 +593,14 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
          * one we are looking for */
         if(strcmp(name, this->name)) {
             if(this->type == DAX_BOOL) {
-                h->bit += this->count;
-                if(h->bit > 7) {
-                    h->byte += h->bit / 8;
-                    h->bit %= 8;
-                }
+                h->byte += (h->bit + this->count) / 8;
+                h->bit = (h->bit + this->count) % 8;
             } else {
                 /* Gotta step up one if the last member was a bool */
-                if(h->type == DAX_BOOL && h->bit > 0) { h->byte++; }
+                if(h->bit > 0) { h->byte++; }
                 h->byte += dax_get_typesize(ds, this->type) * this->count;
                 h->bit = 0;
             }
-            h->type = this->type; /* We need to keep track of the last type */
 
             this = this->next;
         } else { /* Here we have found it */
@@ -613,6 +609,12 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
 
     }
     if(this == NULL) return ERR_NOTFOUND;
+    /* Everything but BOOLs starts at a byte */
+    if(this->type != DAX_BOOL && h->bit > 0) {
+        h->byte++;
+        h->bit = 0;
+    }
+    if(index != ERR_NOTFOUND && index >= this->count) return ERR_2BIG;
 
     if(nextname) { /* Not the last item */
         if(isdigit(nextname[0])) {
@@ -624,23 +626,17 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         result = _parse_next_member(ds, this->type, h, nextname, count);
         if(result) return result;
         if(index != ERR_NOTFOUND) {
-            if(count == 0) count = 1;
-            if((index + count) > this->count) return ERR_2BIG;
             h->byte += dax_get_typesize(ds, this->type) * index;
         }
     } else { /* We are the last item */
-        if(h->type == DAX_BOOL && this->type != DAX_BOOL && h->bit > 0) {
-            h->byte++;
-            h->bit = 0;
-        }
-
         h->type = this->type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
-            if((index + count) > this->count ) return ERR_2BIG;
+            if(count > this->count - index) return ERR_2BIG;
             if(this->type == DAX_BOOL) {
+                index += h->bit;
                 h->byte += index / 8;
-                h->bit += index % 8;
+                h->bit = index % 8;
                 /* Two bits across the byte boundry require two bytes */
                 h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
                 h->count = count;
-- 
2.43.0


From 62b6843ac0e426fb6728eb84e3e3cbfc0e216bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:42 +0000
Subject: [PATCH 054/105] fix: subscripts and counts that reach outside the tag
 are accepted in tag addresses

---
 src/lib/libcdt.c | 8 +++++---
 src/lib/libmsg.c | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c1d33fe..e839371 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -684,6 +684,8 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
     result = dax_tag_byname(ds, &tag, tagname);
     if(result) return ERR_NOTFOUND;
     h->index = tag.idx; /* This index is the database index */
+    if(count < 0) return ERR_ARG;
+    if(index != ERR_NOTFOUND && index >= tag.count) return ERR_2BIG;
 
     if(membername) {
         /* This is the case where the .x is a number referring to a bit */
@@ -710,8 +712,8 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
         h->type = tag.type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
-            if((index + count) > tag.count ) return ERR_2BIG;
-            if(tag.type == DAX_BOOL) {
+            if(count > tag.count - index) return ERR_2BIG;
+            if((tag.type & ~DAX_QUEUE) == DAX_BOOL) {
                 h->byte = index / 8;
                 h->bit = index % 8;
                 h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
@@ -726,7 +728,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
         } else { /* This is where no index [] was given */
             if(count > tag.count) return ERR_2BIG;
             if(count == 0) count = tag.count;
-            if(tag.type == DAX_BOOL) {
+            if((tag.type & ~DAX_QUEUE) == DAX_BOOL) {
                 h->byte = 0;
                 h->bit = 0;
                 h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index f607f6e..44079aa 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -504,7 +504,7 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
             h->bit = 0;
             h->type = type;
             h->count = count;
-            if(type == DAX_BOOL) {
+            if((type & ~DAX_QUEUE) == DAX_BOOL) {
                 h->size = (count - 1)/8 +1;
             } else {
                 h->size = count * dax_get_typesize(ds, type);
-- 
2.43.0


From 207dfd8f399b360c1b889f7356dd2fe5d8f4236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:42 +0000
Subject: [PATCH 055/105] fix: addresses are refused because of an outdated
 definition in the tag cache

---
 src/lib/libcdt.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index e839371..8b47856 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -667,7 +667,7 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
 /* Wrapping the function to take advantage of the variable length array
  * feature of C for the tagname so we don't have to worry about malloc */
 static int
-_dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
+_dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count, int *cached)
 {
     int result, index, size;
     dax_tag tag;
@@ -681,6 +681,15 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
         return index;
     }
 
+    if(*cached) { /* Find out if the definition that we use comes from the cache */
+        pthread_mutex_lock(&ds->lock);
+        *cached = (check_cache_name(ds, tagname, &tag) == 0);
+        pthread_mutex_unlock(&ds->lock);
+    } else { /* We are asked to use the current definition */
+        pthread_mutex_lock(&ds->lock);
+        cache_tag_del_name(ds, tagname);
+        pthread_mutex_unlock(&ds->lock);
+    }
     result = dax_tag_byname(ds, &tag, tagname);
     if(result) return ERR_NOTFOUND;
     h->index = tag.idx; /* This index is the database index */
@@ -764,11 +773,18 @@ int
 dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int count)
 {
     int result;
+    int cached = 1;
     if(h == NULL || ds == NULL || str == NULL) {
         return ERR_ARG;
     }
     bzero(h, sizeof(tag_handle)); /* Initialize h */
-    result = _dax_tag_handle(ds, h, str, strlen(str) + 1, count);
+    result = _dax_tag_handle(ds, h, str, strlen(str) + 1, count, &cached);
+    if(result && cached) {
+        /* The tag may have changed since we cached its definition */
+        cached = 0;
+        bzero(h, sizeof(tag_handle));
+        result = _dax_tag_handle(ds, h, str, strlen(str) + 1, count, &cached);
+    }
     if(result) {
         bzero(h, sizeof(tag_handle)); /* Reset h in case of error */
     }
-- 
2.43.0


From a7f19d4f863c4b2532dd8f41dcd19665eee4958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:47 +0000
Subject: [PATCH 056/105] fix: the library loses track of the messages when one
 arrives in pieces

---
 src/lib/libmsg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 44079aa..62beb40 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -68,9 +68,11 @@ _message_get(int fd, dax_message *msg) {
 
     while( index < MSG_HDR_SIZE) {
     	/* Start by reading the header */
-        result = read(fd, &buff[index], MSG_HDR_SIZE);
+        result = read(fd, &buff[index], MSG_HDR_SIZE-index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
+            if(errno == EINTR || (errno == EWOULDBLOCK && index > 0)) {
+                continue; /* Don't lose the part that we already have */
+            } else if(errno == EWOULDBLOCK) {
                 return ERR_TIMEOUT;
             } else {
                 return ERR_MSG_RECV;
@@ -84,14 +86,15 @@ _message_get(int fd, dax_message *msg) {
     /* At this point we should have the size and the message type */
     msg->size = ntohl(*(uint32_t *)buff);
     msg->msg_type = ntohl(*((uint32_t *)&buff[4]));
+    if(msg->size > MSG_DATA_SIZE) return ERR_DISCONNECTED;
     /* Now we get the rest of the message */
     index = 0;
     while( index < msg->size) {
     	/* Read the rest of the message */
         result = read(fd, &buff[index], msg->size-index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
+            if(errno == EINTR || errno == EWOULDBLOCK) {
+                continue; /* The rest of the message is on its way */
             } else {
                 return ERR_MSG_RECV;
             }
-- 
2.43.0


From a09b943be4ed4b108a593f86d7a4e6789ce42d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:47 +0000
Subject: [PATCH 057/105] fix: a lost connection kills the client and a partial
 send garbles the requests

---
 src/lib/libmsg.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 62beb40..c61ae69 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -37,7 +37,7 @@
 static int
 _message_send(dax_state *ds, int command, void *payload, size_t size)
 {
-    int result;
+    int result, index = 0;
     char buff[DAX_MSGMAX];
 
     if(ds->sfd < 0) {
@@ -46,15 +46,18 @@ _message_send(dax_state *ds, int command, void *payload, size_t size)
     /* We always send the size and command in network order */
     ((uint32_t *)buff)[0] = htonl(size + MSG_HDR_SIZE);
     ((uint32_t *)buff)[1] = htonl(command);
-    memcpy(&buff[MSG_HDR_SIZE], payload, size);
+    if(size > 0) memcpy(&buff[MSG_HDR_SIZE], payload, size);
 
     /* TODO: We need to set some kind of timeout here.  This could block
        forever if something goes wrong.  It may be a signal or something too. */
-    result = write(ds->sfd, buff, size + MSG_HDR_SIZE);
-    if(result < 0) {
-    /* TODO: Should we handle the case when this returns due to a signal */
-        dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
-        return ERR_MSG_SEND;
+    while(index < size + MSG_HDR_SIZE) {
+        result = send(ds->sfd, &buff[index], size + MSG_HDR_SIZE - index, MSG_NOSIGNAL);
+        if(result < 0) {
+            if(errno == EINTR) continue;
+            dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
+            return ERR_MSG_SEND;
+        }
+        index += result;
     }
     return 0;
 }
-- 
2.43.0


From 1b023f04053bf043d4b08c3dd90b2eed35fb8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:24 +0000
Subject: [PATCH 058/105] fix: the late response to a request that timed out is
 taken for the response to the next one

---
 src/lib/libdax.h   |  1 +
 src/lib/libevent.c |  2 +-
 src/lib/libinit.c  |  1 +
 src/lib/libmsg.c   | 16 ++++++++++++----
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index be3fd21..2b87e4c 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -129,6 +129,7 @@ struct dax_state {
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
     dax_message *last_msg;   /* The last message received on the socket */
+    int msg_skip;            /* Number of responses to requests that have timed out */
     void (*disconnect_callback)(int result);
 };
 
diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 0fdbd3c..daabc80 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -215,7 +215,7 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
         clock_gettime(CLOCK_REALTIME, &ts);
         ts.tv_sec += timeout/1000;
         ts.tv_nsec += timeout%1000 * 1e6;
-        if(ts.tv_nsec > 1e9) {
+        if(ts.tv_nsec >= 1e9) {
             ts.tv_sec++;
             ts.tv_nsec -= 1e9;
         }
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 3aa726d..8e21869 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -71,6 +71,7 @@ dax_init(const char *name)
         return NULL;
     }
     ds->last_msg = NULL;
+    ds->msg_skip = 0;
     ds->event_size = 1;
     ds->event_count = 0;
     /* Event Message FIFO Queue */
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index c61ae69..9755ba2 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -129,17 +129,19 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         clock_gettime(CLOCK_REALTIME, &timeout);
         timeout.tv_sec += ds->msgtimeout/1000;
         timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
-        if(timeout.tv_nsec>1e9) {
+        if(timeout.tv_nsec>=1e9) {
             timeout.tv_sec++;
             timeout.tv_nsec-=1e9;
         }
         result = pthread_cond_timedwait(&ds->msg_cond, &ds->msg_lock, &timeout);
-        if(result == ETIMEDOUT) {
+        if(result == ETIMEDOUT && ds->last_msg == NULL) {
             DF("message_recv() Timeout");
+            /* When the response finally comes it's not for the next request */
+            ds->msg_skip++;
             pthread_mutex_unlock(&ds->msg_lock);
             return ERR_TIMEOUT;
         }
-        assert(result == 0);
+        assert(result == 0 || result == ETIMEDOUT);
     }
     assert(ds->last_msg != NULL);
     if(ds->last_msg->msg_type == (command | MSG_ERROR)) {
@@ -342,7 +344,12 @@ _read_next_message(dax_state *ds)
         pthread_cond_signal(&ds->event_cond);
     } else { /* All other messages we put here */
         pthread_mutex_lock(&ds->msg_lock);
-        ds->last_msg = msg;
+        if(ds->msg_skip > 0) { /* Nobody is waiting for this one anymore */
+            ds->msg_skip--;
+            free(msg);
+        } else {
+            ds->last_msg = msg;
+        }
         pthread_mutex_unlock(&ds->msg_lock);
         pthread_cond_signal(&ds->msg_cond);
     }
@@ -354,6 +361,7 @@ _connection_cleanup(dax_state *ds) {
     ds->sfd = -1;
     if(ds->last_msg != NULL) free(ds->last_msg);
     ds->last_msg = NULL;
+    ds->msg_skip = 0;
     free_tag_cache(ds);
     /* TODO: Free up the event FIFO too */
 }
-- 
2.43.0


From 37e8aa8492fb1205e23a72cc14c1ac6b3156a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:24 +0000
Subject: [PATCH 059/105] fix: dax_connect() reports success when the server
 refuses the registration

---
 src/lib/libmsg.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 9755ba2..e034a3a 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -270,6 +270,12 @@ _mod_register(dax_state *ds, char *name)
     	return result;
     }
 
+    if(msg.msg_type != (MSG_MOD_REG | MSG_RESPONSE)) {
+        /* The server has refused us */
+        if(msg.msg_type == (MSG_MOD_REG | MSG_ERROR)) return *((int32_t *)&msg.data[0]);
+        return ERR_GENERIC;
+    }
+
     /* Store the unique ID that the server has sent us. */
     ds->id =  *((uint32_t *)&msg.data[0]);
     /* Here we check to see if the data that we got in the registration message is in the same
@@ -379,6 +385,13 @@ _connection_thread(void *arg)
     ds->sfd = _get_connection(ds);
     if(ds->sfd >= 0) {
         result = _mod_register(ds, ds->modulename);
+        if(result) {
+            close(ds->sfd);
+            ds->sfd = -1;
+            ds->error_code = result;
+            pthread_barrier_wait(&ds->connect_barrier);
+            return NULL;
+        }
         init_tag_cache(ds);
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
-- 
2.43.0


From b6c4b2e7ef3e70355949d5ca285ae4dd950cd57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:24 +0000
Subject: [PATCH 060/105] fix: after dax_disconnect() the connection thread
 reads the standard input and uses the freed state

---
 src/lib/libdax.h  |  2 ++
 src/lib/libinit.c |  2 ++
 src/lib/libmsg.c  | 62 +++++++++++++++++++++++++++++++++--------------
 3 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 2b87e4c..b7daf5d 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -117,6 +117,8 @@ struct dax_state {
     unsigned int datatype_size;
     pthread_mutex_t lock;
     pthread_t connection_thread;
+    int thread_started;    /* The connection thread has to be joined */
+    int disconnecting;     /* Set once dax_disconnect() has been called */
     pthread_barrier_t connect_barrier; /* Synchronize the connection thread */
     pthread_mutex_t event_lock, msg_lock; /* Locks for the message handling functions */
     pthread_cond_t event_cond, msg_cond; /* Condition variables for the message handling */
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 8e21869..3d0e15a 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -79,6 +79,8 @@ dax_init(const char *name)
     ds->emsg_queue_size = EVENT_QUEUE_SIZE;     /* Total size of the Event Message Queue */
     ds->emsg_queue_count = 0;    /* number of entries in the event message queue */
     ds->disconnect_callback = NULL;
+    ds->thread_started = 0;
+    ds->disconnecting = 0;
     /* Initialize locks and condition variables */
     /* Functions that hold this lock may have to ask the server for a data
      * type, which takes the lock as well */
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index e034a3a..636bc0e 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -364,12 +364,22 @@ _read_next_message(dax_state *ds)
 
 static void
 _connection_cleanup(dax_state *ds) {
+    pthread_mutex_lock(&ds->lock);
+    if(ds->sfd >= 0) close(ds->sfd);
     ds->sfd = -1;
+    pthread_mutex_lock(&ds->msg_lock);
     if(ds->last_msg != NULL) free(ds->last_msg);
     ds->last_msg = NULL;
     ds->msg_skip = 0;
+    pthread_mutex_unlock(&ds->msg_lock);
+    pthread_mutex_lock(&ds->event_lock);
+    while(ds->emsg_queue_count > 0) {
+        ds->emsg_queue_count--;
+        free(ds->emsg_queue[ds->emsg_queue_count]);
+    }
+    pthread_mutex_unlock(&ds->event_lock);
     free_tag_cache(ds);
-    /* TODO: Free up the event FIFO too */
+    pthread_mutex_unlock(&ds->lock);
 }
 
 static void *
@@ -396,19 +406,15 @@ _connection_thread(void *arg)
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
         pthread_barrier_wait(&ds->connect_barrier);
-        /* dax_disconnect() will set this to zero to get us out of this loop */
-        while(ds->sfd >= 0) { /* Main connection loop */
+        /* dax_disconnect() will shut the socket down to get us out of this loop */
+        do { /* Main connection loop */
             result = _read_next_message(ds);
-            if(result == ERR_DISCONNECTED) {
-                if(ds->disconnect_callback) {
-                    ds->disconnect_callback(result);
-                }
-                break;
-                //_connection_cleanup(ds);
-            }
-        }
+        } while(result != ERR_DISCONNECTED && result != ERR_MSG_RECV);
         _connection_cleanup(ds);
         ds->error_code = result;
+        if(ds->disconnect_callback && !ds->disconnecting) {
+            ds->disconnect_callback(ERR_DISCONNECTED);
+        }
         return NULL;
     } else {
         result = ds->sfd;
@@ -419,6 +425,21 @@ _connection_thread(void *arg)
 }
 
 
+/* Waits for the connection thread to end */
+static void
+_connection_join(dax_state *ds)
+{
+    if(ds->thread_started) {
+        ds->thread_started = 0;
+        if(pthread_equal(pthread_self(), ds->connection_thread)) {
+            /* Called from the disconnect callback */
+            pthread_detach(ds->connection_thread);
+        } else {
+            pthread_join(ds->connection_thread, NULL);
+        }
+    }
+}
+
 /*!
  * Setup the module data structures and send registration message
  * to the server.
@@ -432,10 +453,14 @@ dax_connect(dax_state *ds)
 {
     /* We use this barrier to stop here until we connect to the server the
      * first time. */
+    _connection_join(ds); /* In case there was a connection before */
     pthread_barrier_init(&ds->connect_barrier, NULL, 2);
+    ds->disconnecting = 0;
 
-    pthread_create(&ds->connection_thread, NULL, _connection_thread, ds);
-    pthread_detach(ds->connection_thread);
+    if(pthread_create(&ds->connection_thread, NULL, _connection_thread, ds)) {
+        return ERR_GENERIC;
+    }
+    ds->thread_started = 1;
     pthread_barrier_wait(&ds->connect_barrier);
 
     if(ds->error_code == 0) {
@@ -456,21 +481,22 @@ dax_connect(dax_state *ds)
 int
 dax_disconnect(dax_state *ds)
 {
-    int result = -1;
+    int result = ERR_DISCONNECTED;
     size_t len;
 
     pthread_mutex_lock(&ds->lock);
-    /* Tells the connection thread to exit */
-    if(ds->sfd) {
+    if(ds->sfd >= 0) {
+        ds->disconnecting = 1;
         result = _message_send(ds, MSG_MOD_REG, NULL, 0);
         if(! result ) {
             len = 0;
             result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
         }
-        close(ds->sfd);
-        ds->sfd = 0;
+        /* Tells the connection thread to exit, it closes the socket */
+        shutdown(ds->sfd, SHUT_RDWR);
     }
     pthread_mutex_unlock(&ds->lock);
+    _connection_join(ds);
     return result;
 }
 
-- 
2.43.0


From f9d1b4213772cd1fd54d65d58702122b2289dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:30 +0000
Subject: [PATCH 061/105] fix: dax_event_del() returns the tag index instead of
 zero

---
 src/lib/libmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 636bc0e..038a5fc 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1314,7 +1314,7 @@ dax_event_del(dax_state *ds, dax_id id)
         }
     }
     pthread_mutex_unlock(&ds->lock);
-    return result;
+    return 0;
 }
 
 /*!
-- 
2.43.0


From 64e37ae1e98fb0a0ffe0c873cbe2777345582616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:30 +0000
Subject: [PATCH 062/105] fix: the data of events on DWORD and TIME tags is cut
 off and on compound tags is garbage

---
 src/lib/libdax.h | 8 ++++----
 src/lib/libmsg.c | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index b7daf5d..773a818 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -156,10 +156,10 @@ dax_int stom_int(dax_int);
 dax_uint stom_uint(dax_uint);
 
 /* 32 Bit conversion functions */
-#define mtos_dword mtos_uint
-#define stom_dword stom_uint
-#define mtos_time mtos_uint
-#define stom_time stom_uint
+#define mtos_dword mtos_udint
+#define stom_dword stom_udint
+#define mtos_time mtos_lint
+#define stom_time stom_lint
 
 dax_dint mtos_dint(dax_dint);
 dax_udint mtos_udint(dax_udint);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 038a5fc..6312786 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1240,8 +1240,8 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
     memcpy(&buff[20], &u_temp, 4);
     buff[24]=h->bit;                 /* Bit offset */
 
-    if(data != NULL) {
-        mtos_generic(h->type, &buff[25], data);
+    if(data != NULL && !IS_CUSTOM(h->type)) {
+        mtos_generic(h->type & ~DAX_QUEUE, &buff[25], data);
         size = 25 + TYPESIZE(h->type) / 8;
     } else {
         size = 25;
-- 
2.43.0


From 023771b93fb0e61b88e47d73e6383768f8c853b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:30 +0000
Subject: [PATCH 063/105] fix: the DELETED event type has no name

---
 src/lib/libevent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index daabc80..908ab09 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -49,6 +49,8 @@ dax_event_string_to_type(char *string) {
         return EVENT_LESS;
     } else if(!strcasecmp(string, "DEADBAND")) {
         return EVENT_DEADBAND;
+    } else if(!strcasecmp(string, "DELETED")) {
+        return EVENT_DELETED;
     } else {
         return 0;
     }
@@ -79,6 +81,8 @@ dax_event_type_to_string(int type) {
             return "LESS";
         case EVENT_DEADBAND:
             return "DEADBAND";
+        case EVENT_DELETED:
+            return "DELETED";
         default:
             return NULL;
     }
-- 
2.43.0


From f9e9690c99ef182e0a4c029da82f17434c142fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:30 +0000
Subject: [PATCH 064/105] fix: threads that handle events at the same time get
 each other's event data

---
 src/lib/libdax.h   |  2 --
 src/lib/libevent.c | 56 +++++++++++++++++++++++++++++++---------------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 773a818..819194d 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -125,8 +125,6 @@ struct dax_state {
     event_db *events;      /* Array of events stored for this connection */
     int event_size;        /* Current size of the events array */
     int event_count;       /* Total number of events stored in the array */
-    int event_data_size;   /* Size of the event data that is stored here */
-    char *event_data;      /* Pointer to the event data that was returned */
     dax_message **emsg_queue; /* Event Message FIFO Queue */
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 908ab09..2a7db89 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -141,6 +141,12 @@ del_event(dax_state *ds, dax_id id)
     return ERR_NOTFOUND;
 }
 
+/* The data of the event whose callback is running in this thread.  The
+ * pointer is NULL when there is none */
+static __thread char *event_data;
+static __thread int event_data_size;
+static __thread dax_state *event_ds;
+
 /* This function deals with a single event.
  *
  * @param ds Pointer to the dax state object
@@ -153,29 +159,43 @@ del_event(dax_state *ds, dax_id id)
 int
 dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
 {
-    int n;
+    int n, found = 0;
     uint32_t idx, eid;
+    event_db event;
+    char *last_data = event_data;
+    int last_size = event_data_size;
+    dax_state *last_ds = event_ds;
 
     idx =      ntohl(*(uint32_t *)(&msg->data[0]));
     eid =      ntohl(*(uint32_t *)(&msg->data[4]));
     /* we just store the pointer to the message data in case the callback needs it
      * This data can be retrieved in the callback by dax_event_get_data() */
-    ds->event_data = &msg->data[8];
-    ds->event_data_size = msg->size-8;
-    for(n = 0; n < ds->event_count; n ++) {
+    event_data = &msg->data[8];
+    event_data_size = msg->size-8;
+    event_ds = ds;
+    /* The other threads may change the array while the callback runs */
+    pthread_mutex_lock(&ds->lock);
+    for(n = 0; n < ds->event_count && !found; n ++) {
         if(ds->events[n].idx == idx && ds->events[n].id == eid) {
-            if(ds->events[n].callback != NULL) {
-                ds->events[n].callback(ds, ds->events[n].udata);
-            }
-            if(id != NULL) {
-                id->id = eid;
-                id->index = idx;
-            }
-            ds->event_data = NULL; /* This indicates that the data is out of scope now */
-            return 0;
+            event = ds->events[n];
+            found = 1;
+        }
+    }
+    pthread_mutex_unlock(&ds->lock);
+    if(found) {
+        if(event.callback != NULL) {
+            event.callback(ds, event.udata);
+        }
+        if(id != NULL) {
+            id->id = eid;
+            id->index = idx;
         }
     }
-    ds->event_data = NULL; /* This indicates that the data is out of scope now */
+    /* The data is out of scope now */
+    event_data = last_data;
+    event_data_size = last_size;
+    event_ds = last_ds;
+    if(found) return 0;
     dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received an event that does not exist in database");
     return ERR_GENERIC;
 }
@@ -292,10 +312,10 @@ int
 dax_event_get_data(dax_state *ds, void* buff, int len) {
     int size;
 
-    size = MIN(len, ds->event_data_size);
-    if(ds->event_data == NULL) return ERR_DELETED;
-    if(ds->event_data_size == 0) return ERR_EMPTY;
+    if(event_data == NULL || event_ds != ds) return ERR_DELETED;
+    if(event_data_size == 0) return ERR_EMPTY;
+    size = MIN(len, event_data_size);
 
-    memcpy(buff, ds->event_data, size);
+    memcpy(buff, event_data, size);
     return size;
 }
-- 
2.43.0


From 460e1baeabd43e2a258d1ee401c9c64a7d222cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:30 +0000
Subject: [PATCH 065/105] fix: writing a nested compound tag reformats the
 wrong bytes

---
 src/lib/libdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 961337e..cdf6bed 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -448,7 +448,7 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
             return ERR_NOTFOUND;
         }
         while(this != NULL) {
-            result = _write_format(ds, this->type, this->count, newdata, pos);
+            result = _write_format(ds, this->type, this->count, data, pos);
             if(result) return result;
             if(IS_CUSTOM(this->type)) {
                 pos += (dax_get_typesize(ds, this->type) * this->count);
-- 
2.43.0


From 3a1f4fa97db450e2f1ea0284b8bfc6c55e3cf959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:01 +0000
Subject: [PATCH 066/105] fix: writing or overriding the last bits of a tag is
 refused because one byte too many is sent

---
 src/lib/libdata.c | 14 ++++++--------
 src/lib/libmsg.c  | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index cdf6bed..92b426b 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -541,10 +541,9 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
         size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
+        /* The bits may be spread over one more byte than count needs */
+        if((handle.bit % 8 + handle.count - 1) / 8 + 1 > size) {
+            size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
@@ -635,10 +634,9 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
         size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
+        /* The bits may be spread over one more byte than count needs */
+        if((handle.bit % 8 + handle.count - 1) / 8 + 1 > size) {
+            size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         }
         newmask = malloc(size);
         if(newmask == NULL) return ERR_ALLOC;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 6312786..0b3d3e9 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -892,10 +892,9 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
+        /* The bits may be spread over one more byte than count needs */
+        if((handle.bit % 8 + handle.count - 1) / 8 + 1 > size) {
+            size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
@@ -967,10 +966,9 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
+        /* The bits may be spread over one more byte than count needs */
+        if((handle.bit % 8 + handle.count - 1) / 8 + 1 > size) {
+            size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
-- 
2.43.0


From 675eb71cb90556378b7de560ef81afe05f051c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:01 +0000
Subject: [PATCH 067/105] fix: memory leak and refused request when a long BOOL
 write is split up

---
 src/lib/libdata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 92b426b..fc82b14 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -564,7 +564,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
@@ -573,7 +573,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
                 rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &((uint8_t *)newdata)[n], &mask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -657,7 +657,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
@@ -666,7 +666,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
                 rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &newdata[n], &newmask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
-- 
2.43.0


From c84a497fc090247c26759c2e0bd74968ce48a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:01 +0000
Subject: [PATCH 068/105] fix: dax_tag_mask() ignores the mask for BOOLs

---
 src/lib/libdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index fc82b14..3edce3c 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -653,7 +653,9 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
             }
-            newmask[i / 8] |= (1 << (i % 8));
+            if( (0x01 << (n % 8)) & ((uint8_t *)mask)[n / 8] ) {
+                newmask[i / 8] |= (1 << (i % 8));
+            }
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-- 
2.43.0


From 20e11f71fe6d55bfd387dd48cf80a69d514975b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:01 +0000
Subject: [PATCH 069/105] fix: overrides on large tags overrun the buffer and
 free it twice

---
 src/lib/libmsg.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 0b3d3e9..badf3b1 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -888,6 +888,8 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     uint8_t buff[MSG_DATA_SIZE];
 
     size = handle.size;
+    /* Leave room for one more byte in case the bits are not aligned */
+    if((size + 1) * 2 + 12 > MSG_DATA_SIZE) return ERR_2BIG;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
@@ -926,10 +928,6 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
 
     memcpy(&buff[12 + size], mask, size);
     sendsize = size * 2 + 12;
-    if(sendsize > MSG_DATA_SIZE) {
-        if(newdata != NULL) free(newdata);
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_ADD_OVRD, buff, sendsize);
@@ -961,6 +959,8 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     uint8_t *mask = NULL;
     uint8_t buff[MSG_DATA_SIZE];
     size = handle.size;
+    /* Leave room for one more byte in case the bits are not aligned */
+    if(size + 1 + 8 > MSG_DATA_SIZE) return ERR_2BIG;
 
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
@@ -989,9 +989,6 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
 
     memcpy(&buff[8], mask, size);
     sendsize = size + 8;
-    if(sendsize > MSG_DATA_SIZE) {
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_DEL_OVRD, buff, sendsize);
-- 
2.43.0


From e2ac18a6fcaf7bd2a299ac6de32d2ba95025ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 070/105] fix: dax_group_read() writes over the end of a buffer
 for less than four bytes

---
 src/lib/libmsg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index badf3b1..e6ccf03 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1689,7 +1689,7 @@ dax_group_add(dax_state *ds, int *result, tag_handle *h, int count, uint8_t opti
     *result = 0;
     /* Sanity check the sizes.  These checks are redundant because
      * the server also does them but this will keep from sending the message */
-    if(count > TAG_GROUP_MAX_MEMBERS) {
+    if(count < 0 || count > TAG_GROUP_MAX_MEMBERS) {
         *result = ERR_ARG;
         return NULL;
     }
@@ -1782,10 +1782,9 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
 
     if(size < id->size) return ERR_ARG;
     u_temp = mtos_udint(id->index);
-    memcpy(data, &u_temp, 4);
 
     pthread_mutex_lock(&ds->lock);
-    result = _message_send(ds, MSG_GRP_READ, data, 4);
+    result = _message_send(ds, MSG_GRP_READ, &u_temp, 4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
-- 
2.43.0


From 9657791e8d4ca3e6938a26cd054383aee7b0c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 071/105] fix: text for unsigned and 64 bit types wraps around
 or saturates at the wrong limit

---
 src/lib/libfunc.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 43e1db6..d3abb39 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -24,6 +24,7 @@
 #include <stdarg.h>
 #include <signal.h>
 #include <time.h>
+#include <ctype.h>
 
 
 /* The following two functions are utility functions for converting dax
@@ -108,6 +109,14 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
     return 0;
 }
 
+/* Find out if the number in the string is negative */
+static int
+_is_negative(char *instr)
+{
+    while(isspace((unsigned char)*instr)) instr++;
+    return *instr == '-';
+}
+
 /*!
  * Convert the given string into an OpenDAX value.
  *
@@ -182,7 +191,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             break;
         case DAX_WORD:
         case DAX_UINT:
-            temp =  strtoul(instr, NULL, 0);
+            temp =  strtol(instr, NULL, 0);
             if(temp < DAX_UINT_MIN) {
                 ((dax_uint *)buff)[index] = DAX_UINT_MIN;
                 retval = ERR_UNDERFLOW;
@@ -244,14 +253,14 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            if(instr[0]=='-') {
+            if(mask) ((dax_ulint *)mask)[index] = DAX_64_ONES;
+            if(_is_negative(instr)) {
                 ((dax_ulint *)buff)[index] = 0x0000000000000000;
                 retval = ERR_UNDERFLOW;
                 break;
             }
             errno = 0;
             ((dax_ulint *)buff)[index] = (dax_ulint)strtoull(instr, NULL, 0);
-            if(mask) ((dax_ulint *)mask)[index] = DAX_64_ONES;
             if(errno == ERANGE) {
                 retval = ERR_OVERFLOW;
             }
@@ -261,7 +270,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             ((dax_lint *)buff)[index] = (dax_lint)strtoll(instr, NULL, 0);
             if(mask) ((dax_lint *)mask)[index] = DAX_64_ONES;
             if(errno == ERANGE) {
-                if(instr[0]=='-') {
+                if(_is_negative(instr)) {
                     retval = ERR_UNDERFLOW;
                 } else {
                     retval = ERR_OVERFLOW;
@@ -277,7 +286,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
                 ((dax_lint *)buff)[index] = (dax_lint)strtoll(instr, NULL, 0);
                 if(mask) ((dax_lint *)mask)[index] = DAX_64_ONES;
                 if(errno == ERANGE) {
-                    if(instr[0]=='-') {
+                    if(_is_negative(instr)) {
                         retval = ERR_UNDERFLOW;
                     } else {
                         retval = ERR_OVERFLOW;
-- 
2.43.0


From 5bca33eae34cb6733100741417977dc7e918961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 072/105] fix: the text form of floating point values loses the
 last digit

---
 src/lib/libfunc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index d3abb39..4622c2c 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -85,6 +85,9 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             break;
         case DAX_REAL:
             snprintf(buff, size, "%.8g", ((dax_real *)val)[index]);
+            if(strtof(buff, NULL) != ((dax_real *)val)[index]) { /* Needs all the digits */
+                snprintf(buff, size, "%.9g", ((dax_real *)val)[index]);
+            }
             break;
         case DAX_LWORD:
         case DAX_ULINT:
@@ -103,6 +106,9 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             break;
         case DAX_LREAL:
             snprintf(buff, size, "%.16g", ((dax_lreal *)val)[index]);
+            if(strtod(buff, NULL) != ((dax_lreal *)val)[index]) { /* Needs all the digits */
+                snprintf(buff, size, "%.17g", ((dax_lreal *)val)[index]);
+            }
             break;
     }
     // TODO: return errors if needed
-- 
2.43.0


From c562653d893e027edbc785d95f7d1e0747c3236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 073/105] fix: times before 1970 and after the year 9999 have a
 wrong text form

---
 src/lib/libfunc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 4622c2c..11f440a 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -95,11 +95,20 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             break;
         case DAX_TIME:
             ms = ((dax_lint *)val)[index] % 1000;
-            sprintf(tstr, ".%03d", ms);
             sec = ((dax_lint *)val)[index] / 1000;
+            if(ms < 0) { /* The milliseconds count from the second before */
+                ms += 1000;
+                sec--;
+            }
+            sprintf(tstr, ".%03d", ms);
             tm = gmtime(&sec);
-            strftime(buff, size, "%FT%T", tm);
-            strncat(buff, tstr, size);
+            /* The ones that have no date that we could read back are given as a number */
+            if(tm == NULL || tm->tm_year > 9999 - 1900 || tm->tm_year < 0 - 1900 ||
+               strftime(buff, size, "%FT%T", tm) == 0) {
+                snprintf(buff, size, "%ld", ((dax_lint *)val)[index]);
+            } else {
+                strncat(buff, tstr, size - strlen(buff) - 1);
+            }
             break;
         case DAX_LINT:
             snprintf(buff, size, "%ld", ((dax_lint *)val)[index]);
-- 
2.43.0


From a60c5e34a6253c708960794c0c13c3118b76b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 074/105] fix: converting an empty string to CHAR reads beyond
 its end

---
 src/lib/libfunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 11f440a..ed2d09b 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -185,7 +185,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             if(mask) ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_CHAR:
-            if(instr[1] == 0) { /* One character */
+            if(instr[0] == 0 || instr[1] == 0) { /* One character */
                 ((dax_char *)buff)[index] = instr[0];
                 if(mask) ((dax_sint *)mask)[index] = 0xFF;
                 break;
-- 
2.43.0


From 2f3520c390c688fffa63f917f64bc8a78e4b351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 075/105] fix: dax_fqn() gives the wrong name for bits, first
 members and members after BOOLs

---
 src/lib/libcdt.c | 96 ++++++++++++++++++------------------------------
 1 file changed, 36 insertions(+), 60 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 8b47856..cae8c3d 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -915,87 +915,64 @@ struct _fqn_data {
     dax_state *ds;
     cdt_iter member;
     uint8_t done;
-    int byte_position;   /* current position within the cdt in bytes*/
-    int bit_position;    /* current position within the cdt in bits*/
-    int final_byte;      /* The final position in bytes*/
-    int final_bit;       /* The final position in bits*/
-
+    tag_type type;       /* The type that we are looking for */
+    long position;       /* current position within the tag in bits */
+    long final;          /* The final position in bits */
 };
 
 static void _fqn_callback(cdt_iter member, void *udata)
 {
-    int member_size;
+    long member_size;
     struct _fqn_data *data = (struct _fqn_data *)udata;
 
-
     if(! data->done) { /* We use this to indicate whether we've found it or not */
         if(member.type == DAX_BOOL) {
-            data->byte_position += member.count/8;
-            data->bit_position += member.count % 8;
-            if((data->byte_position * 8 + data->bit_position) > (data->final_byte * 8 + data->final_bit)) {
-                    /* We found it so stop looking and set the member to the struct */
-                    data->member = member;
-                    data->done = 1;
-                    /* Rewind back to before this call which would be the beginning position */
-                    data->byte_position -= member.count/8;
-                    data->bit_position -= member.count % 8;
-            }
+            member_size = member.count;
         } else { /* Not BOOL */
-            if(data->bit_position > 0) { /* If we have any bits left over from previous BOOLs */
-                data->bit_position = 0;
-                data->byte_position++;
-            }
-            member_size = member.count * dax_get_typesize(data->ds, member.type);
-            data->byte_position += member_size;
-            if(data->byte_position > data->final_byte) {
-                data->member = member;
-                data->done = 1;
-                data->byte_position -= member_size;
+            if(data->position % 8) { /* If we have any bits left over from previous BOOLs */
+                data->position += 8 - data->position % 8;
             }
+            member_size = (long)member.count * dax_get_typesize(data->ds, member.type) * 8;
+        }
+        if(data->position + member_size > data->final) {
+            /* We found it so stop looking and set the member to the struct */
+            data->member = member;
+            data->done = 1;
+        } else {
+            data->position += member_size;
         }
-
     }
 }
 
 static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn_data *data)
 {
-    int i;
+    long i, size;
     char temp[64];
     data->done = 0;
     dax_cdt_iter(ds, type, data, _fqn_callback);
+    if(! data->done) return;
 
     if(data->member.count > 1) {
-        if(data->member.type == DAX_BOOL) {
-            i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-        } else {
-            i = (data->final_byte - data->byte_position) / dax_get_typesize(ds, data->member.type);
-            data->byte_position += i * dax_get_typesize(ds, data->member.type);
-        }
-        snprintf(temp, FQN_TAG_SIZE, ".%s[%d]", data->member.name, i);
-        strncat(str, temp, FQN_TAG_SIZE);
+        size = data->member.type == DAX_BOOL ? 1 : dax_get_typesize(ds, data->member.type) * 8;
+        i = (data->final - data->position) / size;
+        data->position += i * size;
+        snprintf(temp, sizeof(temp), ".%s[%ld]", data->member.name, i);
     } else {
-        strncat(str, ".", FQN_TAG_SIZE);
-        strncat(str, data->member.name, FQN_TAG_SIZE);
+        snprintf(temp, sizeof(temp), ".%s", data->member.name);
     }
+    strncat(str, temp, FQN_TAG_SIZE - strlen(str) - 1);
     /* see if we need to go any further */
-    if(data->byte_position != data->final_byte || data->bit_position != data->final_bit) {
-        /* If the found member is custom then we have to dig some more */
-        if(IS_CUSTOM(data->member.type)) {
-            /* do it again; */
-            //data->byte_position += data->member.count * dax_get_typesize(ds, data->member.type);
+    if(IS_CUSTOM(data->member.type)) {
+        /* If the found member is custom then we may have to dig some more */
+        if(data->member.type != data->type) {
             _fqn_cdt_member(ds, str, data->member.type, data);
-        } else {
-            // do some other stuff
-            /* BOOLs should have already been handled with a [x] above, so here we add the .x to the end
-               if we have any bits left */
-            if(data->member.type != DAX_BOOL) {
-                i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-                snprintf(temp, FQN_TAG_SIZE, ".%d", i);
-                strncat(str, temp, FQN_TAG_SIZE);
-            }
         }
+    } else if(data->member.type != DAX_BOOL && data->type == DAX_BOOL) {
+        /* BOOLs should have already been handled with a [x] above, so here we add the .x to the end
+           if it's a bit within another type */
+        snprintf(temp, sizeof(temp), ".%ld", data->final - data->position);
+        strncat(str, temp, FQN_TAG_SIZE - strlen(str) - 1);
     }
-
 }
 
 /*!
@@ -1035,7 +1012,7 @@ dax_fqn(dax_state *ds, tag_handle h) {
     } else {
         ts = dax_get_typesize(ds, tag.type);
         assert(ts != 0);
-        if((tag.count > 1 && ( h.byte > 0 ||  h.count != tag.count))) {
+        if((tag.count > 1 && ( h.byte > 0 || h.type != tag.type || h.count != tag.count))) {
             i = h.byte / ts;
             snprintf(s, FQN_TAG_SIZE, "%s[%d]", tag.name, i);
         } else {
@@ -1047,15 +1024,14 @@ dax_fqn(dax_state *ds, tag_handle h) {
         if( IS_CUSTOM(tag.type) && h.type != tag.type) {
             struct _fqn_data data;
             data.ds = ds;
-            data.byte_position = offset;
-            data.bit_position = 0;
-            data.final_byte = h.byte;
-            data.final_bit = h.bit;
+            data.type = h.type;
+            data.position = (long)offset * 8;
+            data.final = (long)h.byte * 8 + h.bit;
 
             _fqn_cdt_member(ds, s, tag.type, &data);
         } else if(h.type == DAX_BOOL) {
             snprintf(d, 64, ".%d", h.bit + (h.byte - offset)*8);
-            strncat(s, d, FQN_TAG_SIZE);
+            strncat(s, d, FQN_TAG_SIZE - strlen(s) - 1);
         }
     }
 
-- 
2.43.0


From cb70cff9b176907a801e64b5de4fb5ed14ce800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 076/105] fix: threads that convert times to text at the same
 time get each other's time

---
 src/lib/libfunc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index ed2d09b..0ecafe2 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -47,7 +47,7 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
 {
     int ms;
     long int sec;
-    struct tm *tm;
+    struct tm *tm, tm_buff;
     char tstr[16];
 
     if(val==NULL) return ERR_EMPTY;
@@ -101,7 +101,7 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
                 sec--;
             }
             sprintf(tstr, ".%03d", ms);
-            tm = gmtime(&sec);
+            tm = gmtime_r(&sec, &tm_buff);
             /* The ones that have no date that we could read back are given as a number */
             if(tm == NULL || tm->tm_year > 9999 - 1900 || tm->tm_year < 0 - 1900 ||
                strftime(buff, size, "%FT%T", tm) == 0) {
-- 
2.43.0


From 95e49263fe2310c0b63aa04915475456a000b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 077/105] fix: a member of a base type in a tag address reads
 outside of the type cache

---
 src/lib/libcdt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index cae8c3d..b7a43c0 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -580,6 +580,7 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         return index;
     }
 
+    if(!IS_CUSTOM(lasttype)) return ERR_ARG; /* The base types have no members */
     if(dax_type_to_string(ds, lasttype) == NULL) {
         return ERR_NOTFOUND; /* This is a serious problem here */
     }
-- 
2.43.0


From c747050177c30084bf6e8ee521ef4ca7abfba263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:14 +0000
Subject: [PATCH 078/105] fix: BOOL queue tags with a multiple of eight bits
 can't be used through their handles

---
 src/server/tagbase.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 3eb4ba1..c83a1ea 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -124,7 +124,9 @@ _checktype(tag_type type)
 int
 tag_get_size(tag_index idx)
 {
-    if((_db[idx].type & ~DAX_QUEUE) == DAX_BOOL)
+    if(_db[idx].type == (DAX_BOOL | DAX_QUEUE)) /* The same size as the handles have */
+        return (_db[idx].count - 1) / 8 + 1;
+    else if(_db[idx].type == DAX_BOOL)
         return _db[idx].count / 8 + 1;
     else
         return type_size(_db[idx].type)  * _db[idx].count;
@@ -310,7 +312,7 @@ _queue_add(int idx, tag_type type, unsigned int count) {
         return ERR_ALLOC;
     }
     if((type & ~DAX_QUEUE) == DAX_BOOL) {
-        size = count / 8 + 1;
+        size = (count - 1) / 8 + 1;
     } else {
         size = type_size(type) * count;
     }
-- 
2.43.0


From f6c7bab2220876777f885c84f1803f018fe6fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:14 +0000
Subject: [PATCH 079/105] fix: dax_configure() returns garbage when there is no
 configuration file to read

---
 src/lib/libopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 526a041..4879e0b 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -552,7 +552,7 @@ int
 dax_configure(dax_state *ds, int argc, char **argv, int flags)
 {
     char *topics;
-    int result;
+    int result = 0;
 
     if(ds->modulename == NULL) {
         return ERR_NO_INIT;
-- 
2.43.0


From 1165df966e300e0e766f4e2fcb721b60cad1d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 080/105] fix: creating a datatype again is refused if its
 definition was not spelled like the server spells it

Names are compared without regard to case everywhere else, but the check
whether the datatype is the same as the existing one compared the text
literally: a definition that names a member's type in another case could
not be repeated, not even by the identical request.
---
 src/server/tagbase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index c83a1ea..1faff8e 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1074,7 +1074,7 @@ cdt_create(char *str, int *error) {
     }
     if((type = cdt_get_type(name))) {
         serial = NULL;
-        if(serialize_datatype(type, &serial) < 0 || strcmp(serial, str)) { /* This means the two CDT's are not equal */
+        if(serialize_datatype(type, &serial) < 0 || strcasecmp(serial, str)) { /* This means the two CDT's are not equal */
             if(error != NULL) *error = ERR_DUPL;
             type = 0;
         } else { /* If it's the same then just return it */
-- 
2.43.0


From 0296776415718abda77d08da6e667b1b2036ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 081/105] fix: Modbus slaves answer with arbitrary exceptions
 where no callback sets the result

---
 src/modules/modbus/modbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 27870b6..fa0e6cb 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -876,7 +876,7 @@ create_response(mb_port *port, unsigned char *buff, int size)
     uint16_t index, value, count;
     uint16_t data[128]; /* should be the largest Modbus data size */
     int word, bit, n;
-    int8_t result, retval;
+    int8_t result = 0, retval = 0;
     lua_State *L;
 
     node = buff[0]; /* Node Number */
-- 
2.43.0


From 381a26165e2e2007afa6861194782fc5a3c44682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 082/105] fix: the longest Modbus/TCP messages don't fit in the
 server's buffer

---
 src/modules/modbus/modbus.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 588e2c1..503dfcd 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -147,8 +147,9 @@
 
 /* Number of slave nodes allocated */
 #define MB_MAX_SLAVE_NODES 248
-/* Maximum size of the receive buffer */
-#define MB_BUFF_SIZE 256
+/* Maximum size of the receive buffer.  The largest message is the TCP one,
+ * 253 bytes of function code and data and a header of seven */
+#define MB_BUFF_SIZE 260
 /* Starting number of connections in the pool */
 #define MB_INIT_CONNECTION_SIZE 16
 /* Maximum number of connections that can be in the pool */
-- 
2.43.0


From 92802c9d39c6723ed82534257381a9197b36b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 083/105] fix: Modbus requests for too many registers, and ones
 that are too short, overrun the slave's buffers

---
 src/modules/modbus/mbserver.c |  2 +-
 src/modules/modbus/mbslave.c  |  2 +-
 src/modules/modbus/modbus.c   | 48 ++++++++++++++++++++++++++---------
 src/modules/modbus/modbus.h   |  8 +++++-
 4 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f41af70..f4160b4 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -147,7 +147,7 @@ _mb_read(mb_port *port, int fd)
                 port->in_callback(port, cc->buff, cc->buffindex);
             }
 
-            result = create_response(port, &(cc->buff[6]), MB_BUFF_SIZE - 6);
+            result = create_response(port, &(cc->buff[6]), cc->buffindex - 6, MB_BUFF_SIZE - 6);
             if(result > 0) { /* We have a response */
                 msgsize = result;
                 COPYWORD(&(cc->buff[4]), &msgsize);
diff --git a/src/modules/modbus/mbslave.c b/src/modules/modbus/mbslave.c
index 4af37c1..b175345 100644
--- a/src/modules/modbus/mbslave.c
+++ b/src/modules/modbus/mbslave.c
@@ -82,7 +82,7 @@ _mb_read(mb_port *port, int fd)
         /* Check the checksum here. */
         result = crc16check(buff, buffindex);
         if(result) {
-            result = create_response(port, buff, MB_BUFF_SIZE);
+            result = create_response(port, buff, buffindex - 2, MB_BUFF_SIZE - 2);
             if(result > 0) { /* We have a response */
                 checksum = crc16(buff, result);
                 COPYWORD(&(buff[result]), &checksum);
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index fa0e6cb..4786cb4 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -762,18 +762,24 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of disc/coils requested */
 
     if(mbreg == MB_REG_COIL) {
-        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->coil_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->disc_size;
     }
 
+    if((index + count) > regsize) {
+        return _create_exception(buff, ME_BAD_ADDRESS);
+    }
+    if(count < 1 || count > MB_MAX_READ_BITS) {
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
     if(((count - 1)/8+1) > (size - 3)) { /* Make sure we have enough room */
         return MB_ERR_OVERFLOW;
     }
-    if((index + count) > regsize) {
-        return _create_exception(buff, ME_BAD_ADDRESS);
+    if(mbreg == MB_REG_COIL) {
+        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
+    } else {
+        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
     }
     buff[2] = (count - 1)/8+1;
 
@@ -812,18 +818,24 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of words/coils */
 
     if(mbreg == MB_REG_HOLDING) {
-        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->hold_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->input_size;
     }
 
+    if((index + count) > regsize) {
+        return _create_exception(buff, ME_BAD_ADDRESS);
+    }
+    if(count < 1 || count > MB_MAX_READ_WORDS) {
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
     if((count * 2) > (size - 3)) { /* Make sure we have enough room */
         return MB_ERR_OVERFLOW;
     }
-    if((index + count) > regsize) {
-        return _create_exception(buff, ME_BAD_ADDRESS);
+    if(mbreg == MB_REG_HOLDING) {
+        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
+    } else {
+        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
     }
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
@@ -866,11 +878,11 @@ _check_function_code_exception(mb_port *port, int nodeid, uint8_t function) {
 
 /* Creates a generic slave response.  buff should point to a buffer that
  * looks like an RTU request without the checksum.  This function will generate
- * an RTU response message, and write that back into buff.  size is the total
- * size that we can write into buff.  Returns positive number of bytes written, zero
+ * an RTU response message, and write that back into buff.  len is the length
+ * of the request and size is the total size that we can write into buff.  Returns positive number of bytes written, zero
  * if no bytes written and negative error code if there is a problem. */
 int
-create_response(mb_port *port, unsigned char *buff, int size)
+create_response(mb_port *port, unsigned char *buff, int len, int size)
 {
     uint8_t node, function;
     uint16_t index, value, count;
@@ -879,6 +891,7 @@ create_response(mb_port *port, unsigned char *buff, int size)
     int8_t result = 0, retval = 0;
     lua_State *L;
 
+    if(len < 2) return 0; /* Not even a function code */
     node = buff[0]; /* Node Number */
     function = buff[1]; /* Modbus Function Code */
 
@@ -890,6 +903,11 @@ create_response(mb_port *port, unsigned char *buff, int size)
         }
     }
 
+    /* All of the functions that deal with registers start with two words */
+    if(len < 6 && ((function >= 1 && function <= 6) || function == 15 || function == 16)) {
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
+
     if(port->nodes[node]->read_callback != LUA_REFNIL) {
         if(function == 1 || function == 2 || function == 3 || function == 4)  {
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
@@ -953,13 +971,16 @@ create_response(mb_port *port, unsigned char *buff, int size)
             retval = 6;
             break;
         case 8:
-            return size / 2;
+            return len;
         case 15: /* Write Multiple Coils */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
             if((index + count) > port->nodes[node]->coil_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(count < 1 || count > MB_MAX_WRITE_BITS || len < 7 + (count - 1) / 8 + 1) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             word = 0;
             bit = 0;
             for(n = 0; n < count; n++) {
@@ -980,6 +1001,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
             if((index + count) > port->nodes[node]->hold_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(count < 1 || count > MB_MAX_WRITE_WORDS || len < 7 + count * 2) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 503dfcd..cc2b40d 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -96,6 +96,7 @@
 #define ME_EXCEPTION      0x80
 #define ME_WRONG_FUNCTION 1
 #define ME_BAD_ADDRESS    2
+#define ME_BAD_VALUE      3
 #define ME_WRONG_DEVICE   3
 #define ME_CHECKSUM       4
 #define ME_TIMEOUT        8
@@ -150,6 +151,11 @@
 /* Maximum size of the receive buffer.  The largest message is the TCP one,
  * 253 bytes of function code and data and a header of seven */
 #define MB_BUFF_SIZE 260
+/* The largest number of bits or registers in one message */
+#define MB_MAX_READ_BITS 2000
+#define MB_MAX_READ_WORDS 125
+#define MB_MAX_WRITE_BITS 1968
+#define MB_MAX_WRITE_WORDS 123
 /* Starting number of connections in the pool */
 #define MB_INIT_CONNECTION_SIZE 16
 /* Maximum number of connections that can be in the pool */
@@ -337,7 +343,7 @@ int server_loop(mb_port *port);
 int slave_loop(mb_port *port);
 
 /* Protocol Functions - defined in modbus.c */
-int create_response(mb_port * port, unsigned char *buff, int size);
+int create_response(mb_port * port, unsigned char *buff, int len, int size);
 
 /* Utility Functions - defined in modutil.c */
 uint16_t crc16(unsigned char *msg, unsigned short length);
-- 
2.43.0


From b75e1534a24d61fbaeb753a6fbcd9f3d57f8fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 084/105] fix: a Modbus client that resets its connection ends
 the whole server port

---
 src/modules/modbus/mbserver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f4160b4..b758405 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -126,7 +126,8 @@ _mb_read(mb_port *port, int fd)
     size = 100;
     result = read(fd, buff, size);
     if(result < 0) {
-        return MB_ERR_RECV_FAIL;
+        dax_log(DAX_LOG_ERROR, "Error reading fd %d - %s", fd, strerror(errno));
+        return MB_ERR_NO_SOCKET; /* Only this connection has failed */
     } if(result == 0) { /* EOF means the other guy is closed */
         return MB_ERR_NO_SOCKET;
     }
-- 
2.43.0


From 4f03ab302f995f77c76f3c25fc29895f41f5d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 085/105] fix: Modbus server connections get stuck after
 messages that are too long or not answered

---
 src/modules/modbus/mbserver.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index b758405..b52b38d 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -156,8 +156,9 @@ _mb_read(mb_port *port, int fd)
                     port->out_callback(port, cc->buff, result + 6);
                 }
                 write(cc->fd, cc->buff, result + 6);
-                cc->buffindex = 0;
-            } else if(result < 0) {
+            }
+            cc->buffindex = 0; /* Whether it was answered or not we are done with this one */
+            if(result < 0) {
                 dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
                 return result;
             }
@@ -252,6 +253,9 @@ _receive(mb_port *port)
                     if(result == MB_ERR_NO_SOCKET) { /* This is the end of file */
                         dax_log(DAX_LOG_MAJOR, "Disconnected socket on fd %d", n);
                         _del_connection(port, n);
+                    } else if(result == MB_ERR_OVERFLOW) { /* We don't know where the next message starts */
+                        dax_log(DAX_LOG_ERROR, "Buffer Overflow Attempt on fd %d", n);
+                        _del_connection(port, n);
                     } else if(result < 0) {
                         return result; /* Pass the error up */
                     }
-- 
2.43.0


From e778ee8ae369ed24ce214c65b408cf00ef154178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 086/105] fix: Modbus slaves answer with memory contents if a
 register's tag can't be read, and acknowledge writes that failed

---
 src/modules/modbus/database.c |  8 +++++---
 src/modules/modbus/database.h |  4 ++--
 src/modules/modbus/modbus.c   | 30 ++++++++++++++++++++----------
 src/modules/modbus/modbus.h   |  1 +
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/modules/modbus/database.c b/src/modules/modbus/database.c
index 93f72be..67636b4 100644
--- a/src/modules/modbus/database.c
+++ b/src/modules/modbus/database.c
@@ -22,7 +22,7 @@
 extern dax_state *ds;
 
 
-void
+int
 slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data)
 {
     int result;
@@ -70,10 +70,11 @@ slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *da
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
     }
+    return result;
 }
 
 
-void
+int
 slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data) {
     int result;
     tag_handle h;
@@ -117,7 +118,8 @@ slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *dat
     }
     result = dax_read_tag(ds, h, data);
     if(result) {
-        dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
+        dax_log(DAX_LOG_ERROR, "Unable to read tag data from server\n");
     }
+    return result;
 }
 
diff --git a/src/modules/modbus/database.h b/src/modules/modbus/database.h
index 2734c8a..c47f78f 100644
--- a/src/modules/modbus/database.h
+++ b/src/modules/modbus/database.h
@@ -26,7 +26,7 @@
 #include <modopt.h>
 #include <modbus.h>
 
-void slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
-void slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
 
 #endif
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 4786cb4..b7a2da6 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -753,7 +753,7 @@ _create_exception(unsigned char *buff, uint16_t exception)
 static int
 _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, int mbreg)
 {
-    int n, bit, word, buffbit, buffbyte;
+    int n, bit, word, buffbit, buffbyte, result;
     unsigned int regsize;
     uint16_t index, count;
     uint16_t reg[150];
@@ -777,9 +777,12 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
         return MB_ERR_OVERFLOW;
     }
     if(mbreg == MB_REG_COIL) {
-        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
+        result = slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
     } else {
-        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
+        result = slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
+    }
+    if(result) {
+        return _create_exception(buff, ME_DEVICE_FAIL);
     }
     buff[2] = (count - 1)/8+1;
 
@@ -809,7 +812,7 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
 static int
 _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, int mbreg)
 {
-    int n;
+    int n, result;
     unsigned int regsize;
     uint16_t index, count;
     uint16_t reg[150]; /* This is where we will store the data */
@@ -833,9 +836,12 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
         return MB_ERR_OVERFLOW;
     }
     if(mbreg == MB_REG_HOLDING) {
-        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
+        result = slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
     } else {
-        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
+        result = slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
+    }
+    if(result) {
+        return _create_exception(buff, ME_DEVICE_FAIL);
     }
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
@@ -889,6 +895,7 @@ create_response(mb_port *port, unsigned char *buff, int len, int size)
     uint16_t data[128]; /* should be the largest Modbus data size */
     int word, bit, n;
     int8_t result = 0, retval = 0;
+    int status = 0;
     lua_State *L;
 
     if(len < 2) return 0; /* Not even a function code */
@@ -957,7 +964,7 @@ create_response(mb_port *port, unsigned char *buff, int len, int size)
             } else {
                 data[0] = 0x00;
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data);
+            status = slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data);
             retval = 6;
             break;
         case 6: /* Write Single Register */
@@ -967,7 +974,7 @@ create_response(mb_port *port, unsigned char *buff, int len, int size)
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
             data[0] = value;
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data);
+            status = slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data);
             retval = 6;
             break;
         case 8:
@@ -992,7 +999,7 @@ create_response(mb_port *port, unsigned char *buff, int len, int size)
                 bit++;
                 if(bit == 16) { bit = 0; word++; }
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data);
+            status = slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data);
             retval = 6;
             break;
         case 16: /* Write Multiple Registers */
@@ -1007,13 +1014,16 @@ create_response(mb_port *port, unsigned char *buff, int len, int size)
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data);
+            status = slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data);
             retval = 6;
             break;
         default:
             break;
     }
 
+    if(status) { /* The tag could not be written */
+        return _create_exception(buff, ME_DEVICE_FAIL);
+    }
     /* We should only get this far if we have had a successful write response created*/
     if(port->nodes[node]->write_callback != LUA_REFNIL) {
         if(function == 5 || function == 6 || function == 15 || function == 16)  {
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index cc2b40d..eb12620 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -97,6 +97,7 @@
 #define ME_WRONG_FUNCTION 1
 #define ME_BAD_ADDRESS    2
 #define ME_BAD_VALUE      3
+#define ME_DEVICE_FAIL    4
 #define ME_WRONG_DEVICE   3
 #define ME_CHECKSUM       4
 #define ME_TIMEOUT        8
-- 
2.43.0


From 12545bb7a860b431576980c45d205e29a4d3e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 087/105] fix: Modbus slaves pad answers with bits of the
 request

The bits of the last byte that are not asked for are what the request had
there.  They have to be zero.
---
 src/modules/modbus/modbus.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index b7a2da6..019e1c7 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -791,6 +791,7 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     buffbit = 0;
     buffbyte = 3;
     for(n = 0; n < count; n++) {
+        if(buffbit == 0) buff[buffbyte] = 0x00; /* The bits that are left over are zero */
         if(reg[word] & (0x01 << bit)) {
             buff[buffbyte] |= (0x01 << buffbit);
         } else {
-- 
2.43.0


From 8bca130c592512d283dbf397563a30cde697a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 088/105] fix: Lua reads of REAL tags lost the fraction

---
 src/lib/lua/libdaxlua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 5e08c39..d0764b6 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -64,7 +64,7 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
             lua_pushinteger(L, (lua_Integer)*((dax_dint *)buff));
             break;
         case DAX_REAL:
-            lua_pushnumber(L, (lua_Integer)*((dax_real *)buff));
+            lua_pushnumber(L, *((dax_real *)buff));
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-- 
2.43.0


From 2cdd541066d86ab1f14836101f52c0734cd81fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 089/105] fix: Lua reads of LWORD and ULINT tags lost bits of
 large values

---
 src/lib/lua/libdaxlua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index d0764b6..7e2acde 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -68,7 +68,7 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            lua_pushnumber(L, (lua_Integer)*((dax_ulint *)buff));
+            lua_pushinteger(L, (lua_Integer)*((dax_ulint *)buff));
             break;
         case DAX_TIME:
         case DAX_LINT:
-- 
2.43.0


From 94af902a9ae33002743063a9a949386ef9ce42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 090/105] fix: Lua writes to integer tags lost bits of large
 values and fractions became zero

---
 src/lib/lua/libdaxlua.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 7e2acde..aaf0ef9 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -213,43 +213,56 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
 
 /* Here begin the tag writing functions.  */
 
+/* Retrieves the number at the given index of the stack as an integer.  A
+ * fraction is cut off.  lua_tointeger() would return zero for these */
+static inline int64_t
+_to_integer(lua_State *L, int index)
+{
+    int isnum;
+    int64_t i;
+    lua_Number x;
+
+    i = lua_tointegerx(L, index, &isnum);
+    if(isnum) return i;
+    x = lua_tonumber(L, index);
+    if(x >= -9223372036854775808.0 && x < 9223372036854775808.0) return (int64_t)x;
+    if(x > 0.0 && x < 18446744073709551616.0) return (int64_t)(uint64_t)x;
+    return 0;
+}
+
 /* Takes the Lua value at the top of the stack, converts it and places it
  * in the proper place in data.  The mask is set as well.  */
 static inline void
 _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int index)
 {
-    lua_Integer x;
-
     assert(mask != NULL);
     switch (type) {
         case DAX_BYTE:
-            x = lua_tointeger(L, -1) % 256;
-            ((dax_byte *)data)[index] = x;
+            ((dax_byte *)data)[index] = _to_integer(L, -1);
             ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_SINT:
         case DAX_CHAR:
-            x = lua_tointeger(L, -1) % 256;
-            ((dax_sint *)data)[index] = x;
+            ((dax_sint *)data)[index] = _to_integer(L, -1);
             ((dax_sint *)mask)[index] = 0xFF;
             break;
         case DAX_WORD:
         case DAX_UINT:
-            ((dax_uint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_uint *)data)[index] = _to_integer(L, -1);
             ((dax_uint *)mask)[index] = 0xFFFF;
             break;
         case DAX_INT:
-            ((dax_int *)data)[index] = lua_tonumber(L, -1);
+            ((dax_int *)data)[index] = _to_integer(L, -1);
             ((dax_int *)mask)[index] = 0xFFFF;
             break;
         case DAX_DWORD:
         case DAX_UDINT:
         case DAX_TIME:
-            ((dax_udint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_udint *)data)[index] = _to_integer(L, -1);
             ((dax_udint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_DINT:
-            ((dax_dint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_dint *)data)[index] = _to_integer(L, -1);
             ((dax_dint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_REAL:
@@ -258,11 +271,11 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            ((dax_ulint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_ulint *)data)[index] = _to_integer(L, -1);
             ((dax_ulint *)mask)[index] = DAX_64_ONES;
             break;
         case DAX_LINT:
-            ((dax_lint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_lint *)data)[index] = _to_integer(L, -1);
             ((dax_lint *)mask)[index] = DAX_64_ONES;
             break;
         case DAX_LREAL:
-- 
2.43.0


From 6354c659eff8e3a4546038d2d1f8f64c885725ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 091/105] fix: Lua writes to TIME tags only wrote 32 of the 64
 bits

---
 src/lib/lua/libdaxlua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index aaf0ef9..c304843 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -257,7 +257,6 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             break;
         case DAX_DWORD:
         case DAX_UDINT:
-        case DAX_TIME:
             ((dax_udint *)data)[index] = _to_integer(L, -1);
             ((dax_udint *)mask)[index] = 0xFFFFFFFF;
             break;
@@ -274,6 +273,7 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             ((dax_ulint *)data)[index] = _to_integer(L, -1);
             ((dax_ulint *)mask)[index] = DAX_64_ONES;
             break;
+        case DAX_TIME:
         case DAX_LINT:
             ((dax_lint *)data)[index] = _to_integer(L, -1);
             ((dax_lint *)mask)[index] = DAX_64_ONES;
-- 
2.43.0


From 37d04c24adb7ece4f390aa4848afe488b268ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 092/105] fix: the data of Lua events lost bits of 64 bit types

---
 src/lib/lua/libdaxlua.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index c304843..fef5d55 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -931,51 +931,53 @@ _get_event_type(char *str) {
     }
 }
 
-/* Converts the lua_Number that we would get off of the Lua stack into
+/* Converts the number at the given index of the Lua stack into
  * the proper datatype for DAX.  The pointer that is returned in **data
  * will wind up pointing to a static member within this function.  This
  * is not a general use function for this reason and it is not re-entrant
  * or thread safe. */
 static inline void
-_convert_lua_number(tag_type datatype, void **data, lua_Number x) {
+_convert_lua_number(lua_State *L, int index, tag_type datatype, void **data) {
     static dax_type_union u1;
+    int64_t i = _to_integer(L, index);
+    lua_Number x = lua_tonumber(L, index);
 
     switch(datatype) {
         case DAX_BYTE:
-            u1.dax_byte = (dax_byte)x;
+            u1.dax_byte = (dax_byte)i;
             *data = &u1.dax_byte;
             return;
         case DAX_SINT:
         case DAX_CHAR:
-            u1.dax_sint = (dax_sint)x;
+            u1.dax_sint = (dax_sint)i;
             *data = &u1.dax_sint;
             return;
         case DAX_UINT:
         case DAX_WORD:
-            u1.dax_uint = (dax_uint)x;
+            u1.dax_uint = (dax_uint)i;
             *data = &u1.dax_uint;
             return;
         case DAX_INT:
-            u1.dax_int = (dax_int)x;
+            u1.dax_int = (dax_int)i;
             *data = &u1.dax_int;
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            u1.dax_udint = (dax_udint)x;
+            u1.dax_udint = (dax_udint)i;
             *data = &u1.dax_udint;
             return;
         case DAX_DINT:
-            u1.dax_dint = (dax_dint)x;
+            u1.dax_dint = (dax_dint)i;
             *data = &u1.dax_dint;
             return;
         case DAX_ULINT:
         case DAX_LWORD:
-            u1.dax_ulint = (dax_ulint)x;
+            u1.dax_ulint = (dax_ulint)i;
             *data = &u1.dax_ulint;
             return;
+        case DAX_TIME:
         case DAX_LINT:
-            u1.dax_lint = (dax_lint)x;
+            u1.dax_lint = (dax_lint)i;
             *data = &u1.dax_lint;
             return;
         case DAX_REAL:
@@ -1006,7 +1008,6 @@ static int
 _event_add(lua_State *L) {
     char *str;
     int count, type, result;
-    lua_Number number;
     tag_handle h;
     event_ref_data *edata;
     dax_id id;
@@ -1042,8 +1043,7 @@ _event_add(lua_State *L) {
         luaL_error(L, "%s is not a valid event type", str);
     }
     /* Get the data that we need for < > = and deadband events. */
-    number = lua_tonumber(L, 4);
-    _convert_lua_number(h.type, &data, number);
+    _convert_lua_number(L, 4, h.type, &data);
     /* The data that was passed is actually at the top of the stack */
     edata->data = luaL_ref(L, LUA_REGISTRYINDEX); /* Also pops the value */
     /* Now the function should be at the top of the stack */
-- 
2.43.0


From cb570c24149253f7675b587120c18d7460a3a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 093/105] fix: strings written to tags from Lua overran BOOL
 arrays and sent uninitialized memory

---
 src/lib/lua/libdaxlua.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index fef5d55..e0c106b 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -296,8 +296,9 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
     const char *s;
 
     if(tag.count > 1) { /* The tag is an array */
-        if(lua_type(L, -1) == LUA_TSTRING) {
+        if(lua_type(L, -1) == LUA_TSTRING && tag.type != DAX_BOOL && TYPESIZE(tag.type) == 8) {
             s = lua_tolstring(L, -1, &len);
+            memset(data, 0x00, tag.count);
             memcpy(data, s, tag.count<len ? tag.count : len);
             memset(mask, 0xFF, tag.count); /* Change it all */
         } else {
-- 
2.43.0


From dcba007a5f7871c22a81efb74e944a0d7d31bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 094/105] fix: writing a wrong value to a member of a compound
 tag from Lua crashed

---
 src/lib/lua/libdaxlua.c | 64 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index e0c106b..389e3ed 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -358,35 +358,39 @@ _write_callback(cdt_iter member, void *udata)
     unsigned char *mask = ((struct iter_udata *)udata)->mask;
     int offset, n, result = 0;
 
+    /* If there has already been an error, the message is at the top of the stack */
+    if(((struct iter_udata *)udata)->error) return;
+
+    lua_pushstring(L, member.name);
+    lua_rawget(L, -2);
     if(IS_CUSTOM(member.type)) {
         newdata.L = L;
         newdata.error = 0;
-        lua_pushstring(L, member.name);
-        lua_rawget(L, -2);
         if(member.count > 1) {
-            for(n = 0;n < member.count; n++) {
-                offset = member.byte + (n * dax_get_typesize(ds, member.type));
-                newdata.data = (char *)data + offset;
-                newdata.mask = (char *)mask + offset;
+            if(! lua_isnil(L, -1)) {
                 if( ! lua_istable(L, -1) ) {
                     lua_pushfstring(L, "Table needed to set - %s", member.name);
-                    ((struct iter_udata *)udata)->error = -1;
-                    return;
+                    newdata.error = -1;
                 }
-                lua_rawgeti(L, -1, n+1);
-                if(! lua_isnil(L, -1)) {
-                    if( ! lua_istable(L, -1) ) {
+                for(n = 0;n < member.count && newdata.error == 0; n++) {
+                    offset = member.byte + (n * dax_get_typesize(ds, member.type));
+                    newdata.data = (char *)data + offset;
+                    newdata.mask = (char *)mask + offset;
+                    lua_rawgeti(L, -1, n+1);
+                    if(! lua_isnil(L, -1)) {
+                        if( ! lua_istable(L, -1) ) {
+                            lua_pushfstring(L, "Table needed to set - %s", member.name);
+                            newdata.error = -1;
+                        } else {
+                            dax_cdt_iter(ds, member.type, &newdata , _write_callback);
+                        }
+                    }
+                    /* Leave the error message where it is */
+                    if(newdata.error) {
+                        lua_remove(L, -2);
+                    } else {
                         lua_pop(L, 1);
-                        lua_pushfstring(L, "Table needed to set - %s", member.name);
-                        ((struct iter_udata *)udata)->error = -1;
-                        return;
                     }
-                    dax_cdt_iter(ds, member.type, &newdata , _write_callback);
-                }
-                lua_pop(L, 1);
-                if(newdata.error) {
-                    ((struct iter_udata *)udata)->error = newdata.error;
-                    return;
                 }
             }
         } else {
@@ -395,27 +399,23 @@ _write_callback(cdt_iter member, void *udata)
             if(! lua_isnil(L, -1)) {
                 if( ! lua_istable(L, -1) ) {
                     lua_pushfstring(L, "Table needed to set - %s", member.name);
-                    ((struct iter_udata *)udata)->error = -1;
-                    return;
+                    newdata.error = -1;
+                } else {
+                    dax_cdt_iter(ds, member.type, &newdata, _write_callback);
                 }
-                dax_cdt_iter(ds, member.type, &newdata, _write_callback);
-            }
-            if(newdata.error) {
-                ((struct iter_udata *)udata)->error = newdata.error;
-                return;
             }
         }
-        lua_pop(L, 1);
+        result = newdata.error;
     } else {
-        lua_pushstring(L, member.name);
-        lua_rawget(L, -2);
         if(! lua_isnil(L, -1)) {
             result = _pop_base_datatype(L, member, data + member.byte, mask + member.byte);
         }
-        lua_pop(L, 1);
     }
     if(result) {
         ((struct iter_udata *)udata)->error = result;
+        lua_remove(L, -2); /* The value, the error message stays */
+    } else {
+        lua_pop(L, 1);
     }
 }
 
@@ -457,10 +457,10 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
                     }
                     dax_cdt_iter(ds, h.type, &udata , _write_callback);
                 }
-                lua_pop(L, 1);
                 if(udata.error) {
                     return udata.error;
                 }
+                lua_pop(L, 1);
             }
         } else { /* Only one CDT */
             udata.data = data;
-- 
2.43.0


From dcf7b0e26b425a8268319cb657f6ee0952aa7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 095/105] fix: Lua could neither read nor write queues

---
 src/lib/lua/libdaxlua.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 389e3ed..b4132f5 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -187,6 +187,7 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
     udata.data = data;
     udata.mask = NULL;
     udata.error = 0;
+    h.type &= ~DAX_QUEUE; /* What is in a queue are values of the type */
 
     if(IS_CUSTOM(h.type)) {
         lua_newtable(L);
@@ -436,6 +437,7 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
     struct iter_udata udata;
     int n, offset;
 
+    h.type &= ~DAX_QUEUE; /* What is in a queue are values of the type */
     if(IS_CUSTOM(h.type)) {
         udata.L = L;
         udata.error = 0;
-- 
2.43.0


From ff794cf1e99e836249bdeb1608bfd3ecb421a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 096/105] fix: tag_del() of an unknown tag in Lua deleted a
 random one

---
 src/lib/lua/libdaxlua.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index b4132f5..f5e65b5 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -877,6 +877,9 @@ _tag_del(lua_State *L) {
     } else {
         result = dax_tag_byname(ds, &tag, (char *)lua_tostring(L, 1));
     }
+    if(result) {
+        luaL_error(L, "Can't get tag '%s'", (char *)lua_tostring(L, 1));
+    }
 
     result = dax_tag_del(ds, tag.idx);
     if(result) {
-- 
2.43.0


From 02eb8d65225094e268d86e0767d8bcc11e987175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 097/105] fix: cdt_create() in Lua crashed if the name or a
 member is not what it should be

---
 src/lib/lua/libdaxlua.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index f5e65b5..9be7976 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -597,20 +597,26 @@ _cdt_create(lua_State *L)
         luaL_error(L, "Wrong number of arguments to cdt_create()");
     }
     cdt_name = (char *)lua_tostring(L, 1);
+    if(cdt_name == NULL) {
+        luaL_error(L, "Name of the datatype not given");
+    }
+    if(! lua_istable(L, 2) ) {
+        luaL_error(L, "Should pass a table to cdt_create()");
+    }
     cdt = dax_cdt_new(cdt_name, NULL);
 
     if(cdt == 0) {
         luaL_error(L, "Unable to create datatype %s", lua_tostring(L, 1));
     }
 
-    if(! lua_istable(L, 2) ) {
-        luaL_error(L, "Should pass a table to tag_handle_test()");
-    }
-
     while(1) {
         /* Get the table from the argument */
         lua_rawgeti(L, 2, n++);
         if(lua_isnil(L, -1)) break;
+        if(! lua_istable(L, -1)) {
+            dax_cdt_free(cdt);
+            luaL_error(L, "Members should be tables");
+        }
         lua_rawgeti(L, 3, 1);
         name = (char *)lua_tostring(L, -1);
         lua_rawgeti(L, 3, 2);
@@ -618,6 +624,10 @@ _cdt_create(lua_State *L)
         lua_rawgeti(L, 3, 3);
         count = lua_tointeger(L, -1);
         lua_pop(L, 4);
+        if(name == NULL || typename == NULL) {
+            dax_cdt_free(cdt);
+            luaL_error(L, "Members should have a name and a type");
+        }
 
         result = dax_cdt_member(ds, cdt, name, dax_string_to_type(ds, typename), count);
         if(result) {
-- 
2.43.0


From b09c8cf07c31f9cdf83ba5979eb0d31c78653d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 098/105] fix: event_add() and event_del() in Lua accepted
 wrong arguments or crashed

---
 src/lib/lua/libdaxlua.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 9be7976..d9d30e5 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -1032,12 +1032,8 @@ _event_add(lua_State *L) {
     if(lua_gettop(L) != 6) {
         luaL_error(L, "Wrong number of arguments passed to event_add()");
     }
-    if(lua_isnil(L, 5) || lua_tonumber(L, 5) == 0) {
-
-    } else {
-        if(!lua_isfunction(L, 5)) {
-            luaL_error(L, "Argument 5 to event_add() should be a function");
-        }
+    if(!lua_isfunction(L, 5)) {
+        luaL_error(L, "Argument 5 to event_add() should be a function");
     }
     edata = malloc(sizeof(event_ref_data));
     if(edata == NULL) {
@@ -1053,7 +1049,7 @@ _event_add(lua_State *L) {
     }
     /* Get the event type and any number */
     str = (char *)lua_tostring(L, 3);
-    type = _get_event_type(str);
+    type = str == NULL ? ERR_ARG : _get_event_type(str);
     if(type < 0) {
         free(edata);
         luaL_error(L, "%s is not a valid event type", str);
@@ -1093,7 +1089,9 @@ _event_del(lua_State *L) {
     lua_rawgeti(L, 1, 2); /* Get the id from the table */
     id.id = lua_tointeger(L, -1);
 
-    dax_event_del(ds, id);
+    if(dax_event_del(ds, id)) {
+        luaL_error(L, "Unable to delete event");
+    }
     return 0;
 }
 
-- 
2.43.0


From 61e79a73bc84be92d54dc7c56852e9a0e8402cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 099/105] fix: events added from within a coroutine in Lua used
 its stack after it was gone

---
 src/lib/lua/libdaxlua.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index d9d30e5..4bd5263 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -1060,7 +1060,10 @@ _event_add(lua_State *L) {
     edata->data = luaL_ref(L, LUA_REGISTRYINDEX); /* Also pops the value */
     /* Now the function should be at the top of the stack */
     edata->function = luaL_ref(L, LUA_REGISTRYINDEX);
-    edata->L = L; /* We'll need this later */
+    /* The thread that we are called from may be gone when the event happens */
+    lua_rawgeti(L, LUA_REGISTRYINDEX, LUA_RIDX_MAINTHREAD);
+    edata->L = lua_tothread(L, -1); /* We'll need this later */
+    lua_pop(L, 1);
     result = dax_event_add(ds, &h, type, data, &id, _event_callback, edata, NULL);
     if(result) {
         free(edata);
-- 
2.43.0


From 9f456f12ce63dde6de38b9ea1ad5b20a8eeaf579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 100/105] fix: atomic_op() and override_add() in Lua sent
 uninitialized memory

---
 src/lib/lua/libdaxlua.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 4bd5263..baaf23a 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -1157,7 +1157,7 @@ _atomic_op(lua_State *L) {
     if(ds == NULL) {
         luaL_error(L, "OpenDAX is not initialized");
     }
-    if(lua_gettop(L) < 1 || lua_gettop(L) > 3) {
+    if(lua_gettop(L) != 3) {
         luaL_error(L, "Wrong number of arguments passed to atomic_op()");
     }
     if(lua_isuserdata(L, 1)) {
@@ -1181,6 +1181,7 @@ _atomic_op(lua_State *L) {
         free(data);
         luaL_error(L, "atomic_op() unable to allocate mask memory");
     }
+    bzero(data, hp->size);
     bzero(mask, hp->size);
     operation = lua_tointeger(L, 3);
     lua_pop(L, 1);
@@ -1192,6 +1193,8 @@ _atomic_op(lua_State *L) {
         lua_error(L); /* The error message should already be on top of the stack */
     }
     result = dax_atomic_op(ds, *hp, data, operation);
+    free(data);
+    free(mask);
     if(result) {
         luaL_error(L, "atomic_op returned %d", result);
     }
@@ -1350,6 +1353,7 @@ _override_add(lua_State *L) {
         free(data);
         luaL_error(L, "dax_tag_add_override() unable to allocate mask memory");
     }
+    bzero(data, hp->size);
     bzero(mask, hp->size);
 
     result = daxlua_lua_to_dax(L, *hp, data, mask);
-- 
2.43.0


From dba6b62238a9e239bdac9f7ee77f635f78cf7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 101/105] fix: log() in Lua took the message for a format
 string

---
 src/lib/lua/libdaxlua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index baaf23a..287dede 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -1521,7 +1521,7 @@ _log(lua_State *L) {
     if(result) {
         str = lua_tostring(L, 2);
         if(str!= NULL) {
-            dax_log(log_topics, str);
+            dax_log(log_topics, "%s", str);
         } else {
             luaL_error(L, "Problem with string passed to log()");
         }
-- 
2.43.0


From 21cd62a1abbe6beae762a62c3cf5c50d418933e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 102/105] fix: Lua functions used the connection after free()
 or before init()

---
 src/lib/lua/libdaxlua.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 287dede..3171544 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -568,10 +568,14 @@ _dax_init(lua_State *L)
 static int
 _dax_free(lua_State *L)
 {
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
     if( dax_disconnect(ds) ) {
         luaL_error(L, "Problem Unregistering from the server");
     }
     dax_free(ds);
+    ds = NULL;
     return 0;
 }
 
@@ -1029,6 +1033,9 @@ _event_add(lua_State *L) {
     dax_id id;
     void *data;
 
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
     if(lua_gettop(L) != 6) {
         luaL_error(L, "Wrong number of arguments passed to event_add()");
     }
@@ -1084,6 +1091,9 @@ static int
 _event_del(lua_State *L) {
     dax_id id;
 
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
     if(!lua_istable(L, 1)) {
         luaL_error(L, "Wrong type of argument passed to event_del()");
     }
@@ -1106,6 +1116,9 @@ _event_wait(lua_State *L) {
     int result;
     int timeout;
 
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
     if(lua_gettop(L) == 0) {
         timeout = 0;
     } else if (lua_gettop(L) ==1) {
@@ -1131,6 +1144,9 @@ static int
 _event_poll(lua_State *L) {
     int result;
 
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
     result = dax_event_poll(ds, NULL);
 
     if(result == ERR_NOTFOUND) {
-- 
2.43.0


From 45f437b65e1e54c299b366dc89e564715cfdc936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 103/105] fix: indexing a handle in Lua with anything but a
 string crashed

---
 src/lib/lua/libdaxlua.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 3171544..8eb516c 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -1726,7 +1726,9 @@ _handle_index(lua_State *L) {
     }
     name = lua_tostring(L, 2);
 
-    if(strcmp(name, "index") == 0) {
+    if(name == NULL) {
+        lua_pushnil(L);
+    } else if(strcmp(name, "index") == 0) {
         lua_pushinteger(L, h->index);
     } else if(strcmp(name, "byte") == 0) {
         lua_pushinteger(L, h->byte);
-- 
2.43.0


From 2d9241dfdbb41e46583c61adbd0f65c6ef9fe7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 104/105] fix: the logger kept a pointer to the name of the
 module that the caller may free

---
 src/lib/logger/daxlog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 6e10e65..bc1528a 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -30,7 +30,7 @@
 /* This is the default log topic mask.  This is used if no other
  * logging services are configured. */
 static uint32_t _default_topics = DAX_LOG_FATAL | DAX_LOG_ERROR;
-static const char *_name;
+static char *_name; /* our own copy of the name */
 
 static void (*_topic_callback)(char *topic);
 static service_item _services[SERVICE_LIST_SIZE];
@@ -206,7 +206,12 @@ int
 dax_init_logger(const char *name, uint32_t topics) {
     /* The name may be used for some loggin services. */
     if(name != NULL) {
-        _name = name;
+        char *copy = strdup(name); /* the caller's string may not last */
+        if(copy == NULL) {
+            return ERR_ALLOC;
+        }
+        free(_name);
+        _name = copy;
     }
     if(topics) {
         _default_topics = topics;
-- 
2.43.0


From f850ba9457ca6ca66dd5dcdc2d6bd1e0690e1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:20 +0000
Subject: [PATCH 105/105] fix: the command line was ignored when a process
 configured a second dax_state

---
 src/lib/libopt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 4879e0b..c68dcac 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -334,6 +334,7 @@ _parse_commandline(dax_state *ds, int argc, char **argv) {
         this = this->next;
     }
     ch = 0;
+    optind = 1; /* another dax_state may have been configured before */
     while(ch != -1) {
         ch = getopt_long(argc, (char * const *)argv, shortopts, options, &index);
         if(ch > 0) {
-- 
2.43.0

