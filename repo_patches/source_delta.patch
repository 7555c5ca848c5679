From 93eba13d8a37c8a01ddfa97994e0184d7720602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:24 +0000
Subject: [PATCH 01/37] fix: unlink fires its configured clear fault with
 timing "after" once it is done

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..5716a5e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2158,7 +2158,7 @@ int LazyFS::lfs_unlink (const char* path) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From 6794d2f2e49cfc53b03a725fe782a920d7d381bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:24 +0000
Subject: [PATCH 02/37] fix: crash faults of two-path operations match from_rgx
 against the source path

---
 lazyfs/src/lazyfs.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5716a5e..3b5abd5 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -139,8 +139,7 @@ void LazyFS::trigger_crash_fault (string opname,
                 string to = it.second;
                 std::regex to_rgx (".*" + to + ".*");
 
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
                     regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
 
@@ -226,13 +225,13 @@ void LazyFS::add_crash_fault (string crash_timing,
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
     }
 }
-- 
2.43.0


From 71ecb6649a58e1a8b13c4f86f776683883922dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:24 +0000
Subject: [PATCH 03/37] fix: a "before" clear fault fires at its configured
 occurrence, not one later

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3b5abd5..3956244 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -187,7 +187,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
-- 
2.43.0


From daedece6857c30e754d297f3837db2c96a3ce253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 04/37] fix: release the command lock before "after" faults so
 that a clear fault cannot deadlock

---
 lazyfs/src/lazyfs.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3956244..5da5069 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -850,6 +850,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
+    lock.unlock ();
+
     if (fi->flags & O_TRUNC)
         lfs_truncate (path, 0, fi);
 
@@ -928,6 +930,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
@@ -1287,6 +1291,8 @@ int LazyFS::lfs_write (const char* path,
 
     
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
@@ -1531,6 +1537,8 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1570,6 +1578,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
                               : fsync (fi->fh);
 
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1702,6 +1712,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
@@ -1849,6 +1861,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
@@ -1872,6 +1886,8 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
@@ -1894,6 +1910,8 @@ int LazyFS::lfs_access (const char* path, int mask) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
@@ -1939,6 +1957,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
@@ -2156,6 +2176,8 @@ int LazyFS::lfs_unlink (const char* path) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
-- 
2.43.0


From a2932803ac63acf32ca36da7009b10514c152ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 05/37] fix: open with O_TRUNC keeps the access mode that was
 asked for

---
 lazyfs/src/lazyfs.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5da5069..1ec1a58 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -817,9 +817,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
+    // truncation is done lazily below, on the cached file
+    int access_tmp = fi->flags & ~O_TRUNC;
 
     res = open (path, access_tmp);
 
-- 
2.43.0


From 06c1bbac151ad3631f856406c8f9277ac5929d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 06/37] fix: open reports a failed truncation

---
 lazyfs/src/lazyfs.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 1ec1a58..5838180 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -851,8 +851,13 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     lock.unlock ();
 
-    if (fi->flags & O_TRUNC)
-        lfs_truncate (path, 0, fi);
+    if (fi->flags & O_TRUNC) {
+        res = lfs_truncate (path, 0, fi);
+        if (res < 0) {
+            close (fi->fh);
+            return res;
+        }
+    }
 
     this_ ()->trigger_crash_fault ("open", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("open", "after", path, "");
-- 
2.43.0


From 1ba353de11ec3ec37a357b77069f8ecc888c971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 07/37] fix: truncate drops the cached blocks of the inode, not
 of a path that is never cached

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5838180..70c960b 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1830,7 +1830,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else if (truncate_size < previous_metadata->size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
-- 
2.43.0


From 0bc6a36bd84ac19bd8aef54614d51d47d6029f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 08/37] fix: truncate returns its own result instead of an
 uninitialised variable

---
 lazyfs/src/lazyfs.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 70c960b..8fa11ba 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1734,13 +1734,14 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    if (res < 0)
+        return res;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
@@ -1818,8 +1819,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
         if (r != add_bytes_total) {
 
-            int res;
-
             if (fi != NULL)
                 res = ftruncate (fi->fh, truncate_size);
             else
-- 
2.43.0


From 73c89f9b90bc2670162ced6065f37202c85d0780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 09/37] fix: a failed unlink no longer discards the cached file

---
 lazyfs/src/lazyfs.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8fa11ba..b12143c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2166,19 +2166,14 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
-    string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
-
     res = unlink (path);
 
-    if (res == 0 && inode.empty ()) {
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
-    }
-
     if (res == -1)
         return -errno;
 
+    string inode = this_ ()->FSCache->get_original_inode (path);
+    this_ ()->FSCache->remove_cached_item (inode, path, false);
+
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-- 
2.43.0


From 2618a794cedcd61882c1431bfe088422a26a77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 10/37] fix: a failed rename no longer moves the cached files

---
 lazyfs/src/lazyfs.cpp | 53 +++++++++----------------------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b12143c..b6b1182 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1638,44 +1638,13 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
 
 int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
 
-    std::vector<string> from_dir_filepaths;
-    lfs_get_dir_filenames (from, &from_dir_filepaths);
+    // the directory was renamed already: its files are found under 'to'
 
-    // Check if destination folder exists
+    std::vector<string> to_dir_filepaths;
+    lfs_get_dir_filenames (to, &to_dir_filepaths);
 
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
-
-            goto replace_prepend;
-
-        } else if (is_empty == 0) {
-
-            errno = ENOTEMPTY;
-
-            return -1;
-        }
-
-    } else {
-
-    replace_prepend:
-
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
-
-        for (auto const& it : from_dir_filepaths) {
-
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
-    }
+    for (auto const& it : to_dir_filepaths)
+        this_ ()->FSCache->rename_item (string (from + it.substr (string (to).size ())), it);
 
     return 0;
 }
@@ -1700,22 +1669,22 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     string inode = this_ ()->FSCache->get_original_inode (last_owner);
     string new_owner (to);
 
+    res = rename (from, to);
+
+    if (res == -1)
+        return -errno;
+
     if (inode.empty ()) {
 
         // from: is a dir, because getattr does not cache dirs
 
         lfs_recursive_rename (from, to, flags);
-        res = rename (from, to);
 
     } else {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
-        res = rename (from, to);
+        this_ ()->FSCache->rename_item (last_owner, new_owner);
     }
 
-    if (res == -1)
-        return -errno;
-
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
-- 
2.43.0


From 7767400335315c51708af293ac9a23eb0b241b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 11/37] fix: removing a cached path drops its inode mapping
 even when the content is gone

---
 libs/libpcache/src/cache.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..80a67b9 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -453,6 +453,8 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
 
+    this->file_inode_mapping.erase (string (path));
+
     if (not has_content_cached (owner)) {
 
         lock.unlock ();
@@ -461,8 +463,6 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    this->file_inode_mapping.erase (string (path));
-
     Item* item = _get_content_ptr (owner);
 
     nlink_t before_nlinks = item->get_metadata ()->nlinks;
-- 
2.43.0


From f235ba71e10029473422b098209fddc5c95e324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 12/37] fix: write reports a failed or short write to the
 backing file

---
 lazyfs/src/lazyfs.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b6b1182..f426bf0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -958,7 +958,7 @@ int LazyFS::lfs_write (const char* path,
     }
 
     int fd;
-    int res;
+    int res = size;
 
     (void)fi;
     if (fi == NULL) {
@@ -986,6 +986,8 @@ int LazyFS::lfs_write (const char* path,
         // std::printf ("\t[write] direct_io=1, flushing data...");
 
         res = pwrite (fd, buf, size, offset);
+        if (res == -1)
+            res = -errno;
 
     } else {
 
@@ -1112,7 +1114,7 @@ int LazyFS::lfs_write (const char* path,
                         // Read failed for this file,
                         // We assume that the file is not reachable
 
-                        res = -1;
+                        res = -errno;
                         break;
 
                     } else {
@@ -1177,7 +1179,7 @@ int LazyFS::lfs_write (const char* path,
                                                      CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
 
                             if (pwrite_res != cache_wr_sz) {
-                                res = -1;
+                                res = pwrite_res < 0 ? -errno : -EIO;
                                 break;
                             }
                         }
@@ -1188,7 +1190,7 @@ int LazyFS::lfs_write (const char* path,
                     // Read failed for this file,
                     // We assume that the file is not reachable
 
-                    res = -1;
+                    res = -EIO;
                     break;
                 }
 
@@ -1222,7 +1224,7 @@ int LazyFS::lfs_write (const char* path,
                                              CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
                     if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
-                        res = -1;
+                        res = pwrite_res < 0 ? -errno : -EIO;
                         break;
                     }
                 }
@@ -1282,19 +1284,11 @@ int LazyFS::lfs_write (const char* path,
         fault_type = TORN_SEQ; 
     }
 
-    // res should be = actual bytes written as pwrite could fail...
-    res = size;
-
     // std::printf ("\twrite: returning %d bytes\n", res);
 
-    if (res == -1)
-        res = -errno;
-
     if (fi == NULL)
         close (fd);
 
-    
-
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
-- 
2.43.0


From 48b3cb6e1d859c0d6b745a07234118c5dd2ca244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 13/37] fix: fsync reports failed writes and keeps unwritten
 pages dirty

---
 .../engine/backends/custom/custom_cache.hpp   |  2 +-
 .../include/cache/engine/page_cache.hpp       |  2 +-
 libs/libpcache/src/cache.cpp                  |  3 +-
 .../engine/backends/custom/custom_cache.cpp   | 36 +++++++++++++------
 4 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 361977b..824f8d7 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -174,7 +174,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    bool sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index d05b700..6cf267b 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -139,7 +139,7 @@ class PageCacheEngine {
      * @return true the pages were synced
      * @return false the content was not found
      */
-    virtual bool sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 80a67b9..f58b6b3 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -373,7 +373,8 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     off_t last_size = get_content_metadata (owner)->size;
 
     res = this->engine->sync_pages (owner, last_size, orig_path);
-    _get_content_ptr (owner)->set_data_sync_flag (true);
+    if (res == 0)
+        _get_content_ptr (owner)->set_data_sync_flag (true);
 
     if (not only_sync_data) {
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..df84a8f 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -471,17 +471,20 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
-    int fd = open (orig_path, O_WRONLY);
+    int res = 0;
+    int fd  = open (orig_path, O_WRONLY);
+
+    if (fd < 0)
+        return -errno;
 
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
     if (this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end ()) {
 
-        off_t wrote_bytes = 0;
         off_t page_streak = 0;
 
         auto& iterate_blocks = this->owner_ordered_pages_mapping.at (owner);
@@ -490,10 +493,8 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
         for (auto cit = iterate_blocks.begin (); cit != iterate_blocks.end (); cit++) {
             auto pptr = std::get<1> (cit->second);
-            if (pptr->is_page_dirty ()) {
+            if (pptr->is_page_dirty ())
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
-            }
         }
 
         off_t page_streak_last_offset =
@@ -521,6 +522,7 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_chunk.push_back (it->second);
 
                 struct iovec iov[page_streak];
+                ssize_t streak_bytes = 0;
 
                 page_streak_last_offset =
                     (current_block_id - page_streak + 1) * this->config->IO_BLOCK_SIZE;
@@ -542,11 +544,23 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                         iov[p_id].iov_len = this->config->IO_BLOCK_SIZE;
                     }
 
-                    // mark block as clean
-                    std::get<3> (iterate_blocks.at (streak_block)) = true;
+                    streak_bytes += iov[p_id].iov_len;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                ssize_t written = pwritev (fd, iov, page_streak, page_streak_last_offset);
+
+                if (written == streak_bytes) {
+
+                    for (int p_id = 0; p_id < page_streak; p_id++) {
+
+                        // mark block as clean
+                        int streak_block = current_block_id - page_streak + p_id + 1;
+                        std::get<3> (iterate_blocks.at (streak_block)) = true;
+                        get<1> (page_chunk[p_id])->set_page_as_dirty (false);
+                    }
+
+                } else
+                    res = written < 0 ? -errno : -EIO;
 
                 page_streak = 0;
 
@@ -559,11 +573,13 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     if (ftruncate (fd, size) < 0) {
         spdlog::info ("ftruncate: failed");
+        if (res == 0)
+            res = -errno;
     }
 
     close (fd);
 
-    return 0;
+    return res;
 }
 
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
-- 
2.43.0


From 8bd2fa7e350141e1f0012b3dbe11131dcd101848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 14/37] fix: fsync does not read past the last dirty block

---
 .../src/engine/backends/custom/custom_cache.cpp       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index df84a8f..c7de623 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -497,19 +497,18 @@ int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 new_iterate_blocks.insert ({cit->first, cit->second});
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
+        off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
 
         for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end (); it++) {
 
-            auto current_block_id     = it->first;
-            auto const& next_block_id = std::next (it, 1)->first;
+            auto current_block_id = it->first;
+            auto next_block       = std::next (it, 1);
 
-            if ((page_streak < (__IOV_MAX - 1)) && (it != prev (new_iterate_blocks.end (), 1)) &&
-                (current_block_id == (next_block_id - 1))) {
+            if ((page_streak < (__IOV_MAX - 1)) && (next_block != new_iterate_blocks.end ()) &&
+                (current_block_id == (next_block->first - 1))) {
 
                 page_streak++;
 
-- 
2.43.0


From 122eacd65b14e7d977c42dd182ae52912b950fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 15/37] fix: fsync returns the error number

---
 lazyfs/src/lazyfs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f426bf0..32e213d 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1575,6 +1575,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path)
                               : fsync (fi->fh);
 
+    if (!is_owner_cached && res == -1)
+        res = -errno;
 
     lock.unlock ();
 
-- 
2.43.0


From 4fb1454c10c6b4c82be57b89720282dbfe4a80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 16/37] fix: fsync persists the timestamps of the file itself

---
 libs/libpcache/src/cache.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index f58b6b3..80929e4 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -386,8 +386,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
         TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
         TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        utimes (orig_path, times);
     }
 
     unlockItem (owner);
-- 
2.43.0


From 2cc15041e4326b6c577f027593e9065bcdfc905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 17/37] fix: the unsynced data report does not read past the
 last block

---
 lazyfs/src/lazyfs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 32e213d..8fc1155 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -382,7 +382,10 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_it = std::next (block_it);
+
+                        if (next_it == std::get<2> (it).end () ||
+                            block_id != (get<0> (*next_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
-- 
2.43.0


From 46c670e4f85fd60eb0c22030a5fee821f2c41ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 18/37] fix: the unsynced data report leaves out the excluded
 files, not all the others

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8fc1155..cfec04c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -357,7 +357,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
-- 
2.43.0


From 7d7cb7718256b6942b272f030e1aaef7659bf66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 19/37] fix: look up cached blocks under the engine lock

---
 libs/libpcache/src/engine/backends/custom/custom_cache.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index c7de623..a280a2e 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -230,6 +230,8 @@ void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_pa
 
 bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {
 
+    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);
+
     Page* p = _get_page_ptr (page_id);
 
     if (p == nullptr)
-- 
2.43.0


From 0308f5d960cbe772aae5e07328342e1b4a645f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 20/37] fix: a torn write closes the descriptor it opened

---
 lazyfs/src/lazyfs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index cfec04c..6fc3074 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -610,6 +610,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                             if (sum!=size) {
                                 spdlog::warn ("[lazyfs.faults]: Could not inject fault of split write for file {} because sum of parts is different than the size of write!",path_s);
+                                close (fd);
                                 return res;
                             } else {
                                 size_to_persist = split_fault->parts_bytes[p - 1];
@@ -646,10 +647,13 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         if (pw==get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
                         else {
                             spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
+                            close (fd);
                             return res;
                         } 
                     }
 
+                    close (fd);
+
                     this_ ()->add_crash_fault ("after", "write", path_s, "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
-- 
2.43.0


From ea7e2790f047aae8b28d11799dc71654bebc4066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 21/37] fix: a torn write keeps file offsets beyond 2 GiB

---
 lazyfs/src/lazyfs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6fc3074..7a4ab18 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -589,7 +589,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
                     fd = open(path, O_CREAT|O_WRONLY, 0666);
-                    vector<tuple<int,int,int>> persist_info; 
+                    vector<tuple<off_t,size_t,off_t>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
                     size_t size_to_persist;
@@ -617,7 +617,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 off_to_persist = offset + buf_i;
                             }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
+                            tuple <off_t,size_t,off_t> info_part (buf_i,size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                         }
                         
@@ -637,7 +637,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 final_size_to_persist += extra_size_to_persist;
                             }
                             
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
+                            tuple <off_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                          }
                     }
-- 
2.43.0


From 014729479609482461cbcc721107ab96e6881679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 22/37] fix: only the last part of a torn write carries the
 bytes left over

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 7a4ab18..5dd3d76 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -632,7 +632,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                             size_t final_size_to_persist = size_to_persist;
 
                             off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
+                            if (extra_size_to_persist>0 && p == split_fault->parts) {
                                 spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
                                 final_size_to_persist += extra_size_to_persist;
                             }
-- 
2.43.0


From 92e695aa2e94174d15bd9db64fb63214dab9b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 23/37] fix: torn-seq commands accept the writes to persist in
 any order

---
 lazyfs/src/lazyfs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5dd3d76..72f9395 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -310,6 +310,9 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
+    //Sorting the persist vector is necessary for injecting this fault
+    sort(persistv.begin(), persistv.end());
+
     faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
     vector<string> errors = fault->validate();
 
-- 
2.43.0


From 0cbb782fba8a0b8e2a9897c38ed9ad5d372718f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 24/37] fix: a read at the end of the file triggers its "after"
 faults

---
 lazyfs/src/lazyfs.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 72f9395..5564597 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1394,8 +1394,18 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
+    if (offset > (meta.size - 1)) {
+
+        if (fi == NULL)
+            close (fd);
+
+        lock.unlock ();
+
+        this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
+        this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
+
         return 0;
+    }
 
     // ---------------------------------------------------------------------------------
 
-- 
2.43.0


From 932110290a0bc83c5b13b8d21d206323d31bfeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 25/37] fix: invalid torn-seq faults of the configuration are
 rejected

---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From f4adb246fc2488e395bbf5e21a8eed5d485e2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 26/37] fix: rejected torn-op and torn-seq commands are not
 reported as configured

---
 lazyfs/src/main.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..61a542f 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -263,16 +263,21 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if ((parts=="none") == (parts_bytes=="none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
+
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
                 
                 vector<string> errors_add_torn_op;
                 if (valid_fault) 
                     errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -345,11 +350,16 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
                     errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From a75466fec3bee73b3e28980a2abb16fbda80f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:49 +0000
Subject: [PATCH 27/37] fix: malformed fault commands are rejected instead of
 terminating the file system

---
 lazyfs/src/lazyfs.cpp |  3 +++
 lazyfs/src/main.cpp   | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5564597..4be67cf 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -222,6 +222,9 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    // throws here, and not when the fault is triggered, if the expression is invalid
+    std::regex to_rgx (".*" + crash_regex_to + ".*");
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 61a542f..5420bae 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -62,6 +62,9 @@ void fht_worker (LazyFS* filesystem) {
             buffer[ret - 1] = '\0';
 
             std::string command_str = string (buffer);
+
+            try {
+
             if (command_str.rfind ("lazyfs::crash", 0) == 0) {
 
                 std::regex rgx_global ("::");
@@ -125,6 +128,11 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (crash_operation == "none" || crash_timing == "none") {
+                    errors.push_back ("should specify 'op' and 'timing'");
+                    VF = false;
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
@@ -409,6 +417,14 @@ void fht_worker (LazyFS* filesystem) {
                 spdlog::info ("[lazyfs.faults.worker]: command unknown '{}'", string (buffer));
             }
 
+            } catch (const std::exception& err) {
+
+                // bad regular expressions or numbers
+                spdlog::warn ("[lazyfs.faults.worker]: INVALID command '{}': {}",
+                              string (buffer),
+                              err.what ());
+            }
+
         } else
             break;
     }
-- 
2.43.0


From 9e99bbae6926636eb2020ab3a6051bf7761565b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:44 +0000
Subject: [PATCH 28/37] fix: renaming a file that is not cached forgets the
 replaced file

---
 lazyfs/src/lazyfs.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4be67cf..ac22d5a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1695,8 +1695,12 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
     if (inode.empty ()) {
 
-        // from: is a dir, because getattr does not cache dirs
+        // from: is a dir, because getattr does not cache dirs,
+        // or a file that is not mapped: 'to' no longer names what it was mapped to
 
+        this_ ()->FSCache->remove_cached_item (this_ ()->FSCache->get_original_inode (new_owner),
+                                               to,
+                                               false);
         lfs_recursive_rename (from, to, flags);
 
     } else {
-- 
2.43.0


From e17a99b9f4b391db7489a51b8233a69bd6451ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:53 +0000
Subject: [PATCH 29/37] fix: nested writes release the command lock so that a
 clear fault cannot deadlock

lfs_truncate (extension) and sparse lfs_write called lfs_write while holding the
command lock in shared mode; a clear fault on that write needs it exclusively.
---
 lazyfs/src/lazyfs.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ac22d5a..33b94c8 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1043,7 +1043,12 @@ int LazyFS::lfs_write (const char* path,
                 if (size_to_fill > 0) {
 
                     char* fill_zeros = (char*)calloc (size_to_fill, 1);
+
+                    // the nested write takes the lock itself and may inject faults
+                    lock.unlock ();
                     lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
+                    lock.lock ();
+
                     free (fill_zeros);
                 }
             }
@@ -1766,6 +1771,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     }
 
     bool has_content_cached  = previous_metadata != nullptr;
+    off_t previous_size      = has_content_cached ? previous_metadata->size : 0;
     bool behave_as_lfs_write = false;
 
     if (not has_content_cached) {
@@ -1778,14 +1784,14 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         behave_as_lfs_write = true;
     }
 
-    if (has_content_cached && truncate_size == previous_metadata->size) {
+    if (has_content_cached && truncate_size == previous_size) {
 
         behave_as_lfs_write = false;
 
         // Since truncate size is the same as the file size, there's nothing to change/truncate.
     }
 
-    if (has_content_cached && truncate_size > previous_metadata->size) {
+    if (has_content_cached && truncate_size > previous_size) {
 
         behave_as_lfs_write = true;
         cout << "***************************** BEHAVE AS " << endl;
@@ -1800,14 +1806,17 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         */
 
         size_t IO_BLOCK_SIZE        = this_ ()->FSConfig->IO_BLOCK_SIZE;
-        off_t file_size             = has_content_cached ? previous_metadata->size : 0;
+        off_t file_size             = previous_size;
         off_t add_bytes_from_offset = file_size;
         off_t add_bytes_total       = truncate_size - add_bytes_from_offset;
 
         char* buf = (char*)malloc (add_bytes_total);
         memset (buf, 0, add_bytes_total);
 
+        // the nested write takes the lock itself and may inject faults
+        lock.unlock ();
         int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
+        lock.lock ();
 
         if (r != add_bytes_total) {
 
@@ -1819,14 +1828,14 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
         free (buf);
 
-    } else if (truncate_size < previous_metadata->size) {
+    } else if (truncate_size < previous_size) {
 
         this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
 
-    if (previous_metadata != nullptr) {
+    if (has_content_cached) {
 
         Metadata new_meta;
         new_meta.size = truncate_size;
@@ -1839,7 +1848,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         new_meta.mtim = modify_time;
         values_to_change.push_back ("mtime");
 
-        if (new_meta.size > previous_metadata->size) {
+        if (new_meta.size > previous_size) {
             new_meta.ctim = modify_time;
             values_to_change.push_back ("ctime");
         }
-- 
2.43.0


From 953cf9c20e85c50e315083690ca91a079b5202ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:04 +0000
Subject: [PATCH 30/37] fix: read reports a failed backing read instead of
 returning a wrong byte count

---
 lazyfs/src/lazyfs.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 33b94c8..229c6e8 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1417,6 +1417,7 @@ int LazyFS::lfs_read (const char* path,
 
     // ---------------------------------------------------------------------------------
 
+    int pread_error               = 0;
     off_t last_pread_chunk_size   = 0;
     off_t last_pread_chunk_offset = offset;
 
@@ -1448,6 +1449,12 @@ int LazyFS::lfs_read (const char* path,
                                        last_pread_chunk_size,
                                        last_pread_chunk_offset);
 
+                if (pread_res < 0) {
+                    pread_error           = errno;
+                    last_pread_chunk_size = 0;
+                    break;
+                }
+
                 BUF_ITERATOR += pread_res;
                 BYTES_LEFT -= pread_res;
 
@@ -1549,16 +1556,20 @@ int LazyFS::lfs_read (const char* path,
         int pread_res =
             pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, last_pread_chunk_offset);
 
-        BUF_ITERATOR += pread_res;
-        BYTES_LEFT -= pread_res;
+        if (pread_res < 0) {
+            pread_error = errno;
+        } else {
+            BUF_ITERATOR += pread_res;
+            BYTES_LEFT -= pread_res;
+        }
     }
 
     // ---------------------------------------------------------
 
     res = BUF_ITERATOR;
 
-    if (res == -1)
-        res = -errno;
+    if (pread_error != 0)
+        res = -pread_error;
 
     if (fi == NULL)
         close (fd);
-- 
2.43.0


From 467a201889d2523be631c22622496696e8d89c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:03 +0000
Subject: [PATCH 31/37] fix: truncate reads the cached size while the file is
 locked

---
 lazyfs/src/lazyfs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 229c6e8..96712b5 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1757,10 +1757,12 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     bool locked_initial = this_ ()->FSCache->lockItemCheckExists (inode);
 
     Metadata* previous_metadata;
+    off_t previous_size = 0;
 
     if (locked_initial) {
 
         previous_metadata = this_ ()->FSCache->get_content_metadata (inode);
+        previous_size     = previous_metadata != nullptr ? previous_metadata->size : 0;
 
         this_ ()->FSCache->unlockItem (inode);
 
@@ -1775,6 +1777,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         string newino = to_string (stats.st_ino);
         if (this_ ()->FSCache->lockItemCheckExists (newino)) {
             previous_metadata = this_ ()->FSCache->get_content_metadata (newino);
+            previous_size     = previous_metadata != nullptr ? previous_metadata->size : 0;
             this_ ()->FSCache->unlockItem (newino);
             inode = newino;
         } else
@@ -1782,7 +1785,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     }
 
     bool has_content_cached  = previous_metadata != nullptr;
-    off_t previous_size      = has_content_cached ? previous_metadata->size : 0;
     bool behave_as_lfs_write = false;
 
     if (not has_content_cached) {
-- 
2.43.0


From dff05a78978a4d7f0361636ddaadcb1a01d9713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 32/37] fix: the item tables are not read while another thread
 changes them

---
 libs/libpcache/include/cache/cache.hpp | 23 ++++++++++++++
 libs/libpcache/src/cache.cpp           | 44 ++++++++++++++++----------
 2 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 68dce2d..6b4a92a 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -42,6 +42,14 @@ class Cache {
      */
     std::shared_mutex lock_cache_mtx;
 
+    /**
+     * @brief Protects the structure of the tables of items and of item locks,
+     *        which are looked up by threads that do not hold the cache lock.
+     *        Innermost lock: nothing else is acquired while holding it.
+     *
+     */
+    std::shared_mutex lock_tables_mtx;
+
   private:
     /**
      * @brief Maps filenames to the corresponding inodes.
@@ -79,6 +87,21 @@ class Cache {
      */
     Item* _get_content_ptr (string cid);
 
+    /**
+     * @brief Gets the lock of an item
+     *
+     * @param cid the content id
+     * @return std::shared_mutex* the item's lock
+     */
+    std::shared_mutex* _get_item_lock (string cid);
+
+    /**
+     * @brief Removes the lock of a deleted item
+     *
+     * @param cid the content id
+     */
+    void _forget_item_lock (string cid);
+
     /**
      * @brief Gets the readable offsets associated with an Item block
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 80929e4..058c671 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -95,6 +95,8 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
 bool Cache::has_content_cached (string cid) {
 
+    std::shared_lock<std::shared_mutex> tables (lock_tables_mtx);
+
     if (not this->contents.empty ())
         return this->contents.find (cid) != this->contents.end ();
     return false;
@@ -102,10 +104,11 @@ bool Cache::has_content_cached (string cid) {
 
 Item* Cache::_get_content_ptr (string cid) {
 
-    if (has_content_cached (cid))
-        return this->contents.at (cid);
+    std::shared_lock<std::shared_mutex> tables (lock_tables_mtx);
+
+    auto it = this->contents.find (cid);
 
-    return nullptr;
+    return it != this->contents.end () ? it->second : nullptr;
 }
 
 bool Cache::is_block_cached (string cid, int blk_id) {
@@ -152,15 +155,31 @@ Item* Cache::_create_item (string cid) {
 
     Item* cid_item = new Item ();
 
+    std::unique_lock<std::shared_mutex> tables (lock_tables_mtx);
+
     this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
     this->contents.insert (make_pair (cid, cid_item));
 
     return cid_item;
 }
 
-void Cache::lockItem (string cid) { item_locks[cid]->lock (); }
+std::shared_mutex* Cache::_get_item_lock (string cid) {
+
+    std::unique_lock<std::shared_mutex> tables (lock_tables_mtx);
+
+    return item_locks[cid];
+}
+
+void Cache::_forget_item_lock (string cid) {
 
-void Cache::unlockItem (string cid) { item_locks[cid]->unlock (); }
+    std::unique_lock<std::shared_mutex> tables (lock_tables_mtx);
+
+    this->item_locks.erase (cid);
+}
+
+void Cache::lockItem (string cid) { _get_item_lock (cid)->lock (); }
+
+void Cache::unlockItem (string cid) { _get_item_lock (cid)->unlock (); }
 
 pair<int, int> Cache::_get_readable_offsets (string cid, Item* item, int blk_id) {
 
@@ -302,6 +321,7 @@ bool Cache::_delete_item (string cid) {
     if (item != nullptr) {
         delete item;
 
+        std::unique_lock<std::shared_mutex> tables (lock_tables_mtx);
         this->contents.erase (cid);
     }
 
@@ -437,10 +457,7 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
                 unlockItem (to_remove_inode);
 
-                if (!this->item_locks.empty () &&
-                    (this->item_locks.find (to_remove_inode) != this->item_locks.end ())) {
-                    this->item_locks.erase (to_remove_inode);
-                }
+                _forget_item_lock (to_remove_inode);
             }
         }
     }
@@ -483,9 +500,7 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     unlockItem (owner);
 
-    if (!this->item_locks.empty () && (this->item_locks.find (owner) != this->item_locks.end ())) {
-        this->item_locks.erase (owner);
-    }
+    _forget_item_lock (owner);
 
     lock.unlock ();
 
@@ -527,10 +542,7 @@ void Cache::clear_all_cache () {
 
             unlockItem (it);
 
-            if (!this->item_locks.empty () &&
-                (this->item_locks.find (it) != this->item_locks.end ())) {
-                this->item_locks.erase (it);
-            }
+            _forget_item_lock (it);
         }
 
         lock.unlock ();
-- 
2.43.0


From 36a1deb727ffffd733498e58278aa81c98875517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:26 +0000
Subject: [PATCH 33/37] fix: renaming a file to another of its own names leaves
 the cache alone

---
 lazyfs/src/lazyfs.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 96712b5..c55f822 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1704,12 +1704,21 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     string inode = this_ ()->FSCache->get_original_inode (last_owner);
     string new_owner (to);
 
+    // two names of one file: the call succeeds and both names remain
+    struct stat from_stat, to_stat;
+    bool same_file = lstat (from, &from_stat) == 0 && lstat (to, &to_stat) == 0 &&
+                     from_stat.st_dev == to_stat.st_dev && from_stat.st_ino == to_stat.st_ino;
+
     res = rename (from, to);
 
     if (res == -1)
         return -errno;
 
-    if (inode.empty ()) {
+    if (same_file) {
+
+        // nothing was renamed or replaced
+
+    } else if (inode.empty ()) {
 
         // from: is a dir, because getattr does not cache dirs,
         // or a file that is not mapped: 'to' no longer names what it was mapped to
-- 
2.43.0


From bfcc468fd7040560caf38eeca10d4257588b5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 34/37] fix: removing, replacing or linking an unmapped name of
 a cached file is accounted for

---
 lazyfs/src/lazyfs.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index c55f822..f2caadc 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1706,14 +1706,28 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
     // two names of one file: the call succeeds and both names remain
     struct stat from_stat, to_stat;
-    bool same_file = lstat (from, &from_stat) == 0 && lstat (to, &to_stat) == 0 &&
-                     from_stat.st_dev == to_stat.st_dev && from_stat.st_ino == to_stat.st_ino;
+    bool from_exists = lstat (from, &from_stat) == 0;
+    bool to_exists   = lstat (to, &to_stat) == 0;
+    bool same_file   = from_exists && to_exists && from_stat.st_dev == to_stat.st_dev &&
+                     from_stat.st_ino == to_stat.st_ino;
 
     res = rename (from, to);
 
     if (res == -1)
         return -errno;
 
+    // a file can be cached although this name of it is not mapped yet
+
+    if (!same_file && inode.empty () && from_exists && S_ISREG (from_stat.st_mode)) {
+
+        inode = to_string (from_stat.st_ino);
+        this_ ()->FSCache->insert_inode_mapping (last_owner, inode, false);
+    }
+
+    if (!same_file && to_exists && S_ISREG (to_stat.st_mode) &&
+        this_ ()->FSCache->get_original_inode (new_owner).empty ())
+        this_ ()->FSCache->insert_inode_mapping (new_owner, to_string (to_stat.st_ino), false);
+
     if (same_file) {
 
         // nothing was renamed or replaced
@@ -1980,6 +1994,12 @@ int LazyFS::lfs_link (const char* from, const char* to) {
         return -errno;
 
     string inode = this_ ()->FSCache->get_original_inode (from);
+
+    // the file can be cached although this name of it is not mapped yet
+    struct stat stats;
+    if (inode.empty () && lstat (to, &stats) == 0 && S_ISREG (stats.st_mode))
+        inode = to_string (stats.st_ino);
+
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
@@ -2189,12 +2209,20 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
+    struct stat stats;
+    bool is_file = lstat (path, &stats) == 0 && S_ISREG (stats.st_mode);
+
     res = unlink (path);
 
     if (res == -1)
         return -errno;
 
     string inode = this_ ()->FSCache->get_original_inode (path);
+
+    // the file can be cached although this name of it is not mapped yet
+    if (inode.empty () && is_file)
+        inode = to_string (stats.st_ino);
+
     this_ ()->FSCache->remove_cached_item (inode, path, false);
 
     lock.unlock ();
-- 
2.43.0


From 414213567f5bdd4501cdd1107844fb607b9b96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 35/37] fix: rejected torn and clear faults are released

---
 lazyfs/src/lazyfs.cpp                | 4 ++--
 libs/libpcache/src/config/config.cpp | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f2caadc..3aaf6ff 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -297,7 +297,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
         }
     } 
  
-    if (!valid_fault) delete fault;
+    if (errors.size() != 0) delete fault;
 
     return errors;
 }
@@ -336,7 +336,7 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         }
     }
     
-    if (!valid_fault) delete fault;
+    if (errors.size() != 0) delete fault;
 
     return errors;
 }
diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..e82777a 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -231,6 +231,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                             }
                         }
                         if (valid_fault) (it->second).push_back(fault);
+                        else delete fault;
                     }
 
                 }
@@ -322,6 +323,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                             }
                         }
                         if (valid_fault) (it->second).push_back(fault);
+                        else delete fault;
                     }
                 }
 
@@ -397,6 +399,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                             }
                         }
                         if (valid_fault) (it->second).push_back(fault);
+                        else delete fault;
                     }
                 }
             
-- 
2.43.0


From db5ca6e814fe49be7985923c033eb3854cef716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 36/37] fix: the documented configuration type "clear" is
 accepted

---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index e82777a..352dc6d 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -327,7 +327,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                     }
                 }
 
-            } else if (type == CLEAR) {
+            } else if (type == CLEAR || type == "clear") {
                 valid_fault = true;
                 error_msg = "The following errors were found in the configuration file for a fault of type \"clear-cache\": \n";
 
-- 
2.43.0


From 7a5a25d7fbc45a2961169a2c684be5a06d723412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 37/37] fix: setting the times of a cached file sets its cached
 times, which are the ones reported and synchronised

---
 lazyfs/src/lazyfs.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3aaf6ff..937af3a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2163,6 +2163,36 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    // the times of a cached file are those of its cached metadata
+    struct stat stats;
+    if (lstat (path, &stats) == 0 && S_ISREG (stats.st_mode)) {
+
+        string inode = this_ ()->FSCache->get_original_inode (path);
+        if (inode.empty ())
+            inode = to_string (stats.st_ino);
+
+        Metadata meta;
+        vector<string> values_to_change;
+
+        meta.ctim = stats.st_ctim;
+        values_to_change.push_back ("ctime");
+
+        if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT) {
+            meta.atim = stats.st_atim;
+            values_to_change.push_back ("atime");
+        }
+
+        if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT) {
+            meta.mtim = stats.st_mtim;
+            values_to_change.push_back ("mtime");
+        }
+
+        if (this_ ()->FSCache->lockItemCheckExists (inode)) {
+            this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);
+            this_ ()->FSCache->unlockItem (inode);
+        }
+    }
+
     return 0;
 }
 // #endif
-- 
2.43.0

