From 4caa63eaedfc437a3a0116c319db54a7178d56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 01/39] fix: split the fault FIFO stream into commands at
 newlines

Two commands arriving together were taken for one unknown command, and a
command longer than the read buffer was cut into pieces that were each
interpreted on their own.
---
 lazyfs/src/main.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..8371eb6 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -54,14 +54,24 @@ void fht_worker (LazyFS* filesystem) {
 
     spdlog::info ("[lazyfs.faults.worker]: waiting for fault commands...");
 
-    char buffer[MAX_READ_CHUNK];
+    char chunk[MAX_READ_CHUNK];
+    std::string pending;
     int ret;
     while (true) {
-        if ((ret = read (fd_fifo, &buffer, MAX_READ_CHUNK)) > 0) {
 
-            buffer[ret - 1] = '\0';
+        // a read may return part of a command or several commands, so only
+        // complete lines are taken from what has been received
+        size_t eol;
+        while ((eol = pending.find ('\n')) == string::npos &&
+               (ret = read (fd_fifo, chunk, MAX_READ_CHUNK)) > 0)
+            pending.append (chunk, ret);
+
+        if (eol != string::npos) {
+
+            std::string command_str = pending.substr (0, eol);
+            pending.erase (0, eol + 1);
+            const char* buffer = command_str.c_str ();
 
-            std::string command_str = string (buffer);
             if (command_str.rfind ("lazyfs::crash", 0) == 0) {
 
                 std::regex rgx_global ("::");
-- 
2.43.0


From db85df116121579c5e5084f4ee4fe451aae5f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:35 +0000
Subject: [PATCH 02/39] fix: reject crash commands without op or timing or with
 a bad regex

A crash command without 'op', or with a regex that does not compile, ended
LazyFS with an uncaught exception; one without 'timing' was taken as 'after'.
---
 lazyfs/src/main.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 8371eb6..e250d48 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -135,6 +135,25 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (crash_operation == "none") {
+                    VF = false;
+                    errors.push_back ("should specify 'op'");
+                }
+
+                if (crash_timing == "none") {
+                    VF = false;
+                    errors.push_back ("should specify 'timing'");
+                }
+
+                for (auto const& rgx : {crash_from_rgx, crash_to_rgx}) {
+                    try {
+                        std::regex check (".*" + rgx + ".*");
+                    } catch (const std::regex_error& e) {
+                        VF = false;
+                        errors.push_back ("invalid regex '" + rgx + "'");
+                    }
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
-- 
2.43.0


From dd831001287739f9d3cab04b116b2e4de54fce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 03/39] fix: accept the documented occurrence of torn faults
 sent to the FIFO, reject incomplete ones

README documents 'occurrence' for torn-op and torn-seq commands, but it was
an unknown attribute, and a command rejected for that or any other reason
was still reported as configured successfully. Missing attributes and
numbers that do not fit were accepted or ended LazyFS.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  6 ++--
 lazyfs/src/lazyfs.cpp            |  8 ++---
 lazyfs/src/main.cpp              | 52 ++++++++++++++++++++++++++------
 3 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5fcff7c..5385a9a 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -381,9 +381,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param path path of the fault
      * @param op system call 
      * @param persist which parts of the write to persist
+     * @param occurrence which group of writes to tear
      * @return errors
     */
-    vector<string> add_torn_seq_fault(string path, string op, string persist);
+    vector<string> add_torn_seq_fault(string path, string op, string persist, int occurrence);
 
     /**
      * @brief Adds a torn-op fault to the faults map. Returns a vector with errors if any.
@@ -392,9 +393,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param parts which parts of the write to persist
      * @param parts_bytes division of the write in bytes
      * @param persist which parts of the write to persist
+     * @param occurrence which write to tear
      * @return errors
     */
-    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist);
+    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist, int occurrence);
 
     /**
      * @brief Kills lazyfs with SIGKILL if any fault condition verifies
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..adedb64 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -237,7 +237,7 @@ void LazyFS::add_crash_fault (string crash_timing,
     }
 }
 
-vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
+vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist, int occurrence) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -264,8 +264,6 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
         partsi = stoi(parts);
     }
 
-    int occurrence=1;
-
     faults::SplitWriteF* fault;
     vector<string> errors;
 
@@ -300,7 +298,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     return errors;
 }
 
-vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist) {
+vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist, int occurrence) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -311,7 +309,7 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
-    faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
+    faults::ReorderF* fault = new faults::ReorderF(op, persistv, occurrence);
     vector<string> errors = fault->validate();
 
     bool valid_fault = true;
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index e250d48..02fc663 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -230,6 +230,7 @@ void fht_worker (LazyFS* filesystem) {
                 string parts = "none";
                 string parts_bytes = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -254,7 +255,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts=", 0) == 0) {
 
                         string tmp_parts = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"(\d+)");
+                        std::regex pattern(R"(\d{1,9})");
 
                         if (!std::regex_match(tmp_parts, pattern)) {
                             errors.push_back ("parts should be a number");
@@ -266,7 +267,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts_bytes=", 0) == 0) {
                         
                         string tmp_parts_bytes = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_parts_bytes, pattern)) {
                             errors.push_back ("parts_bytes should be a list of numbers separated by commas");
@@ -278,7 +279,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_persist = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_persist, pattern)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
@@ -286,22 +287,38 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_persist;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occ = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d{1,9})");
+
+                        if (!std::regex_match(tmp_occ, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else
+                            occurrence = tmp_occ;
+
                     } else if (current != "lazyfs" && current != "torn-op") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if ((parts=="none") == (parts_bytes=="none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
+
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
                 
                 vector<string> errors_add_torn_op;
                 if (valid_fault) 
-                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist, stoi (occurrence));
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -328,6 +345,7 @@ void fht_worker (LazyFS* filesystem) {
                 string file = "none";
                 string op = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -360,7 +378,7 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_per = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
+                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
                         if (!std::regex_match(tmp_per, pattern)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
@@ -368,17 +386,33 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_per;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occ = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d{1,9})");
+
+                        if (!std::regex_match(tmp_occ, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else
+                            occurrence = tmp_occ;
+
                     } else if (current != "lazyfs" && current != "torn-seq") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
                     }
                 }
 
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
-                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist, stoi (occurrence));
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From 880da5edd16af384c4ab3c884bfa1d438f942b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 04/39] fix: match the source pattern of crash faults on
 two-path operations

The source path was compared only if the pattern happened to match the word
'none': a fault given by source fired for every path, one given by
destination never fired, and with both only the destination counted.
---
 lazyfs/src/lazyfs.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index adedb64..68c936f 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -139,8 +139,7 @@ void LazyFS::trigger_crash_fault (string opname,
                 string to = it.second;
                 std::regex to_rgx (".*" + to + ".*");
 
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
                     regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
 
@@ -223,6 +222,10 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    // an operation with two paths may be given only its destination
+    if (crash_regex_from == "none")
+        crash_regex_from = "";
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-- 
2.43.0


From 44a45a443fcb7b86d2d98747c03d95e1938c49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 05/39] fix: do not count the zeros that fill a gap as a write
 of the application

A write past the end of the file, or a truncate that extends it, writes the
gap through lfs_write, and that inner call was counted by the configured
faults and could trigger them as if the application had issued it.
---
 lazyfs/src/lazyfs.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 68c936f..15af83a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -942,8 +942,13 @@ int LazyFS::lfs_write (const char* path,
                        off_t offset,
                        struct fuse_file_info* fi) {
 
-    this_ ()->trigger_crash_fault ("write", "before", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("write", "before", path, "");
+    // without file info this is not a request: zeros to fill a gap
+    bool is_request = fi != NULL;
+
+    if (is_request) {
+        this_ ()->trigger_crash_fault ("write", "before", path, "", CLEAR);
+        this_ ()->trigger_configured_clear_fault ("write", "before", path, "");
+    }
 
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
@@ -1268,12 +1273,15 @@ int LazyFS::lfs_write (const char* path,
     // ----------------------------------------------------------------------------------
     
     string fault_type = CLEAR;
-    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
-    if (!crash_added) { //At the moment only one fault type can be injected
-        crash_added =  this_ () -> split_write(path,buf,size,offset);
-        fault_type = TORN_OP;
-    } else {
-        fault_type = TORN_SEQ; 
+
+    if (is_request) {
+        bool crash_added = this_ () -> persist_write(path,buf,size,offset);
+        if (!crash_added) { //At the moment only one fault type can be injected
+            crash_added =  this_ () -> split_write(path,buf,size,offset);
+            fault_type = TORN_OP;
+        } else {
+            fault_type = TORN_SEQ; 
+        }
     }
 
     // res should be = actual bytes written as pwrite could fail...
@@ -1287,10 +1295,10 @@ int LazyFS::lfs_write (const char* path,
     if (fi == NULL)
         close (fd);
 
-    
-
-    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
-    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
+    if (is_request) {
+        this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
+        this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
+    }
 
     return res;
 }
@@ -1800,7 +1808,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         char* buf = (char*)malloc (add_bytes_total);
         memset (buf, 0, add_bytes_total);
 
-        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
+        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, NULL);
 
         if (r != add_bytes_total) {
 
-- 
2.43.0


From 8e162305894d1fca39e02bee8a3b351888862f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 06/39] fix: fire configured clear-cache faults at their
 occurrence, also before operations and after unlink

With timing 'before' the count was compared before it was increased, so the
fault came one operation late, and the trigger after unlink was announced
as 'before', so timing 'after' never fired for it.
---
 lazyfs/src/lazyfs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 15af83a..911d298 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -187,7 +187,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
@@ -2167,7 +2167,7 @@ int LazyFS::lfs_unlink (const char* path) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From 3b3a876c907c4bdc1a414393177850396c3b94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 07/39] fix: let a clear-cache fault without crash fire after
 an operation

The operation still held the command lock in shared mode when the fault
asked for it exclusively, so LazyFS hung forever.
---
 lazyfs/src/lazyfs.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 911d298..9decfc9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -852,6 +852,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
+    lock.unlock ();
+
     if (fi->flags & O_TRUNC)
         lfs_truncate (path, 0, fi);
 
@@ -930,6 +932,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
@@ -1296,6 +1300,8 @@ int LazyFS::lfs_write (const char* path,
         close (fd);
 
     if (is_request) {
+        lock.unlock ();
+
         this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
         this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
     }
@@ -1541,6 +1547,8 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1580,6 +1588,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
                               : fsync (fi->fh);
 
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1712,6 +1722,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
@@ -1859,6 +1871,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
@@ -1882,6 +1896,8 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
@@ -1904,6 +1920,8 @@ int LazyFS::lfs_access (const char* path, int mask) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
@@ -1949,6 +1967,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
@@ -2166,6 +2186,8 @@ int LazyFS::lfs_unlink (const char* path) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
-- 
2.43.0


From 7a2a0d73db595048cb5833d1bad50a37db16730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 08/39] fix: truncate the cached blocks of the file

truncate_item was given the path instead of the inode the cache is keyed by,
so no cached block was ever cut or released, and the result of truncate was
read from an uninitialised variable.
---
 lazyfs/src/lazyfs.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 9decfc9..3dc47d2 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1731,7 +1731,6 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 }
 
 int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_file_info* fi) {
-    cout << ">> FTRUNCATE" << endl;
 
     this_ ()->trigger_crash_fault ("truncate", "before", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "before", path, "");
@@ -1746,7 +1745,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    int res = 0;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
@@ -1801,7 +1800,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (has_content_cached && truncate_size > previous_metadata->size) {
 
         behave_as_lfs_write = true;
-        cout << "***************************** BEHAVE AS " << endl;
     }
 
     if (behave_as_lfs_write) {
@@ -1836,7 +1834,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else if (truncate_size < previous_metadata->size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
-- 
2.43.0


From 8c8b237eba96f08ff97435e6336f323c83a00bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 09/39] fix: never read or cache bytes past the end of the file

After a truncate that has not been synced the backing file is longer than
the file. Reads returned those bytes, and a write into the last block put
them back into the cache.
---
 lazyfs/src/lazyfs.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3dc47d2..03bd307 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1108,6 +1108,11 @@ int LazyFS::lfs_write (const char* path,
                                            block_caching_buffer,
                                            IO_BLOCK_SIZE,
                                            CURR_BLK_IDX * IO_BLOCK_SIZE);
+
+                        // what a truncate cut off is still in the backing file
+                        pread_res =
+                            std::min ((off_t)pread_res,
+                                      FILE_SIZE_BEFORE - CURR_BLK_IDX * IO_BLOCK_SIZE);
                     }
 
                     if (pread_res < 0) {
@@ -1399,6 +1404,14 @@ int LazyFS::lfs_read (const char* path,
     if (offset > (meta.size - 1))
         return 0;
 
+    // the backing file and the cached blocks may go beyond the end of the file
+    if (offset + (off_t)size > meta.size) {
+
+        size       = meta.size - offset;
+        blk_high   = (offset + size - 1) / IO_BLOCK_SIZE;
+        BYTES_LEFT = size;
+    }
+
     // ---------------------------------------------------------------------------------
 
     off_t last_pread_chunk_size   = 0;
-- 
2.43.0


From 4fde38922c44597ddba29d6c0e3a82224e392ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 10/39] fix: trigger faults after a read at the end of the
 file, too

---
 lazyfs/src/lazyfs.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 03bd307..f72aa7c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1401,8 +1401,18 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
+    if (offset > (meta.size - 1)) {
+
+        if (fi == NULL)
+            close (fd);
+
+        lock.unlock ();
+
+        this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
+        this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
+
         return 0;
+    }
 
     // the backing file and the cached blocks may go beyond the end of the file
     if (offset + (off_t)size > meta.size) {
-- 
2.43.0


From e77aac70bdae0f0e2c8ccd088707e87ee4683954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 11/39] fix: open the backing file with the access mode asked
 for

Opening with O_TRUNC opened the backing file write-only, so reads through
that handle failed for everything not cached; and with O_APPEND the writes
that bypass a full cache landed at the end of the backing file instead of
at their offset.
---
 lazyfs/src/lazyfs.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f72aa7c..8917dd4 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -819,11 +819,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
-
-    res = open (path, access_tmp);
+    // truncation is left to the cache, and all writes name their offset
+    res = open (path, fi->flags & ~(O_TRUNC | O_APPEND));
 
     if (res == -1)
         return -errno;
@@ -872,7 +869,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     int res;
 
-    res = open (path, fi->flags, mode);
+    // all writes name their offset
+    res = open (path, fi->flags & ~O_APPEND, mode);
 
     if (res == -1)
         return -errno;
-- 
2.43.0


From 154f442641a91aa51974d920a7d6fabc992d4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 12/39] fix: do not follow symbolic links when a directory is
 renamed

Two links to '.' in the directory made the walk exponential and the rename
never came back.
---
 lazyfs/src/lazyfs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8917dd4..d0d850e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1656,7 +1656,9 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
             if (from_DIRENT->d_type == DT_REG)
                 result->push_back (base_path);
 
-            lfs_get_dir_filenames (base_path.c_str (), result);
+            // not through symbolic links, which may lead back to this directory
+            if (from_DIRENT->d_type == DT_DIR)
+                lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
 
-- 
2.43.0


From 033e665f64c96172d4b892519f40e2d263e434e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:45 +0000
Subject: [PATCH 13/39] fix: renaming a file onto another name of itself
 changes nothing

It took one off the cached link count, so that removing one of the two names
afterwards threw away the unsynced data of the other.
---
 libs/libpcache/src/cache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..867cc7a 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -409,6 +409,10 @@ bool Cache::rename_item (string old_cid, string new_cid) {
             to_remove_inode = this->file_inode_mapping.at (new_cid);
         }
 
+        // two names of one file: rename does nothing
+        if (to_remove_inode == inode)
+            return return_val;
+
         this->file_inode_mapping.erase (old_cid);
         this->file_inode_mapping[new_cid] = inode;
 
-- 
2.43.0


From ba3bb22f33991a004e15ce0e4e295ea937a304e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:35 +0000
Subject: [PATCH 14/39] fix: forget a removed name even if its file is not
 cached

After clear-cache the names of a file with several links stayed mapped to its
inode, and removing such a name kept the mapping, so that a new file of that
name was taken for the old one.
---
 libs/libpcache/src/cache.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 867cc7a..44b3d1f 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -457,6 +457,8 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
 
+    this->file_inode_mapping.erase (string (path));
+
     if (not has_content_cached (owner)) {
 
         lock.unlock ();
@@ -465,8 +467,6 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    this->file_inode_mapping.erase (string (path));
-
     Item* item = _get_content_ptr (owner);
 
     nlink_t before_nlinks = item->get_metadata ()->nlinks;
-- 
2.43.0


From 36367859bbce7e5b1751a9719c70efac90e3eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 15/39] fix: change the cache only if the unlink or rename
 succeeded

The unsynced data of a file was dropped even though removing it failed, and
a failed rename moved the names of cached files. A symbolic link renamed
onto a cached file left the file's content in the cache.
---
 lazyfs/include/lazyfs/lazyfs.hpp |  9 ----
 lazyfs/src/lazyfs.cpp            | 79 ++++++++------------------------
 2 files changed, 18 insertions(+), 70 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5385a9a..60e86ed 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -261,15 +261,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool split_write(const char* path, const char* buf, size_t size, off_t offset);
 
-    /**
-     * @brief Checks whether a directory is empty of not by counting the number of entries.
-     *        It must be <= 2 to be empty, only containing "." and ".."
-     *
-     * @param dirname the path for the directory
-     * @return int 1 if is empty, 0 if not empty and -1 if an error occurred
-     */
-    static int lfs_is_dir_empty (const char* dirname);
-
     /**
      * @brief Returns a vector with the list of regular file names of all childs of a directory
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index d0d850e..6861eee 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1617,27 +1617,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     return res;
 }
 
-int LazyFS::lfs_is_dir_empty (const char* dirname) {
-
-    struct dirent* from_DIRENT;
-    DIR* from_DIR = opendir (dirname);
-
-    if (!from_DIR)
-        return -1;
-
-    int nr_files = 0;
-
-    while ((from_DIRENT = readdir (from_DIR)) != NULL) {
-
-        if (++nr_files > 2)
-            break;
-    }
-
-    closedir (from_DIR);
-
-    return (nr_files <= 2) ? 1 : 0;
-}
-
 void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
 
     struct dirent* from_DIRENT;
@@ -1670,41 +1649,19 @@ int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int
     std::vector<string> from_dir_filepaths;
     lfs_get_dir_filenames (from, &from_dir_filepaths);
 
-    // Check if destination folder exists
-
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
-
-            goto replace_prepend;
-
-        } else if (is_empty == 0) {
-
-            errno = ENOTEMPTY;
-
-            return -1;
-        }
+    if (rename (from, to) == -1)
+        return -1;
 
-    } else {
+    // a link may have replaced a cached file
 
-    replace_prepend:
+    string replaced_inode = this_ ()->FSCache->get_original_inode (to);
+    if (!replaced_inode.empty ())
+        this_ ()->FSCache->remove_cached_item (replaced_inode, to, false);
 
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
+    // all 'from' paths should be replaced with the new prepend
 
-        for (auto const& it : from_dir_filepaths) {
-
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
-    }
+    for (auto const& it : from_dir_filepaths)
+        this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())));
 
     return 0;
 }
@@ -1714,7 +1671,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     this_ ()->trigger_crash_fault ("rename", "before", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "before", from, to);
 
-    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
+    // alone, because the inode may be reused as soon as its last name is gone
+    std::unique_lock<std::shared_mutex> lock (cache_command_lock);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(from={},to={})", __FUNCTION__, from, to);
@@ -1731,15 +1689,15 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
     if (inode.empty ()) {
 
-        // from: is a dir, because getattr does not cache dirs
+        // from: is a dir or a link, because getattr does not cache them
 
-        lfs_recursive_rename (from, to, flags);
-        res = rename (from, to);
+        res = lfs_recursive_rename (from, to, flags);
 
     } else {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
         res = rename (from, to);
+        if (res == 0)
+            this_ ()->FSCache->rename_item (last_owner, new_owner);
     }
 
     if (res == -1)
@@ -2186,7 +2144,8 @@ int LazyFS::lfs_unlink (const char* path) {
     this_ ()->trigger_crash_fault ("unlink", "before", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
 
-    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
+    // alone, because the inode may be reused as soon as its last name is gone
+    std::unique_lock<std::shared_mutex> lock (cache_command_lock);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={})", __FUNCTION__, path);
@@ -2195,12 +2154,10 @@ int LazyFS::lfs_unlink (const char* path) {
     int res;
 
     string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
 
     res = unlink (path);
 
-    if (res == 0 && inode.empty ()) {
+    if (res == 0) {
         this_ ()->FSCache->remove_cached_item (inode, path, false);
     }
 
-- 
2.43.0


From 15d9354741622bce494a74bf00d2f601809789c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:01 +0000
Subject: [PATCH 16/39] fix: give the remainder of a torn write to its last
 part

The bytes left over by an uneven split were added to the last part that is
persisted, whichever that was, instead of to the last part of the write.
---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6861eee..e63aba6 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -630,7 +630,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                             size_t final_size_to_persist = size_to_persist;
 
                             off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
+                            if (extra_size_to_persist>0 && p == split_fault->parts) {
                                 spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
                                 final_size_to_persist += extra_size_to_persist;
                             }
-- 
2.43.0


From 1da3e674e4301079aaf4da78a82901241ef5aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:01 +0000
Subject: [PATCH 17/39] fix: crash after a torn fault also if the path has
 regex characters

The path was used as a regex, so for a file such as 'a+b' the parts were
persisted but LazyFS did not crash.
---
 lazyfs/src/lazyfs.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e63aba6..36f6d20 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -495,6 +495,12 @@ faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     return fault_r;
 }
 
+// a regex that matches exactly this text
+static string escape_regex (const string& text) {
+    static const std::regex special (R"([.^$|()\[\]{}*+?\\])");
+    return std::regex_replace (text, special, R"(\$&)");
+}
+
 bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t offset) {
     string path_str(path);
     int pw,fd;
@@ -522,7 +528,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
                 if (pw==this->pending_write->size) {
                     if ((fault->persist).size()==1) {
-                        this_ ()->add_crash_fault ("after", "write", path_str, "none");            
+                        this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
                         return res;
@@ -553,7 +559,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", path_str, "none"); 
+                            this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none"); 
                             spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
@@ -649,7 +655,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         } 
                     }
 
-                    this_ ()->add_crash_fault ("after", "write", path_s, "none");            
+                    this_ ()->add_crash_fault ("after", "write", escape_regex (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
-- 
2.43.0


From e1a19001cea0ccf77d8af6150685b2fb15512bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:01 +0000
Subject: [PATCH 18/39] fix: sort the writes a torn-seq fault persists,
 wherever it comes from

A fault sent to the FIFO kept the given order, and the crash came after the
last element instead of the last write, or never.
---
 libs/libpcache/src/faults.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/libpcache/src/faults.cpp b/libs/libpcache/src/faults.cpp
index 9be7980..08cb119 100644
--- a/libs/libpcache/src/faults.cpp
+++ b/libs/libpcache/src/faults.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <faults/faults.hpp>
 
 using namespace std;
@@ -16,6 +17,9 @@ ReorderF::ReorderF(string op, vector<int> persist, int occurrence) : Fault(TORN_
     (this->counter).store(0);
     this->op = op;
     this->persist = persist;
+    //The fault is injected in ascending order and ends with the last element
+    sort(this->persist.begin(), this->persist.end());
+    this->persist.erase(unique(this->persist.begin(), this->persist.end()), this->persist.end());
     this->occurrence = occurrence;
     (this->group_counter).store(0);
 
-- 
2.43.0


From 068e149b75ecf47a818d8bdbcc6b51900065f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:01 +0000
Subject: [PATCH 19/39] fix: reject torn-seq faults of the configuration that
 do not validate

The errors were assigned to a second variable of the same name.
---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From 85dfb4d5a07f0b613a6535990939ddf1de03adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:07 +0000
Subject: [PATCH 20/39] fix: keep a pending first write per file for torn-seq
 faults

---
 lazyfs/include/lazyfs/lazyfs.hpp |  6 +++---
 lazyfs/src/lazyfs.cpp            | 22 ++++++++++++----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 60e86ed..913d5c5 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -113,12 +113,12 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     std::unordered_map<string, unordered_set<string>> crash_faults;
 
     /**
-     * @brief Write that was put on hold and may or may not be persisted.
+     * @brief For each file, the write that was put on hold and may or may not be persisted.
      */
-    Write *pending_write;
+    std::unordered_map<string, Write*> pending_writes;
 
     /**
-     * @brief Lock for pending write.
+     * @brief Lock for pending writes.
     */
     std::mutex write_lock;
 
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 36f6d20..d4a1e73 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -79,7 +79,6 @@ LazyFS::LazyFS (Cache* cache,
     this->faults_handler_thread = faults_handler_thread;
     this->fht_worker            = fht_worker;
     this->faults                = faults;
-    this->pending_write         = NULL;
 
     for (auto const& it : this->allow_crash_fs_operations) {
         this->crash_faults_before_map.insert ({it, {}});
@@ -466,9 +465,11 @@ void LazyFS::restart_counter(string path, string op) {
 bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     bool res = false;
     (this->write_lock).lock();
-    if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {
-        delete(this->pending_write); 
-        this->pending_write = NULL;
+    auto it = this->pending_writes.find(path);
+    if (it != this->pending_writes.end()) {
+        res = it->second != NULL;
+        delete(it->second);
+        this->pending_writes.erase(it);
     }
     (this->write_lock).unlock();
 
@@ -509,6 +510,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
     
     if (fault) { //Fault for path found
         (this->write_lock).lock();
+        Write*& pending_write = this->pending_writes[path_str]; //Of this file only
 
         if (fault->counter.load()==2) {
             injecting_fault_lock.lock();
@@ -518,15 +520,15 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
             fault->group_counter.fetch_add(1);
         }
 
-        if (this->pending_write!=NULL) {
+        if (pending_write!=NULL) {
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (this->pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);
+                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
                 spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
                 close(fd);
 
-                if (pw==this->pending_write->size) {
+                if (pw==pending_write->size) {
                     if ((fault->persist).size()==1) {
                         this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
@@ -537,14 +539,14 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
                 }
             }
-            delete(this->pending_write); this->pending_write = NULL;
+            delete(pending_write); pending_write = NULL;
         }
         (this->write_lock).unlock();
         
         if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
             if (fault->counter==1) { //If array persist has 1st write, we need to store this write until we know another write will happen
                 (this->write_lock).lock();
-                this->pending_write = new Write(path,buf,size,offset);
+                this->pending_writes[path_str] = new Write(path,buf,size,offset);
                 (this->write_lock).unlock();
                 
             } else {
-- 
2.43.0


From c2bf41aec1e87099c0002d9b22f2ae186871d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 21/39] fix: report every range of unsynced blocks, and only
 the files asked for

---
 lazyfs/src/lazyfs.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index d4a1e73..52f2723 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -358,7 +358,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
@@ -383,7 +383,9 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_it = std::next (block_it);
+
+                        if (next_it == std::get<2> (it).end () || block_id != (get<0> (*next_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
@@ -395,8 +397,8 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                                 (offs.second + block_id * FSConfig->IO_BLOCK_SIZE) -
                                     (first_block_id * FSConfig->IO_BLOCK_SIZE));
 
-                            last_block_off_start = offs.first;
-                            last_block_index     = block_id;
+                            // the next block starts another range
+                            last_block_index = -1;
                         }
 
                         total_bytes_unsynced +=
-- 
2.43.0


From a387c17e77b618ecdf541ebabc83dadfce8c9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:52 +0000
Subject: [PATCH 22/39] fix: let several blocks share a page

---
 .../engine/backends/custom/custom_cache.cpp   | 27 ++++++++++++++-----
 libs/libpcache/src/engine/page/page.cpp       |  5 ++--
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..3c8f1c2 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -125,7 +125,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->owner_pages_mapping.find (owner_id) != this->owner_pages_mapping.end ()) {
 
-        auto free_pages = this->owner_free_pages_mapping.at (owner_id);
+        auto& free_pages = this->owner_free_pages_mapping.at (owner_id);
 
         if (free_pages.size () > 0) {
 
@@ -492,12 +492,14 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
             auto pptr = std::get<1> (cit->second);
             if (pptr->is_page_dirty ()) {
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
             }
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
+        // only now, because several blocks may share a page
+        for (auto const& it : new_iterate_blocks)
+            std::get<1> (it.second)->set_page_as_dirty (false);
+
+        off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
@@ -625,10 +627,23 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
                 page->remove_block (blk_id);
 
-                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                 this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
 
-                if (not page->is_page_dirty ()) {
+                auto& owner_free = this->owner_free_pages_mapping.at (content_owner_id);
+
+                if (not page->allocated_block_ids.empty ()) {
+
+                    // other blocks still live in this page, which has room for one more
+                    if (std::find (owner_free.begin (), owner_free.end (), page_id) ==
+                        owner_free.end ())
+                        owner_free.push_back (page_id);
+
+                } else {
+
+                    this->owner_pages_mapping.at (content_owner_id).erase (page_id);
+                    owner_free.erase (
+                        std::remove (owner_free.begin (), owner_free.end (), page_id),
+                        owner_free.end ());
 
                     // add page to free pages...
                     this->free_pages.push_back (page_id);
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 076460a..8cc5df8 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -110,9 +110,8 @@ void Page::get_block_data (int block_id, char* buffer, int read_to_max_index) {
 
     pair<int, int> offsets = get_block_offsets (block_id);
     int off_min            = offsets.first;
-    int off_max            = read_to_max_index + 1;
 
-    memcpy (buffer, this->data + off_min, off_max - off_min);
+    memcpy (buffer, this->data + off_min, read_to_max_index + 1);
 }
 
 pair<int, int> Page::get_block_offsets (int block_id) {
@@ -201,7 +200,7 @@ void Page::write_null_from (int block_id, int from_offset) {
 
     memset (this->data + off_first + from_offset,
             0,
-            this->config->IO_BLOCK_SIZE - off_first - from_offset);
+            this->config->IO_BLOCK_SIZE - from_offset);
 }
 
 void Page::remove_block (int block_id) {
-- 
2.43.0


From c9903189c5a239a614bdceadcb41d754d751c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 23/39] fix: write evicted pages to their file and keep the
 other pages intact

---
 lazyfs/src/lazyfs.cpp                         | 14 ++++---
 libs/libpcache/include/cache/cache.hpp        | 14 +++++++
 .../engine/backends/custom/custom_cache.hpp   |  8 ++++
 .../include/cache/engine/page/page.hpp        |  3 +-
 .../include/cache/engine/page_cache.hpp       |  9 +++++
 libs/libpcache/src/cache.cpp                  | 30 +++++++++++++--
 .../engine/backends/custom/custom_cache.cpp   | 37 ++++++++++++++-----
 libs/libpcache/src/engine/page/page.cpp       | 16 +++++---
 8 files changed, 106 insertions(+), 25 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 52f2723..ddc897a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1227,7 +1227,7 @@ int LazyFS::lfs_write (const char* path,
                                                            blk_readable_to - blk_readable_from + 1,
                                                            blk_readable_from,
                                                            blk_readable_to}}},
-                                                        OP_WRITE);
+                                                        OP_UPDATE);
                 bool curr_block_put_exists = put_res.find (CURR_BLK_IDX) != put_res.end ();
 
                 if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {
@@ -1511,11 +1511,15 @@ int LazyFS::lfs_read (const char* path,
 
             } else {
 
-                // todo: there could be a race condition between checking if the block is cached
-                // todo: and retrieving its data, so either lock the operation or go to the else
-                // todo: case
+                // the block was evicted in the meantime, so its data is in the file
 
-                // goto try_pread;
+                int pread_res = pread (fd_caching,
+                                       buf + BUF_ITERATOR,
+                                       blk_readable_to - blk_readable_from + 1,
+                                       CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
+
+                BUF_ITERATOR += pread_res;
+                BYTES_LEFT -= pread_res;
             }
 
         } else {
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 68dce2d..217a463 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -50,6 +50,12 @@ class Cache {
      *
      */
     unordered_map<string, string> file_inode_mapping;
+
+    /**
+     * @brief Also held by those who change the mapping, for _find_path.
+     *
+     */
+    std::mutex file_inode_mapping_mtx;
     /**
      * @brief A cache configuration object
      *
@@ -79,6 +85,14 @@ class Cache {
      */
     Item* _get_content_ptr (string cid);
 
+    /**
+     * @brief Finds a file of some content, without the lock of the cache.
+     *
+     * @param cid the content id
+     * @return string a path or an empty string
+     */
+    string _find_path (string cid);
+
     /**
      * @brief Gets the readable offsets associated with an Item block
      *
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 361977b..3f3b785 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -97,6 +97,12 @@ class CustomCacheEngine : public PageCacheEngine {
      */
     mutex lru_management_mtx;
 
+    /**
+     * @brief Gives a path for a content id
+     *
+     */
+    std::function<string (string)> path_resolver;
+
     /**
      * @brief Gets a page reference
      *
@@ -163,6 +169,8 @@ class CustomCacheEngine : public PageCacheEngine {
      */
     ~CustomCacheEngine ();
 
+    void set_path_resolver (std::function<string (string)> resolver);
+
     map<int, int>
     allocate_blocks (string content_owner_id,
                      map<int, tuple<int, const char*, size_t, int>> block_data_mapping,
diff --git a/libs/libpcache/include/cache/engine/page/page.hpp b/libs/libpcache/include/cache/engine/page/page.hpp
index b087606..c18244c 100644
--- a/libs/libpcache/include/cache/engine/page/page.hpp
+++ b/libs/libpcache/include/cache/engine/page/page.hpp
@@ -176,10 +176,11 @@ class Page {
     /**
      * @brief Writes page data to the underlying disk.
      *
+     * @param path the file that owns the page
      * @return true page was synced.
      * @return false error ocurred
      */
-    bool sync_data ();
+    bool sync_data (string path);
 
     /**
      * @brief Checks if a page has the diry flag on.
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index d05b700..4cd5f78 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -10,6 +10,7 @@
 #ifndef CACHE_ENGINE_HPP
 #define CACHE_ENGINE_HPP
 
+#include <functional>
 #include <map>
 #include <string>
 #include <sys/types.h>
@@ -32,6 +33,7 @@ namespace cache::engine {
 enum AllocateOperationType {
     OP_READ,       /**< Specifies that the put operation comes from a read operation */
     OP_WRITE,      /**< Specifies that the put operation comes from a write operation */
+    OP_UPDATE,     /**< Same as OP_WRITE, but only for blocks that are still cached */
     OP_PASSTHROUGH /**< Specifies the otherwise case (equal to OP_READ for now) */
 };
 
@@ -55,6 +57,13 @@ class PageCacheEngine {
      */
     virtual ~PageCacheEngine () {};
 
+    /**
+     * @brief Sets how to find a file of some content, to write evicted pages to
+     *
+     * @param resolver gives a path for a content id (or an empty string)
+     */
+    virtual void set_path_resolver (std::function<string (string)> resolver) = 0;
+
     /**
      * @brief The allocation method that tries to allocate the specified blocks in the cache if
      * space is available.
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 44b3d1f..b99c918 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -35,6 +35,7 @@ Cache::Cache (cache::config::Config* cache_config, PageCacheEngine* choosenEngin
     this->cache_config = cache_config;
     this->contents.reserve (1000);
     this->file_inode_mapping.reserve (1000);
+    this->engine->set_path_resolver ([this] (string cid) { return this->_find_path (cid); });
 }
 
 Cache::~Cache () {
@@ -81,7 +82,11 @@ string Cache::get_original_inode (string path) {
 void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
     lock_guard<std::shared_mutex> lock (lock_cache_mtx);
-    this->file_inode_mapping[path] = inode;
+
+    {
+        lock_guard<std::mutex> mapping_lock (file_inode_mapping_mtx);
+        this->file_inode_mapping[path] = inode;
+    }
 
     if (increase) {
         Metadata* oldmeta = get_content_metadata (inode);
@@ -93,6 +98,17 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
     }
 }
 
+string Cache::_find_path (string cid) {
+
+    lock_guard<std::mutex> mapping_lock (file_inode_mapping_mtx);
+
+    for (auto const& it : this->file_inode_mapping)
+        if (it.second == cid)
+            return it.first;
+
+    return "";
+}
+
 bool Cache::has_content_cached (string cid) {
 
     if (not this->contents.empty ())
@@ -413,8 +429,11 @@ bool Cache::rename_item (string old_cid, string new_cid) {
         if (to_remove_inode == inode)
             return return_val;
 
-        this->file_inode_mapping.erase (old_cid);
-        this->file_inode_mapping[new_cid] = inode;
+        {
+            lock_guard<std::mutex> mapping_lock (file_inode_mapping_mtx);
+            this->file_inode_mapping.erase (old_cid);
+            this->file_inode_mapping[new_cid] = inode;
+        }
 
         if (has_content_cached (to_remove_inode)) {
 
@@ -457,7 +476,10 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
 
-    this->file_inode_mapping.erase (string (path));
+    {
+        lock_guard<std::mutex> mapping_lock (file_inode_mapping_mtx);
+        this->file_inode_mapping.erase (string (path));
+    }
 
     if (not has_content_cached (owner)) {
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 3c8f1c2..2f6cb26 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -62,6 +62,11 @@ CustomCacheEngine::~CustomCacheEngine () {
     }
 }
 
+void CustomCacheEngine::set_path_resolver (std::function<string (string)> resolver) {
+
+    this->path_resolver = resolver;
+}
+
 double CustomCacheEngine::get_engine_usage () {
 
     std::lock_guard<std::shared_mutex> lock (lock_cache_mtx);
@@ -159,6 +164,11 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         string old_owner = page_to_reset->get_page_owner ();
 
+        // without its data on disk, the page has to stay
+        if (page_to_reset->is_page_dirty () &&
+            not page_to_reset->sync_data (this->path_resolver (old_owner)))
+            return make_pair (-1, nullptr);
+
         auto blocks = page_to_reset->allocated_block_ids.get_block_readable_offsets ();
 
         if (this->owner_ordered_pages_mapping.find (old_owner) !=
@@ -170,11 +180,12 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         if (this->owner_pages_mapping.find (old_owner) != this->owner_pages_mapping.end ()) {
             this->owner_pages_mapping.at (old_owner).erase (replace_page_id);
-            // todo: if in free pages remove from there
-        }
 
-        if (page_to_reset->is_page_dirty ())
-            page_to_reset->sync_data ();
+            auto& old_owner_free = this->owner_free_pages_mapping.at (old_owner);
+            old_owner_free.erase (
+                std::remove (old_owner_free.begin (), old_owner_free.end (), replace_page_id),
+                old_owner_free.end ());
+        }
 
         // cout << "[engine] _get_next_free_page: Resetting page '" <<
         // replace_page_id << "'...\n";
@@ -230,6 +241,8 @@ void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_pa
 
 bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {
 
+    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);
+
     Page* p = _get_page_ptr (page_id);
 
     if (p == nullptr)
@@ -262,7 +275,6 @@ void CustomCacheEngine::_update_owner_pages (string new_owner,
         if (this->owner_pages_mapping.find (real_owner) != this->owner_pages_mapping.end ()) {
 
             this->owner_pages_mapping.at (real_owner).erase (page_id);
-            this->owner_ordered_pages_mapping.at (real_owner).erase (block_id);
 
             if (this->owner_pages_mapping.at (real_owner).empty ()) {
 
@@ -385,6 +397,13 @@ map<int, int> CustomCacheEngine::allocate_blocks (
                 continue;
             }
         }
+        // the block was evicted: the rest of it is not here
+
+        if (operation_type == OP_UPDATE) {
+            res_block_allocated_pages.insert (pair<int, int> (blk_id, -1));
+            continue;
+        }
+
         // default behaviour if a new free page is needed
 
         pair<int, Page*> next_free_page = _get_next_free_page (content_owner_id);
@@ -611,17 +630,15 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
         Page* page = _get_page_ptr (page_id);
 
-        if (page->is_page_owner (content_owner_id)) {
+        if (page->is_page_owner (content_owner_id) && page->contains_block (blk_id)) {
 
             // std::printf ("%s: %s is page %d owner\n", __func__, content_owner_id.c_str (),
             // page_id);
 
             if (blk_id == from_block_id && index_inside_block > 0) {
 
-                if (page->contains_block (from_block_id)) {
-                    page->make_block_readable_to (from_block_id, index_inside_block - 1);
-                    page->write_null_from (from_block_id, index_inside_block);
-                }
+                page->make_block_readable_to (from_block_id, index_inside_block - 1);
+                page->write_null_from (from_block_id, index_inside_block);
 
             } else {
 
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 8cc5df8..7c3a34c 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -141,6 +141,11 @@ bool Page::update_block_data (int block_id, char* new_data, size_t data_length,
                                     off_min + off_start,
                                     off_min + off_start + data_length - 1);
 
+        // the page may be evicted at any time: all of the block must be written then
+        int readable_to = off_start + (int)data_length - 1;
+        if (readable_to > this->allocated_block_ids.get_readable_to (block_id))
+            make_block_readable_to (block_id, readable_to);
+
     } else
         return false;
 
@@ -151,11 +156,12 @@ bool Page::is_page_dirty () { return this->is_dirty; }
 
 void Page::set_page_as_dirty (bool dirty) { this->is_dirty = dirty; }
 
-bool Page::sync_data () {
+bool Page::sync_data (string path) {
+
+    int fd = open (path.c_str (), O_WRONLY);
 
-    char const* path;
-    path   = this->page_owner_id.c_str ();
-    int fd = open (path, O_WRONLY);
+    if (fd < 0)
+        return false;
 
     int should_write = 0, actually_wrote = 0;
 
@@ -164,7 +170,7 @@ bool Page::sync_data () {
     for (auto it = block_rdble_offs.begin (); it != block_rdble_offs.end (); ++it) {
         if (contains_block (it->first)) {
             pair<int, int> data_offsets = get_block_offsets (it->first);
-            int offset                  = it->first * this->config->IO_BLOCK_SIZE;
+            off_t offset                = it->first * (off_t)this->config->IO_BLOCK_SIZE;
             int total_bytes             = this->config->IO_BLOCK_SIZE;
             if (it == prev (block_rdble_offs.end (), 1))
                 total_bytes = it->second + 1;
-- 
2.43.0


From 115c9486606a51c18233417a1cc12a43af8bb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 24/39] fix: report backing errors to the caller of fsync and
 write, keep the data unsynced

---
 lazyfs/src/lazyfs.cpp                         | 92 ++++++++++++-------
 libs/libpcache/include/cache/cache.hpp        |  2 +-
 .../engine/backends/custom/custom_cache.hpp   |  2 +-
 .../include/cache/engine/page_cache.hpp       |  5 +-
 libs/libpcache/src/cache.cpp                  |  8 +-
 .../engine/backends/custom/custom_cache.cpp   | 54 +++++++++--
 6 files changed, 114 insertions(+), 49 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ddc897a..53b2c9b 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -969,7 +969,8 @@ int LazyFS::lfs_write (const char* path,
     }
 
     int fd;
-    int res;
+    int res       = size;
+    int write_err = 0;
 
     (void)fi;
     if (fi == NULL) {
@@ -998,6 +999,9 @@ int LazyFS::lfs_write (const char* path,
 
         res = pwrite (fd, buf, size, offset);
 
+        if (res == -1)
+            write_err = errno;
+
     } else {
 
         // ----------------------------------------------------------------------------------
@@ -1039,8 +1043,12 @@ int LazyFS::lfs_write (const char* path,
                 if (size_to_fill > 0) {
 
                     char* fill_zeros = (char*)calloc (size_to_fill, 1);
-                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
+                    int filled =
+                        lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
                     free (fill_zeros);
+
+                    if (filled != size_to_fill)
+                        return filled < 0 ? filled : -EIO;
                 }
             }
         }
@@ -1054,6 +1062,7 @@ int LazyFS::lfs_write (const char* path,
         off_t data_allocated       = 0;
         off_t data_buffer_iterator = 0;
         int fd_caching             = open (path, O_RDONLY);
+        int fd_caching_err         = errno;
 
         char block_caching_buffer[IO_BLOCK_SIZE];
         map<int, tuple<const char*, size_t, int, int>> put_mapping;
@@ -1128,7 +1137,7 @@ int LazyFS::lfs_write (const char* path,
                         // Read failed for this file,
                         // We assume that the file is not reachable
 
-                        res = -1;
+                        write_err = errno;
                         break;
 
                     } else {
@@ -1193,7 +1202,12 @@ int LazyFS::lfs_write (const char* path,
                                                      CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
 
                             if (pwrite_res != cache_wr_sz) {
-                                res = -1;
+                                write_err = pwrite_res < 0 ? errno : EIO;
+                                // what came before in the block was not asked for
+                                data_buffer_iterator += std::clamp (
+                                    pwrite_res - (blk_readable_from - cache_from),
+                                    (off_t)0,
+                                    blk_readable_to - blk_readable_from + 1);
                                 break;
                             }
                         }
@@ -1204,7 +1218,7 @@ int LazyFS::lfs_write (const char* path,
                     // Read failed for this file,
                     // We assume that the file is not reachable
 
-                    res = -1;
+                    write_err = fd_caching_err;
                     break;
                 }
 
@@ -1238,7 +1252,8 @@ int LazyFS::lfs_write (const char* path,
                                              CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
                     if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
-                        res = -1;
+                        write_err = pwrite_res < 0 ? errno : EIO;
+                        data_buffer_iterator += std::max (pwrite_res, 0);
                         break;
                     }
                 }
@@ -1253,7 +1268,11 @@ int LazyFS::lfs_write (const char* path,
 
         // ----------------------------------------------------------------------------------
 
-        bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
+        // only what was really written counts
+        size = data_buffer_iterator;
+        res  = size;
+
+        bool locked = size > 0 && this_ ()->FSCache->lockItemCheckExists (inode);
 
         if (locked) {
 
@@ -1291,7 +1310,7 @@ int LazyFS::lfs_write (const char* path,
     
     string fault_type = CLEAR;
 
-    if (is_request) {
+    if (is_request && write_err == 0) {
         bool crash_added = this_ () -> persist_write(path,buf,size,offset);
         if (!crash_added) { //At the moment only one fault type can be injected
             crash_added =  this_ () -> split_write(path,buf,size,offset);
@@ -1301,18 +1320,15 @@ int LazyFS::lfs_write (const char* path,
         }
     }
 
-    // res should be = actual bytes written as pwrite could fail...
-    res = size;
+    if (write_err != 0 && res <= 0)
+        res = -write_err;
 
     // std::printf ("\twrite: returning %d bytes\n", res);
 
-    if (res == -1)
-        res = -errno;
-
     if (fi == NULL)
         close (fd);
 
-    if (is_request) {
+    if (is_request && write_err == 0) {
         lock.unlock ();
 
         this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
@@ -1365,6 +1381,7 @@ int LazyFS::lfs_read (const char* path,
     off_t BUF_ITERATOR   = 0;
     off_t BYTES_LEFT     = size;
     off_t data_allocated = 0;
+    int read_err         = 0;
 
     char read_buffer[IO_BLOCK_SIZE];
 
@@ -1463,6 +1480,11 @@ int LazyFS::lfs_read (const char* path,
                                        last_pread_chunk_size,
                                        last_pread_chunk_offset);
 
+                if (pread_res < 0) {
+                    read_err = errno;
+                    break;
+                }
+
                 BUF_ITERATOR += pread_res;
                 BYTES_LEFT -= pread_res;
 
@@ -1518,6 +1540,11 @@ int LazyFS::lfs_read (const char* path,
                                        blk_readable_to - blk_readable_from + 1,
                                        CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
+                if (pread_res < 0) {
+                    read_err = errno;
+                    break;
+                }
+
                 BUF_ITERATOR += pread_res;
                 BYTES_LEFT -= pread_res;
             }
@@ -1558,30 +1585,34 @@ int LazyFS::lfs_read (const char* path,
                 // Read failed for this file,
                 // We assume that the file is not reachable
 
-                res = -1;
+                read_err = EIO;
                 break;
             }
         }
     }
 
-    if (last_pread_chunk_size > 0) {
+    if (last_pread_chunk_size > 0 && read_err == 0) {
         int pread_res =
             pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, last_pread_chunk_offset);
 
-        BUF_ITERATOR += pread_res;
-        BYTES_LEFT -= pread_res;
+        if (pread_res < 0) {
+            read_err = errno;
+        } else {
+            BUF_ITERATOR += pread_res;
+            BYTES_LEFT -= pread_res;
+        }
     }
 
     // ---------------------------------------------------------
 
     res = BUF_ITERATOR;
 
-    if (res == -1)
-        res = -errno;
-
     if (fi == NULL)
         close (fd);
 
+    if (read_err != 0)
+        return -read_err;
+
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
@@ -1623,6 +1654,12 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
                               : fsync (fi->fh);
 
 
+    if (res == -1 && not is_owner_cached)
+        res = -errno;
+
+    if (res < 0)
+        return res;
+
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
@@ -1815,18 +1852,11 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
         int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, NULL);
 
-        if (r != add_bytes_total) {
-
-            int res;
-
-            if (fi != NULL)
-                res = ftruncate (fi->fh, truncate_size);
-            else
-                res = truncate (path, truncate_size);
-        }
-
         free (buf);
 
+        if (r != add_bytes_total)
+            return r < 0 ? r : -EIO;
+
     } else if (truncate_size < previous_metadata->size) {
 
         this_ ()->FSCache->truncate_item (inode, truncate_size);
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 217a463..29dcb9c 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -254,7 +254,7 @@ class Cache {
      * @param owner the content id
      * @param only_sync_data only sync data from content
      * @param orig_path original path to write data
-     * @return int true if item was removed
+     * @return int 0 if the item was synced, otherwise a negated errno
      */
     int sync_owner (string owner, bool only_sync_data, char* orig_path);
 
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 3f3b785..710dca4 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -182,7 +182,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    bool sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index 4cd5f78..0d17608 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -145,10 +145,9 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
-     * @return true the pages were synced
-     * @return false the content was not found
+     * @return int 0 if the pages were synced, otherwise a negated errno: they stay dirty
      */
-    virtual bool sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index b99c918..eb222a2 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -376,7 +376,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     if (!has_content_cached (owner)) {
 
         lock.unlock ();
-        return -1;
+        return -ENOENT;
     }
 
     lockItem (owner);
@@ -389,9 +389,11 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     off_t last_size = get_content_metadata (owner)->size;
 
     res = this->engine->sync_pages (owner, last_size, orig_path);
-    _get_content_ptr (owner)->set_data_sync_flag (true);
 
-    if (not only_sync_data) {
+    if (res == 0)
+        _get_content_ptr (owner)->set_data_sync_flag (true);
+
+    if (res == 0 && not only_sync_data) {
 
         // sync metadata
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 2f6cb26..b3bb203 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -17,6 +17,7 @@
 #include <iterator>
 #include <map>
 #include <spdlog/spdlog.h>
+#include <sys/stat.h>
 #include <sys/uio.h>
 #include <tuple>
 #include <unistd.h>
@@ -490,11 +491,31 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
-    int fd = open (orig_path, O_WRONLY);
+    int res = 0;
+    int fd  = open (orig_path, O_WRONLY);
+
+    if (fd < 0) {
+
+        res = -errno;
+
+        // a file that may not be written is fine as long as it has nothing to be written
+
+        struct stat stats;
+        if (stat (orig_path, &stats) < 0 || stats.st_size != size)
+            return res;
+
+        if (this->owner_ordered_pages_mapping.find (owner) !=
+            this->owner_ordered_pages_mapping.end ())
+            for (auto const& it : this->owner_ordered_pages_mapping.at (owner))
+                if (std::get<1> (it.second)->is_page_dirty ())
+                    return res;
+
+        return 0;
+    }
 
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
@@ -514,10 +535,6 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
             }
         }
 
-        // only now, because several blocks may share a page
-        for (auto const& it : new_iterate_blocks)
-            std::get<1> (it.second)->set_page_as_dirty (false);
-
         off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
@@ -542,6 +559,7 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_chunk.push_back (it->second);
 
                 struct iovec iov[page_streak];
+                off_t should_write = 0;
 
                 page_streak_last_offset =
                     (current_block_id - page_streak + 1) * this->config->IO_BLOCK_SIZE;
@@ -563,11 +581,21 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                         iov[p_id].iov_len = this->config->IO_BLOCK_SIZE;
                     }
 
-                    // mark block as clean
-                    std::get<3> (iterate_blocks.at (streak_block)) = true;
+                    should_write += iov[p_id].iov_len;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                wrote_bytes = pwritev (fd, iov, page_streak, page_streak_last_offset);
+
+                if (wrote_bytes != should_write) {
+
+                    res = wrote_bytes < 0 ? -errno : -EIO;
+
+                } else {
+
+                    // mark blocks as clean
+                    for (int p_id = 0; p_id < page_streak; p_id++)
+                        std::get<3> (iterate_blocks.at (current_block_id - p_id)) = true;
+                }
 
                 page_streak = 0;
 
@@ -576,15 +604,21 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_streak_last_offset = (current_block_id + 1) * this->config->IO_BLOCK_SIZE;
             }
         }
+
+        // only now, because several blocks may share a page
+        if (res == 0)
+            for (auto const& it : new_iterate_blocks)
+                std::get<1> (it.second)->set_page_as_dirty (false);
     }
 
     if (ftruncate (fd, size) < 0) {
+        res = res < 0 ? res : -errno;
         spdlog::info ("ftruncate: failed");
     }
 
     close (fd);
 
-    return 0;
+    return res;
 }
 
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
-- 
2.43.0


From c2322170aafb4164b7cd82a21e5a840cd7b9e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 25/39] fix: keep the times set by the application, and sync
 them to the file

---
 lazyfs/src/lazyfs.cpp        | 26 ++++++++++++++++++++++++++
 libs/libpcache/src/cache.cpp | 10 ++++------
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 53b2c9b..8c9f779 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2150,6 +2150,32 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    // cached times take precedence
+
+    struct stat stats;
+    string inode = this_ ()->FSCache->get_original_inode (path);
+
+    if (!inode.empty () && lstat (path, &stats) == 0) {
+
+        Metadata meta;
+        vector<string> values_to_change;
+
+        if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT) {
+            meta.atim = stats.st_atim;
+            values_to_change.push_back ("atime");
+        }
+
+        if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT) {
+            meta.mtim = stats.st_mtim;
+            values_to_change.push_back ("mtime");
+        }
+
+        if (this_ ()->FSCache->lockItemCheckExists (inode)) {
+            this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);
+            this_ ()->FSCache->unlockItem (inode);
+        }
+    }
+
     return 0;
 }
 // #endif
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index eb222a2..7839ace 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -17,7 +17,8 @@
 #include <mutex>
 #include <spdlog/spdlog.h>
 #include <sys/syscall.h>
-#include <sys/time.h>
+#include <fcntl.h>
+#include <sys/stat.h>
 #include <sys/xattr.h>
 #include <thread>
 #include <tuple>
@@ -399,12 +400,9 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
         Metadata* meta = _get_content_ptr (owner)->get_metadata ();
 
-        struct timeval times[2];
-        TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
-        TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
+        struct timespec times[2] = {meta->atim, meta->mtim};
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        utimensat (AT_FDCWD, orig_path, times, AT_SYMLINK_NOFOLLOW);
     }
 
     unlockItem (owner);
-- 
2.43.0


From 6fdf333a5f4e5b243dbbccfef21e37f09671494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:37 +0000
Subject: [PATCH 26/39] fix: keep link counts right if the cache is cleared
 between lookup and link, rename or unlink

---
 lazyfs/include/lazyfs/lazyfs.hpp |  7 +++++++
 lazyfs/src/lazyfs.cpp            | 22 +++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 913d5c5..8bb8fd7 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -279,6 +279,13 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     static int lfs_recursive_rename (const char* from, const char* to, unsigned int flags);
 
+    /**
+     * @brief Makes sure that the cache knows which file a name belongs to
+     *
+     * @param path the name
+     */
+    static void map_name (const char* path);
+
     static void* lfs_init (struct fuse_conn_info*, struct fuse_config* cfg);
 
     static void lfs_destroy (void*);
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8c9f779..6fbf5c7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1695,6 +1695,15 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
     closedir (from_DIR);
 }
 
+void LazyFS::map_name (const char* path) {
+
+    struct stat stats;
+
+    if (this_ ()->FSCache->get_original_inode (path).empty () && lstat (path, &stats) == 0 &&
+        S_ISREG (stats.st_mode))
+        this_ ()->FSCache->insert_inode_mapping (path, to_string (stats.st_ino), false);
+}
+
 int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
 
     std::vector<string> from_dir_filepaths;
@@ -1734,6 +1743,10 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (flags)
         return -EINVAL;
 
+    // the cache may have been cleared since the names were looked up
+    map_name (from);
+    map_name (to);
+
     string last_owner (from);
     string inode = this_ ()->FSCache->get_original_inode (last_owner);
     string new_owner (to);
@@ -1973,7 +1986,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     this_ ()->trigger_crash_fault ("link", "before", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "before", from, to);
 
-    std::shared_lock<std::shared_mutex> lock (cache_command_lock);
+    // alone, because the link count of the file and of the cache change one after the other
+    std::unique_lock<std::shared_mutex> lock (cache_command_lock);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(from={},to={})", __FUNCTION__, from, to);
@@ -1986,6 +2000,9 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    // the cache may have been cleared since the name was looked up
+    map_name (from);
+
     string inode = this_ ()->FSCache->get_original_inode (from);
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
@@ -2223,6 +2240,9 @@ int LazyFS::lfs_unlink (const char* path) {
 
     int res;
 
+    // the cache may have been cleared since the name was looked up
+    map_name (path);
+
     string inode = this_ ()->FSCache->get_original_inode (path);
 
     res = unlink (path);
-- 
2.43.0


From 604cbc4a83cd93b4406667d23cd0a95481bdb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:38 +0000
Subject: [PATCH 27/39] fix: protect the maps of cached items and their locks

---
 libs/libpcache/include/cache/cache.hpp | 14 ++++++
 libs/libpcache/src/cache.cpp           | 59 +++++++++++++++++---------
 2 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 29dcb9c..d6b3659 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -71,6 +71,13 @@ class Cache {
      *
      */
     unordered_map<string, std::shared_mutex*> item_locks;
+
+    /**
+     * @brief Protects the maps of contents and of their locks, and is never held while waiting for
+     * another lock.
+     *
+     */
+    std::shared_mutex contents_mtx;
     /**
      * @brief Cache engine abstraction object
      *
@@ -93,6 +100,13 @@ class Cache {
      */
     string _find_path (string cid);
 
+    /**
+     * @brief Gets the lock of some content.
+     *
+     * @param cid the content id
+     */
+    std::shared_mutex* _get_item_lock (string cid);
+
     /**
      * @brief Gets the readable offsets associated with an Item block
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 7839ace..b9535a7 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -90,11 +90,12 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
     }
 
     if (increase) {
-        Metadata* oldmeta = get_content_metadata (inode);
         Metadata newmeta;
-        if (oldmeta != nullptr) {
-            newmeta.nlinks = oldmeta->nlinks + 1;
+        if (has_content_cached (inode)) {
+            lockItem (inode);
+            newmeta.nlinks = get_content_metadata (inode)->nlinks + 1;
             this->update_content_metadata (inode, newmeta, {"nlinks"});
+            unlockItem (inode);
         }
     }
 }
@@ -112,17 +113,18 @@ string Cache::_find_path (string cid) {
 
 bool Cache::has_content_cached (string cid) {
 
-    if (not this->contents.empty ())
-        return this->contents.find (cid) != this->contents.end ();
-    return false;
+    std::shared_lock<shared_mutex> contents_lock (contents_mtx);
+
+    return this->contents.find (cid) != this->contents.end ();
 }
 
 Item* Cache::_get_content_ptr (string cid) {
 
-    if (has_content_cached (cid))
-        return this->contents.at (cid);
+    std::shared_lock<shared_mutex> contents_lock (contents_mtx);
+
+    auto it = this->contents.find (cid);
 
-    return nullptr;
+    return it != this->contents.end () ? it->second : nullptr;
 }
 
 bool Cache::is_block_cached (string cid, int blk_id) {
@@ -133,8 +135,12 @@ bool Cache::is_block_cached (string cid, int blk_id) {
 
     if (has_content_cached (cid)) {
 
-        int page  = this->contents.at (cid)->get_data ()->get_page_id (blk_id);
+        lockItem (cid);
+
+        int page  = _get_content_ptr (cid)->get_data ()->get_page_id (blk_id);
         is_cached = this->engine->is_block_cached (cid, page, blk_id);
+
+        unlockItem (cid);
     }
 
     return is_cached;
@@ -169,15 +175,24 @@ Item* Cache::_create_item (string cid) {
 
     Item* cid_item = new Item ();
 
+    std::unique_lock<shared_mutex> contents_lock (contents_mtx);
+
     this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
     this->contents.insert (make_pair (cid, cid_item));
 
     return cid_item;
 }
 
-void Cache::lockItem (string cid) { item_locks[cid]->lock (); }
+std::shared_mutex* Cache::_get_item_lock (string cid) {
 
-void Cache::unlockItem (string cid) { item_locks[cid]->unlock (); }
+    std::shared_lock<shared_mutex> contents_lock (contents_mtx);
+
+    return this->item_locks.at (cid);
+}
+
+void Cache::lockItem (string cid) { _get_item_lock (cid)->lock (); }
+
+void Cache::unlockItem (string cid) { _get_item_lock (cid)->unlock (); }
 
 pair<int, int> Cache::_get_readable_offsets (string cid, Item* item, int blk_id) {
 
@@ -319,6 +334,7 @@ bool Cache::_delete_item (string cid) {
     if (item != nullptr) {
         delete item;
 
+        std::unique_lock<shared_mutex> contents_lock (contents_mtx);
         this->contents.erase (cid);
     }
 
@@ -460,10 +476,8 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
                 unlockItem (to_remove_inode);
 
-                if (!this->item_locks.empty () &&
-                    (this->item_locks.find (to_remove_inode) != this->item_locks.end ())) {
-                    this->item_locks.erase (to_remove_inode);
-                }
+                std::unique_lock<shared_mutex> contents_lock (contents_mtx);
+                this->item_locks.erase (to_remove_inode);
             }
         }
     }
@@ -509,7 +523,8 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     unlockItem (owner);
 
-    if (!this->item_locks.empty () && (this->item_locks.find (owner) != this->item_locks.end ())) {
+    {
+        std::unique_lock<shared_mutex> contents_lock (contents_mtx);
         this->item_locks.erase (owner);
     }
 
@@ -553,10 +568,8 @@ void Cache::clear_all_cache () {
 
             unlockItem (it);
 
-            if (!this->item_locks.empty () &&
-                (this->item_locks.find (it) != this->item_locks.end ())) {
-                this->item_locks.erase (it);
-            }
+            std::unique_lock<shared_mutex> contents_lock (contents_mtx);
+            this->item_locks.erase (it);
         }
 
         lock.unlock ();
@@ -594,10 +607,14 @@ Cache::report_unsynced_data () {
     std::vector<tuple<string, size_t, vector<tuple<int, pair<int, int>, int>>>> unsynced_data;
 
     for (auto const& it : this->contents) {
+        lockItem (it.first);
+
         if (not it.second->is_synced ()) {
             unsynced_data.push_back (
                 std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
         }
+
+        unlockItem (it.first);
     }
 
     return unsynced_data;
-- 
2.43.0


From f289c68b2138eb7fa2f6be08b57df8259520d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 28/39] fix: cache an item together with its metadata

---
 lazyfs/src/lazyfs.cpp                  | 32 ++++++++------------------
 libs/libpcache/include/cache/cache.hpp | 10 ++++++++
 libs/libpcache/src/cache.cpp           | 12 ++++++++++
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6fbf5c7..98caaf2 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -717,33 +717,19 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
         this_ ()->FSCache->insert_inode_mapping (content_owner, inode, false);
     }
 
-    bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
-
-    if (!locked) {
-
-        this_ ()->FSCache->put_data_blocks (inode, {}, OP_PASSTHROUGH);
-
-        bool locked_now = this_ ()->FSCache->lockItemCheckExists (inode);
+    Metadata new_meta;
 
-        if (locked_now) {
+    new_meta.size   = stbuf->st_size;
+    new_meta.atim   = stbuf->st_atim;
+    new_meta.ctim   = stbuf->st_ctim;
+    new_meta.mtim   = stbuf->st_mtim;
+    new_meta.nlinks = stbuf->st_nlink;
 
-            Metadata meta;
-
-            meta.size   = stbuf->st_size;
-            meta.atim   = stbuf->st_atim;
-            meta.ctim   = stbuf->st_ctim;
-            meta.mtim   = stbuf->st_mtim;
-            meta.nlinks = stbuf->st_nlink;
-
-            this_ ()->FSCache->update_content_metadata (
-                inode,
-                meta,
-                {"size", "atime", "ctime", "mtime", "nlinks"});
+    // at once, so that nobody sees an item without its metadata or changes it before
 
-            this_ ()->FSCache->unlockItem (inode);
-        }
+    bool created = this_ ()->FSCache->insert_item (inode, new_meta);
 
-    } else if (locked) {
+    if (!created && this_ ()->FSCache->lockItemCheckExists (inode)) {
 
         /*
         Content is cached, must return cached metadata
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index d6b3659..b246aaa 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -149,6 +149,16 @@ class Cache {
      */
     bool _delete_item (string cid);
 
+    /**
+     * @brief Caches the metadata of some content, unless it is cached already.
+     *
+     * @param cid the content id
+     * @param meta the metadata
+     * @return true the item was created
+     * @return false the item was already there
+     */
+    bool insert_item (string cid, Metadata meta);
+
     /**
      * @brief Checks if a content is cached
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index b9535a7..382a8b7 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -183,6 +183,18 @@ Item* Cache::_create_item (string cid) {
     return cid_item;
 }
 
+bool Cache::insert_item (string cid, Metadata meta) {
+
+    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
+
+    if (has_content_cached (cid))
+        return false;
+
+    _create_item (cid)->update_metadata (meta, {"size", "atime", "ctime", "mtime", "nlinks"});
+
+    return true;
+}
+
 std::shared_mutex* Cache::_get_item_lock (string cid) {
 
     std::shared_lock<shared_mutex> contents_lock (contents_mtx);
-- 
2.43.0


From 061d1d3ed4afa645a1638a5f482bb8beef580738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 29/39] fix: protect the maps of faults, count the call a
 clear-cache fault is in

---
 lazyfs/include/lazyfs/lazyfs.hpp | 12 +++++++
 lazyfs/src/lazyfs.cpp            | 54 +++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 8bb8fd7..9fe9cd8 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -104,6 +104,18 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     unordered_map<string,vector<faults::Fault*>>* faults;
 
+    /**
+     * @brief Lock for the maps of faults, which commands add to.
+    */
+    std::mutex faults_lock;
+
+    /**
+     * @brief Gets the faults of a file.
+     *
+     * @param path the file
+     * @return vector<faults::Fault*> its faults
+     */
+    vector<faults::Fault*> get_faults (const string& path);
 
     /**
      * @brief Faults of LazyFS crash injected during runtime.
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 98caaf2..1afc00a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -93,6 +93,15 @@ vector<string> LazyFS::get_injecting_fault() {
     return injecting_fault;
 }
 
+vector<faults::Fault*> LazyFS::get_faults (const string& path) {
+
+    std::lock_guard<std::mutex> lock (faults_lock);
+
+    auto it = faults->find (path);
+
+    return it != faults->end () ? it->second : vector<faults::Fault*> ();
+}
+
 void LazyFS::trigger_crash_fault (string opname,
                                   string optiming,
                                   string from_op_path,
@@ -114,10 +123,14 @@ void LazyFS::trigger_crash_fault (string opname,
     status = lstat(char_array, &buffer);
 */
 
-    if (optiming == "before") {
-        opfaults = this->crash_faults_before_map.at (opname);
-    } else {
-        opfaults = this->crash_faults_after_map.at (opname);
+    {
+        std::lock_guard<std::mutex> lock (faults_lock);
+
+        if (optiming == "before") {
+            opfaults = this->crash_faults_before_map.at (opname);
+        } else {
+            opfaults = this->crash_faults_after_map.at (opname);
+        }
     }
 
     if (opfaults.size () > 0) {
@@ -170,10 +183,12 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                                   string from_path,
                                   string to_path) {
 
-    auto it = faults->find(from_path);
+    // the number of the call that this thread is in, for what comes after it
+    static thread_local std::unordered_map<faults::ClearF*, int> call_number;
+
+    auto v_faults = get_faults (from_path);
 
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    if (v_faults.size () > 0) {
 
         for (auto fault : v_faults) {
             faults::ClearF* clear_fault = dynamic_cast<faults::ClearF*>(fault);
@@ -184,11 +199,11 @@ void LazyFS::trigger_configured_clear_fault (string opname,
 
                 if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {
                     
-                    int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1) + 1;
+                        call_number[clear_fault] = clear_fault->counter.fetch_add(1) + 1;
                     }
-            
+                    int current_count = call_number[clear_fault];
+
                     if (clear_fault->timing == optiming) {
 
                         if (current_count == clear_fault->occurrence) {
@@ -225,6 +240,8 @@ void LazyFS::add_crash_fault (string crash_timing,
     if (crash_regex_from == "none")
         crash_regex_from = "";
 
+    std::lock_guard<std::mutex> lock (faults_lock);
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
@@ -278,6 +295,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     }
     
     bool valid_fault = true;
+    std::lock_guard<std::mutex> lock (faults_lock);
     if (errors.size() == 0) {
 
         auto it = faults->find(path);
@@ -315,6 +333,7 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
     vector<string> errors = fault->validate();
 
     bool valid_fault = true;
+    std::lock_guard<std::mutex> lock (faults_lock);
     if (errors.size() == 0) {
         auto it = faults->find(path);
         if (it == faults->end())
@@ -452,9 +471,8 @@ void LazyFS::command_checkpoint () {
 }
 
 void LazyFS::restart_counter(string path, string op) {
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path);
+    if (v_faults.size () > 0) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op)  {
@@ -484,9 +502,8 @@ bool LazyFS::check_and_delete_pendingwrite(const char* path) {
 
 faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     faults::ReorderF* fault_r = NULL;
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path);
+    if (v_faults.size () > 0) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op) {
@@ -583,9 +600,8 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
     int fd;
     bool res = false;
 
-    auto it = faults->find(path_s);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path_s);
+    if (v_faults.size () > 0) {
         for (auto fault : v_faults) { 
             faults::SplitWriteF* split_fault = dynamic_cast<faults::SplitWriteF*>(fault);
             if (split_fault) {
-- 
2.43.0


From 52d94cb682c4618d9e07d90960267f060b5a788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 30/39] fix: report unsynced data while nothing changes

---
 lazyfs/src/lazyfs.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 1afc00a..a318e72 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -164,9 +164,7 @@ void LazyFS::trigger_crash_fault (string opname,
 
                 spdlog::critical ("Triggered fault condition (op={},timing={})", opname, optiming);
 
-                this->injecting_fault_lock.lock();
-                this_ ()->command_unsynced_data_report (this->injecting_fault);
-                this->injecting_fault_lock.unlock();
+                this_ ()->command_unsynced_data_report (this->get_injecting_fault ());
                 
                 pid_t lazyfs_pid = getpid ();
 
@@ -210,9 +208,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
 
                             spdlog::critical ("Triggered fault condition (op={},timing={})", opname, optiming);
 
-                            this->injecting_fault_lock.lock();
-                            this_ ()->command_unsynced_data_report (this->injecting_fault);
-                            this->injecting_fault_lock.unlock();
+                            this_ ()->command_unsynced_data_report (this->get_injecting_fault ());
 
                             if (clear_fault->crash) {
 
@@ -357,6 +353,9 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
 
 void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
 
+    // alone, so that files and names do not change under the report
+    std::unique_lock<std::shared_mutex> lock (cache_command_lock);
+
     spdlog::warn ("[lazyfs.cmds]: report request submitted...");
 
     auto const& res = FSCache->report_unsynced_data ();
-- 
2.43.0


From e030f8b743d0073b1908f0c5e834dcbf179db89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:36 +0000
Subject: [PATCH 31/39] fix: accept the documented type "clear" of clear-cache
 faults

---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..1d5457f 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -325,7 +325,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                     }
                 }
 
-            } else if (type == CLEAR) {
+            } else if (type == CLEAR || type == "clear") { //As in the README
                 valid_fault = true;
                 error_msg = "The following errors were found in the configuration file for a fault of type \"clear-cache\": \n";
 
-- 
2.43.0


From 47104950a2e342b895934cf4327e1e9d1d616f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:26 +0000
Subject: [PATCH 32/39] fix: tear writes past 2 GiB at their place

---
 lazyfs/src/lazyfs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index a318e72..1ec4387 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -613,7 +613,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
                     fd = open(path, O_CREAT|O_WRONLY, 0666);
-                    vector<tuple<int,int,int>> persist_info; 
+                    vector<tuple<int,int,off_t>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
                     size_t size_to_persist;
@@ -640,7 +640,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 off_to_persist = offset + buf_i;
                             }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
+                            tuple <int,int,off_t> info_part (buf_i,size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                         }
                         
@@ -660,7 +660,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 final_size_to_persist += extra_size_to_persist;
                             }
                             
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
+                            tuple <int,int,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                          }
                     }
-- 
2.43.0


From 5b828919cd031b57e630903620c888a48a2d09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:09 +0000
Subject: [PATCH 33/39] fix: keep data of one-byte blocks

With io_block_size = 1 the block at the start of a page has the offsets
(0, 0), which update_block_data took for a block that is not there: the
write was dropped and read back as zero.
---
 libs/libpcache/src/engine/page/page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 7c3a34c..d38683f 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -133,7 +133,7 @@ bool Page::update_block_data (int block_id, char* new_data, size_t data_length,
     // block exists, update data
     int off_min = block_offsets.first;
 
-    if (block_offsets.first >= 0 && block_offsets.second > 0) {
+    if (block_offsets.first >= 0 && block_offsets.second >= 0) {
 
         assert (data_length <= this->config->IO_BLOCK_SIZE);
 
-- 
2.43.0


From b6f08ed324505528a8633843eef6498d2fa13300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:46 +0000
Subject: [PATCH 34/39] fix: search the path for the pattern of a crash fault

The pattern was put between '.*' and '.*' and had to match the whole path, so
that 'file1|file2' meant '.*file1' or 'file2.*' (which no path matches, paths
being absolute), and a name with a newline was never matched.
---
 lazyfs/src/lazyfs.cpp | 12 ++++++------
 lazyfs/src/main.cpp   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 1ec4387..7a48d2a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -149,15 +149,15 @@ void LazyFS::trigger_crash_fault (string opname,
             if (is_multi_path) {
 
                 string to = it.second;
-                std::regex to_rgx (".*" + to + ".*");
+                std::regex to_rgx (to);
 
-                regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_search (from_op_path, from_rgx);
                 if (to != "none")
-                    regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
+                    regex_match = regex_match && std::regex_search (to_op_path, to_rgx);
 
             } else {
 
-                regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_search (from_op_path, from_rgx);
             }
 
             if (regex_match) {
@@ -241,13 +241,13 @@ void LazyFS::add_crash_fault (string crash_timing,
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (crash_regex_from);
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
+        std::regex from_rgx (crash_regex_from);
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
     }
 }
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 02fc663..73e7913 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -147,7 +147,7 @@ void fht_worker (LazyFS* filesystem) {
 
                 for (auto const& rgx : {crash_from_rgx, crash_to_rgx}) {
                     try {
-                        std::regex check (".*" + rgx + ".*");
+                        std::regex check (rgx);
                     } catch (const std::regex_error& e) {
                         VF = false;
                         errors.push_back ("invalid regex '" + rgx + "'");
-- 
2.43.0


From 75542396421e489e8fb3e018322e34f4228f81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:53 +0000
Subject: [PATCH 35/39] fix: use a configuration whose path contains "-o"

---
 lazyfs/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 73e7913..2f58a06 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -487,7 +487,7 @@ int main (int argc, char* argv[]) {
 
         if (!strcmp (argv[i], "--config-path")) {
 
-            if (strcasestr (argv[i + 1], "-o"))
+            if (i + 1 >= argc || !strncasecmp (argv[i + 1], "-o", 2))
 
                 path_specified = false;
 
-- 
2.43.0


From cf313fff637c5bc3fbea60dfbc772f32e51ab4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:27 +0000
Subject: [PATCH 36/39] fix: survive long lists and long patterns in fault
 commands

---
 lazyfs/src/main.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 2f58a06..2bbbcc3 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -23,11 +23,28 @@
 using namespace lazyfs;
 
 #define MAX_READ_CHUNK 100
+#define MAX_REGEX_LENGTH 16384
 
 cache::config::Config std_config;
 std::thread faults_handler_thread;
 LazyFS fs;
 
+// numbers of at most nine digits separated by commas (std::regex would recurse
+// for each of them, and exhaust the stack if there are many)
+static bool is_list_of_numbers (const string& list) {
+
+    size_t digits = 0;
+
+    for (char c : list) {
+        if (c == ',' && digits > 0)
+            digits = 0;
+        else if (!isdigit ((unsigned char)c) || ++digits > 9)
+            return false;
+    }
+
+    return digits > 0;
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -147,6 +164,9 @@ void fht_worker (LazyFS* filesystem) {
 
                 for (auto const& rgx : {crash_from_rgx, crash_to_rgx}) {
                     try {
+                        // std::regex recurses for each character
+                        if (rgx.length () > MAX_REGEX_LENGTH)
+                            throw std::regex_error (std::regex_constants::error_space);
                         std::regex check (rgx);
                     } catch (const std::regex_error& e) {
                         VF = false;
@@ -267,9 +287,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts_bytes=", 0) == 0) {
                         
                         string tmp_parts_bytes = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
-                        if (!std::regex_match(tmp_parts_bytes, pattern)) {
+                        if (!is_list_of_numbers (tmp_parts_bytes)) {
                             errors.push_back ("parts_bytes should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
@@ -279,9 +298,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_persist = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
-                        if (!std::regex_match(tmp_persist, pattern)) {
+                        if (!is_list_of_numbers (tmp_persist)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
@@ -378,9 +396,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_per = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d{1,9},)*\d{1,9})");
 
-                        if (!std::regex_match(tmp_per, pattern)) {
+                        if (!is_list_of_numbers (tmp_per)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
-- 
2.43.0


From c1f2d9f714cc3ec0f2fc4f6bef6cf2e6da0120b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 37/39] fix: reject crash commands with unknown attributes

---
 lazyfs/src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 2bbbcc3..d4a3d80 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -149,6 +149,10 @@ void fht_worker (LazyFS* filesystem) {
 
                         if (tmp_to_rgx.length () != 0)
                             crash_to_rgx = tmp_to_rgx;
+
+                    } else if (current != "lazyfs" && current != "crash") {
+                        errors.push_back ("unknown attribute");
+                        VF = false;
                     }
                 }
 
-- 
2.43.0


From 33d0fcb7aeb4464ccef4333bc6cdf443377e27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 38/39] fix: modes given at creation must not lose bits to the
 umask of the LazyFS process

---
 lazyfs/src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index d4a3d80..0b075fa 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -635,6 +635,10 @@ int main (int argc, char* argv[]) {
 
     // Start LazyFS
 
+    // modes arrive with the umask of the caller applied
+
+    umask (0);
+
     int status = fs.run (new_argc, new_argv);
 
     return status;
-- 
2.43.0


From 1dce393e9961a3525201a7d35c61f0612fb838e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 39/39] fix: a read is cut short if its page is evicted for
 another file right after the block was copied

---
 libs/libpcache/src/cache.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 382a8b7..9b8b204 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -330,10 +330,14 @@ map<int, pair<bool, pair<int, int>>> Cache::get_data_blocks (string cid, map<int
     map<int, pair<bool, pair<int, int>>> cache_res;
 
     for (auto const& it : res) {
-        if (it.second == false)
+        // the page may be evicted for another file by now, but what was read stays as readable
+
+        pair<int, int> readable_offsets (0, 0);
+        if (it.second)
+            readable_offsets = item->get_data ()->_get_readable_offsets (it.first);
+        else
             item->get_data ()->remove_block (it.first);
-        cache_res.insert (
-            {it.first, std::make_pair (it.second, _get_readable_offsets (cid, item, it.first))});
+        cache_res.insert ({it.first, std::make_pair (it.second, readable_offsets)});
     }
 
     unlockItem (cid);
-- 
2.43.0

