From 700ea51355c233a57e64519f078b6445b5105fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 01/16] fix: skip list insertion aborts on an inverted height
 assertion

---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0


From 01f60b903db8dafaac9f2e00ebe9f08d8bd24f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 02/16] fix: memenv append-open of a new file left a null entry
 in the file table

---
 helpers/memenv/memenv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..516aad0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -282,6 +282,7 @@ class InMemoryEnv : public EnvWapper {
     if (file == nullptr) {
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From 1a23f0958c19af807761e762cf7349f35385088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 03/16] fix: memenv renaming a file onto itself destroyed it

---
 helpers/memenv/memenv.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 516aad0..02d49f0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -351,6 +351,10 @@ class InMemoryEnv : public EnvWapper {
       return Status::IOError(src, "File not found");
     }
 
+    if (src == target) {
+      return Status::OK();
+    }
+
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
     file_map_.erase(src);
-- 
2.43.0


From 0199127c31afaa6e05d68e820a03071be107ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 04/16] fix: memenv Skip could run past the end when the file
 was truncated meanwhile

---
 helpers/memenv/memenv.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 02d49f0..b228639 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -165,10 +165,12 @@ class SequentialFileImpl : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (pos_ > file_->Size()) {
+    // Take the size once: the file may be truncated by another thread.
+    const uint64_t size = file_->Size();
+    if (pos_ > size) {
       return Status::IOError("pos_ > file_->Slice()");
     }
-    const uint64_t available = file_->Size() - pos_;
+    const uint64_t available = size - pos_;
     if (n > available) {
       n = available;
     }
-- 
2.43.0


From a75686c31d8167364257bae87dab9c968f534a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 05/16] fix: memenv reports NotFound when opening a missing
 file for reading

---
 helpers/memenv/memenv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index b228639..fa04786 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -237,7 +237,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new SequentialFileImpl(file_map_[filename]);
@@ -249,7 +249,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new RandomAccessFileImpl(file_map_[filename]);
-- 
2.43.0


From 9c7884c57dbad4e4d78bde61ba9911358198b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 06/16] fix: cache capacities near the maximum overflowed to
 zero

---
 util/cache.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/cache.cc b/util/cache.cc
index 3830e26..f33848b 100644
--- a/util/cache.cc
+++ b/util/cache.cc
@@ -391,7 +391,9 @@ const int kNumShards = 1 << kNumShardBits;
 class ShardedLRUCache : public Cache {
  public:
   explicit ShardedLRUCache(size_t capacity) : last_id_(0) {
-    const size_t per_shard = (capacity + (kNumShards - 1)) / kNumShards;
+    // Round up without overflowing for capacities near the maximum.
+    const size_t per_shard =
+        capacity / kNumShards + (capacity % kNumShards != 0 ? 1 : 0);
     for (int s = 0; s < kNumShards; ++s) {
       shard_[s].SetCapacity(per_shard);
     }
-- 
2.43.0


From ea6b413b8c28549ed7d14f5b6506583604048a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/16] fix: reads of mapped files failed across the end and
 overflowed at huge offsets

---
 util/env_posix.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..149fe8d 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -12,6 +12,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <atomic>
 #include <cerrno>
 #include <cstddef>
@@ -227,10 +228,12 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    if (offset > length_) {
       *result = Slice();
       return PosixError(filename_, EINVAL);
     }
+    // A read that crosses the end of the file returns what is there.
+    n = static_cast<size_t>(std::min<uint64_t>(n, length_ - offset));
 
     *result = Slice(mmap_base_ + offset, n);
     return Status::OK();
-- 
2.43.0


From 2e5d7d6434cb6f7a78372c2e7c97e427e34f7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 08/16] fix: mapped files could be sized from another file
 after a concurrent rename

---
 util/env_posix.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 149fe8d..dd65e82 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -528,8 +528,15 @@ class PosixEnv : public Env {
       return Status::OK();
     }
 
-    uint64_t file_size;
-    Status status = GetFileSize(filename, &file_size);
+    // Size the opened file, not whatever the name refers to by now.
+    Status status;
+    uint64_t file_size = 0;
+    struct ::stat file_stat;
+    if (::fstat(fd, &file_stat) != 0) {
+      status = PosixError(filename, errno);
+    } else {
+      file_size = file_stat.st_size;
+    }
     if (status.ok()) {
       void* mmap_base =
           ::mmap(nullptr, file_size, PROT_READ, MAP_SHARED, fd, 0);
-- 
2.43.0


From 130b09db8944c8b3e1b14aaff6e87d5b9e450875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 09/16] fix: opening an empty file for random access failed

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index dd65e82..77cf9e8 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -537,6 +537,12 @@ class PosixEnv : public Env {
     } else {
       file_size = file_stat.st_size;
     }
+    if (status.ok() && file_size == 0) {
+      // mmap() rejects empty regions; use the descriptor instead.
+      mmap_limiter_.Release();
+      *result = new PosixRandomAccessFile(filename, fd, &fd_limiter_);
+      return Status::OK();
+    }
     if (status.ok()) {
       void* mmap_base =
           ::mmap(nullptr, file_size, PROT_READ, MAP_SHARED, fd, 0);
-- 
2.43.0


From 9e9002fc109cab46dae473dbc131bc91de5d3117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 10/16] fix: posix Skip went past the end, or backwards for
 huge counts

---
 util/env_posix.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 77cf9e8..ea01e86 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -128,7 +128,17 @@ class PosixSequentialFile final : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (::lseek(fd_, n, SEEK_CUR) == static_cast<off_t>(-1)) {
+    // Stop at the end of the file. This also keeps a huge n from being taken
+    // by lseek() as a negative offset.
+    const off_t pos = ::lseek(fd_, 0, SEEK_CUR);
+    struct ::stat file_stat;
+    if (pos == static_cast<off_t>(-1) || ::fstat(fd_, &file_stat) != 0) {
+      return PosixError(filename_, errno);
+    }
+    const uint64_t available =
+        (file_stat.st_size > pos) ? file_stat.st_size - pos : 0;
+    if (::lseek(fd_, std::min(n, available), SEEK_CUR) ==
+        static_cast<off_t>(-1)) {
       return PosixError(filename_, errno);
     }
     return Status::OK();
-- 
2.43.0


From d8182f88b65e36faa6636f8c1382f5978a4f789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 11/16] fix: a refused LockFile call dropped the lock that was
 held

---
 util/env_posix.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index ea01e86..20815b9 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -659,16 +659,19 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // This comes before open(): closing any descriptor of a file drops all the
+    // fcntl() locks that the process has on it.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      int open_errno = errno;
+      locks_.Remove(filename);
+      return PosixError(filename, open_errno);
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From e6d068a1b9dcb41a8d0fbd3f4f5662db28bb59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 12/16] fix: UnlockFile could drop a lock just taken by another
 thread

---
 util/env_posix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 20815b9..ddcc566 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -691,8 +691,10 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Closed before the name is free again: close() would drop a lock that
+    // another thread takes in between.
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From 8bf8e82f59ffebcb4bcb765acb0dfb26e9fba420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 13/16] fix: GetChildren reported a partial listing as success

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index ddcc566..c89af34 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -611,10 +611,16 @@ class PosixEnv : public Env {
       return PosixError(directory_path, errno);
     }
     struct ::dirent* entry;
+    errno = 0;
     while ((entry = ::readdir(dir)) != nullptr) {
       result->emplace_back(entry->d_name);
+      errno = 0;
     }
+    const int readdir_errno = errno;
     ::closedir(dir);
+    if (readdir_errno != 0) {
+      return PosixError(directory_path, readdir_errno);
+    }
     return Status::OK();
   }
 
-- 
2.43.0


From 93c0669ff6b59a02640b0fd6d58e9b7a97fd4bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 14/16] fix: syncing a manifest in the root directory failed

---
 util/env_posix.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index c89af34..8c7a13c 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -413,6 +413,9 @@ class PosixWritableFile final : public WritableFile {
     // If it does, the splitting was done incorrectly.
     assert(filename.find('/', separator_pos + 1) == std::string::npos);
 
+    if (separator_pos == 0) {
+      return std::string("/");
+    }
     return filename.substr(0, separator_pos);
   }
 
-- 
2.43.0


From 2db4fcec02d9b9cf8499dc640e284df7fe051f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 15/16] fix: the default NewAppendableFile left its result
 unset on failure

---
 util/env.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/env.cc b/util/env.cc
index ff7a9b3..6be7b6f 100644
--- a/util/env.cc
+++ b/util/env.cc
@@ -21,6 +21,7 @@ Env::Env() = default;
 Env::~Env() = default;
 
 Status Env::NewAppendableFile(const std::string &filename, WritableFile **result) {
+  *result = nullptr;
   return Status::NotSupported("NewAppendableFile", filename);
 }
 
-- 
2.43.0


From 37ed9fe020cb225e273f448ac78679a801e22e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:56 +0000
Subject: [PATCH 16/16] fix: %m in a log format stands for the errno of the
 caller

---
 util/posix_logger.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/posix_logger.h b/util/posix_logger.h
index 9bd7c40..e5561c4 100644
--- a/util/posix_logger.h
+++ b/util/posix_logger.h
@@ -10,6 +10,7 @@
 #include <sys/time.h>
 
 #include <cassert>
+#include <cerrno>
 #include <cstdarg>
 #include <cstdio>
 #include <ctime>
@@ -30,6 +31,10 @@ class PosixLogger final : public Logger {
   ~PosixLogger() override { std::fclose(fp_); }
 
   void Logv(const char* format, std::va_list arguments) override {
+    // A "%m" in the format stands for the caller's errno, which the calls below
+    // may change.
+    const int caller_errno = errno;
+
     // Record the time as close to the Logv() call as possible.
     struct ::timeval now_timeval {};
     ::gettimeofday(&now_timeval, nullptr);
@@ -79,6 +84,7 @@ class PosixLogger final : public Logger {
       // Print the message into the buffer.
       std::va_list arguments_copy;
       va_copy(arguments_copy, arguments);
+      errno = caller_errno;
       buffer_offset +=
           std::vsnprintf(buffer + buffer_offset, buffer_size - buffer_offset,
               format, arguments_copy);
-- 
2.43.0

